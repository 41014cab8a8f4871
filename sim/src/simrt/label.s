// Lets this package declare functions without bodies (go:linkname).
