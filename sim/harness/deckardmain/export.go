package deckardmain

// Main runs the process.
func Main() { main() }
