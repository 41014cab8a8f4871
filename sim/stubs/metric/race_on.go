//go:build race

package metric

const raceBuild = true
