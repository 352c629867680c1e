//go:build !race

package sym

// RaceErrors is 0 without the race detector.
func RaceErrors() int { return 0 }
