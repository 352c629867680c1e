//go:build race

package sym

import "runtime"

// RaceErrors is the number of data races the race detector has reported.
func RaceErrors() int { return runtime.RaceErrors() }
