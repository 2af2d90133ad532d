//go:build race

package main

import "runtime"

// raceErrors is the number of data races that were detected.
func raceErrors() int { return runtime.RaceErrors() }
