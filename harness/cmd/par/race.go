//go:build race

package main

import "runtime"

const monitored = true

// conflicts is the number of conflicting accesses seen so far.
func conflicts() int { return runtime.RaceErrors() }
