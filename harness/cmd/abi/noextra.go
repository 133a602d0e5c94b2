//go:build !extra

package main

import "verif/harness/mc"

// Without the transfers that no lowering goes through there is nothing more to explore.
func extraC06([]int) []mc.Family { return nil }
func extraC07(int) []mc.Family   { return nil }
