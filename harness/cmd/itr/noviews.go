//go:build !extra

package main

import "verif/harness/mc"

// views are not explored when they cannot be made from outside.
func views(int) []mc.Family { return nil }
