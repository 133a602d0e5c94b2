//go:build !race

package main

const monitored = false

func conflicts() int { return 0 }
