// Command bin explores LEB128 and the binary decoder (properties C13–C16).
package main

import "verif/harness/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "C13", Families: c13},
		{ID: "C14", Families: c14},
		{ID: "C15", Families: c15},
		{ID: "C16", Families: c16},
	})
}
