// Command wit explores the interface language lexer and parser (properties C22–C24).
package main

import "verif/harness/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "C22", Families: c22},
		{ID: "C23", Families: c23},
		{ID: "C24", Families: c24},
	})
}
