// Command wat explores the text format lexer and parsers (properties C17–C21 and C31).
package main

import "verif/harness/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "C17", Families: c17},
		{ID: "C18", Families: c18},
		{ID: "C19", Families: c19},
		{ID: "C20", Families: c20},
		{ID: "C21", Families: c21},
		{ID: "C31", Families: c31},
	})
}
