// Command abi explores the Canonical ABI implementation (properties C01–C12, C29 and C32).
package main

import "verif/harness/mc"

func main() {
	mc.Main([]mc.Property{
		{ID: "C01", Families: c01},
		{ID: "C02", Families: c02},
		{ID: "C03", Families: c03},
		{ID: "C04", Families: c04},
		{ID: "C05", Families: c05},
		{ID: "C06", Families: c06},
		{ID: "C07", Families: c07},
		{ID: "C08", Families: c08},
		{ID: "C09", Families: c09},
		{ID: "C10", Families: c10},
		{ID: "C11", Families: c11},
		{ID: "C12", Families: c12},
		{ID: "C29", Families: c29},
		{ID: "C32", Families: c32},
	})
}
