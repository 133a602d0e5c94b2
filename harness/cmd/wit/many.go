package main

import (
	"fmt"
	"strings"

	wit "github.com/patrickhuber/go-wasm/wit/parse"
	"verif/harness/mc"
)

// many: a text in which something stands a number of times.
func many() mc.Family {
	type repeat struct{ before, each, after string }
	in := func(b, e, a string) repeat { return repeat{"interface i {" + b, e, a + "}"} }
	wo := func(b, e, a string) repeat { return repeat{"world w {" + b, e, a + "}"} }
	rs := []repeat{
		{"", "interface i%d {}", ""}, {"", "world w%d {}", ""}, {"package a:b;", "use a%d;", ""}, {"", "use a:b/c%d@%d.0.1 as d%d;", ""},
		in("", "type t%d = u8;", ""), in("", "f%d: func();", ""), in("", "resource r%d;", ""), in("", "record r%d {a: u8}", ""), in("", "enum e%d {a}", ""), in("", "flags f%d {a}", ""), in("", "variant v%d {a}", ""), in("", "use a%d.{b%d};", ""),
		in("record r {", "f%d: u8,", "}"), in("flags f {", "f%d,", "}"), in("enum e {", "c%d,", "}"), in("variant v {", "c%d,", "}"), in("variant v {", "c%d(u8),", "}"), in("use a.{", "b%d,", "};"), in("use a.{", "b%d as c%d,", "};"),
		in("f: func(", "p%d: u8,", "z: char);"), in("f: func() -> (", "r%d: u8,", "z: char);"), in("type t = tuple<", "u8,", "string>;"), in("type t = tuple<", "t%d,", "string>;"),
		in("resource r {", "m%d: func();", "}"), in("resource r {", "m%d: static func();", "}"), in("resource r {", "constructor(a%d: u8);", "}"), in("resource r { constructor(", "p%d: u8,", "z: char); }"), in("resource r { m: func(", "p%d: u8,", "z: char); }"), in("resource r { m: static func(", "p%d: u8,", "z: char); }"),
		wo("", "import i%d;", ""), wo("", "export i%d: func();", ""), wo("", "include w%d;", ""), wo("include w with {", "a%d as b%d,", "c as d}"), wo("import i: interface {", "f%d: func();", "}"), wo("export i: interface {", "type t%d = u8;", "}"), wo("", "type t%d = u8;", ""), wo("", "use a%d.{b};", ""), wo("", "import a:b/c%d;", ""), wo("", "resource r%d;", ""),
		in("type ", "x", " = u8;"), in("type t = u8;", " ", ""), in("type t = u8;", "// %d\n", ""), in("type t = u8;", "/*%d*/", ""), {"package a:b@1", "0", ".0.0;"},
	}
	text := func(r repeat, n int) string {
		var b strings.Builder
		b.WriteString(r.before)
		for i := 0; i < n; i++ {
			b.WriteString(strings.ReplaceAll(r.each, "%d", fmt.Sprint(i)))
		}
		b.WriteString(r.after)
		return b.String()
	}
	var ok []repeat
	for _, r := range rs { // only what is in the supported part of the language
		if _, v := refParse(text(r, 3)); v == accept {
			ok = append(ok, r)
		}
	}
	times := []int{41, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001, 65535, 65536, 65537}
	return mc.Family{Name: "many", Bound: fmt.Sprintf("%d places for any number of items, members, names, types, blanks or characters, with %v of them, all different where they have a name", len(ok), times), N: int64(len(ok) * len(times)),
		Run: func(w *mc.W, i int64) {
			x := mc.Mixed(i, len(ok), len(times))
			r, n := ok[x[0]], times[x[1]]
			w.Desc(func() string { return fmt.Sprintf("%s, %d times %s, %s", r.before, n, r.each, r.after) })
			w.Distinct()
			w.Step(1)
			if pv := mc.Safe(func() {
				s := text(r, n)
				ref, v := refParse(s)
				a, err := wit.Parse(s)
				if v != accept {
					return
				}
				if err != nil {
					w.Fail("refused", "the text is well-formed, but: %.300v", err)
				} else if exp, got := dump(ref), dump(a); exp != got {
					k := 0
					for k < len(exp) && k < len(got) && exp[k] == got[k] {
						k++
					}
					w.Fail("tree", "the tree differs after %d of %d characters: %.100q instead of %.100q", k, len(exp), got[k:], exp[k:])
				}
			}); pv != nil {
				w.Fail("panic", "%.300v", pv)
			}
			w.Trace(fmt.Sprintf("%d", n))
		}}
}
