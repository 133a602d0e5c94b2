package main

import (
	"fmt"
	"strings"

	wastparse "github.com/patrickhuber/go-wasm/wast/parse"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"verif/harness/mc"
)

// repeat is a text in which something can stand any number of times.
type repeat struct {
	before, each, after string // %d is the number of the repetition
}

func (r repeat) text(n int) string {
	var b strings.Builder
	b.WriteString(r.before)
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(r.each, "%d", fmt.Sprint(i)))
	}
	b.WriteString(r.after)
	return b.String()
}

var manyTimes = []int{9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001, 65535, 65536, 65537}

// manyFamily parses each text with each number of repetitions. trees gives what the text has to be parsed as, and what it is.
func manyFamily(what string, rs []repeat, trees func(s string) (exp, got string, err error)) mc.Family {
	return mc.Family{Name: "many", Bound: fmt.Sprintf("%d places for any number of %s, with %v of them, all different where they have a name or value", len(rs), what, manyTimes), N: int64(len(rs) * len(manyTimes)),
		Run: func(w *mc.W, i int64) {
			x := mc.Mixed(i, len(rs), len(manyTimes))
			r, n := rs[x[0]], manyTimes[x[1]]
			w.Desc(func() string { return fmt.Sprintf("%s, %d times %s, %s", r.before, n, r.each, r.after) })
			w.Distinct()
			w.Step(1)
			if pv := mc.Safe(func() {
				exp, got, err := trees(r.text(n))
				if err != nil {
					w.Fail("refused", "the text is well-formed, but: %.300v", err)
				} else if exp != got {
					k := 0
					for k < len(exp) && k < len(got) && exp[k] == got[k] {
						k++
					}
					w.Fail("tree", "the tree differs after %d of %d characters: %.100q instead of %.100q", k, len(exp), got[k:], exp[k:])
				}
			}); pv != nil {
				w.Fail("panic", "%.300v", pv)
			}
			w.Trace(fmt.Sprintf("%d", n))
		}}
}

func manyFields() mc.Family {
	f := func(b, e, a string) repeat { return repeat{"(module (func " + b, e, a + "))"} }
	rs := []repeat{
		{"(module", "(func $f%d)", ")"}, {"(module", "(type $t%d(func))", ")"}, {"(module", "(table $t%d %d funcref)", ")"}, {"(module", "(memory $m%d %d)", ")"}, {"(module", "(global $g%d i32 i32.const %d)", ")"},
		{"(module", "(func)(type(func))(table 1 funcref)(memory %d)(global $g%d f32)", ")"},
		f("", `(export "e%d")`, ""), f("", "(param $p%d i64)", ""), f("", "(param i32 f64)", ""), f("(param", " i32", ")"), f("", "(result f32)", ""), f("(result", " f64", ")"), f("", "(local $l%d i32)", ""), f("(local", " i64", ")"),
		f("", " i32.const %d", ""), f("", "(i32.const %d)", ""), f("", " local.get $l%d drop", ""), f("block", " i64.const %d", " end"), f("loop", " br %d", " end"), f("if", " drop", " else drop end"), f("if drop else", " call %d", " end"),
		f("(drop", "(i32.const %d)", ")"), f("(block", "(local.get %d)", ")"), f("(if (then", "(f32.const %d)", "))"), f("(if (then) (else", "(f64.const %d)", "))"), f("(if", "(i32.const %d)", "(then))"), f("br_table", " %d", ""), f("br_table", " $l%d", ""), f("", "block end ", ""), f("", "(block)", ""),
		{"(module (type (func", "(param $p%d i32)", ")))"}, {"(module (type (func", "(result i32)", ")))"}, {"(module (table funcref (elem", " $f%d", ")))"}, {"(module (global i32", " i32.const %d", "))"},
		{"(module", " ", ")"}, {"(module", ";;%d\n", ")"}, {"(module", "(;%d;)", ")"}, {`(module (func (export "`, "x", `")))`}, {`(module (func (export "`, `\u{e9}`, `")))`}, {"(module (func $", "x", "))"}, {"(module (func i32.const ", "0", "1))"},
	}
	var out []repeat
	for _, r := range rs { // only what is in the supported part of the language
		if _, v, whole := refDirective(r.text(3)); v == accept && whole == accept {
			out = append(out, r)
		}
	}
	return manyFamily("module fields, members, instructions, operands, blanks or characters", out, func(s string) (string, string, error) {
		d, _, _ := refDirective(s)
		got, err := parse.Parse(lex.New(s))
		return dump(d), dump(got), err
	})
}

func manyDirectives() mc.Family {
	rs := []repeat{
		{"", "(module)", ""}, {"", "(component)", ""}, {"", "(module (func $f%d))", ""}, {"", `(module quote "%d")`, ""}, {"", `(assert_return (invoke "f%d") (i32.const %d))`, ""}, {"", `(assert_trap (invoke "f%d") "t%d")`, ""},
		{"", `(assert_invalid (module) "t%d")`, ""}, {"", `(assert_malformed (module quote "%d") "t%d")`, ""}, {"(module)", `(assert_return (invoke "f"))(assert_malformed (module quote "(") "%d")`, "(module)"},
		{`(assert_return (invoke "f"`, "(i32.const %d)", "))"}, {`(assert_return (invoke "f")`, "(i64.const %d)", ")"}, {`(assert_trap (invoke "f"`, "(f32.const %d)", `) "")`}, {`(assert_return (invoke "f"`, "(f64.const %d)(i32.const 1)", ") (i32.const 1))"},
		{`(assert_trap (invoke "f") "`, "x", `")`}, {`(assert_malformed (module quote "`, `\"`, `") "")`}, {"(module)", " ", ""}, {"(module)", ";;%d\n", "(module)"},
	}
	for _, r := range rs {
		p := &refParser{s: r.text(3)}
		if p.try(func() { p.script() }) != accept {
			panic("not a script: " + r.text(3))
		}
	}
	return manyFamily("directives, arguments, results or characters", rs, func(s string) (string, string, error) {
		p := &refParser{s: s}
		exp := ""
		p.try(func() { exp = dump(p.script()) })
		got, err := wastparse.Parse(s)
		return exp, dump(got), err
	})
}
