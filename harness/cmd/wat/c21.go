package main

import (
	"fmt"
	"math"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/patrickhuber/go-types/option"
	wast "github.com/patrickhuber/go-wasm/wast/ast"
	wastparse "github.com/patrickhuber/go-wasm/wast/parse"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/token"
	"verif/harness/mc"
)

// script is the reference parser for scripts.
func (p *refParser) script() *wast.Wast {
	out := &wast.Wast{}
	for p.peek().kind != token.EndOfStream {
		out.Directives = append(out.Directives, p.command())
	}
	return out
}

func (p *refParser) command() wast.Directive {
	if p.at("module") || p.at("component") {
		return wast.WatDirective{Wat: p.quoted()}
	}
	p.expect("(")
	var d wast.Directive
	switch p.next().text {
	case "assert_return":
		a := wast.AssertReturn{Action: p.action()}
		for p.peek().text == "(" {
			a.Results = append(a.Results, p.constant().(wast.Result))
		}
		d = a
	case "assert_trap":
		if p.at("module") || p.at("component") {
			p.either()
		}
		d = wast.AssertTrap{Action: p.action(), Failure: p.str()}
	case "assert_invalid":
		d = wast.AssertInvalid{Module: p.quoted(), Failure: p.str()}
	case "assert_malformed":
		d = wast.AssertMalformed{Module: p.quoted(), Failure: p.str()}
	case "invoke", "get", "register", "assert_exhaustion", "assert_unlinkable", "assert_exception", "script", "input", "output":
		p.either()
	default:
		p.reject()
	}
	p.expect(")")
	return d
}

// quoted is a module or component, inline or as text.
func (p *refParser) quoted() wast.QuoteWat {
	if !p.at("module") && !p.at("component") {
		p.reject()
	}
	kind := p.peekN(1).text
	if n := p.peekN(2); n.kind == token.Id || n.text == "binary" || n.text == "definition" || n.text == "instance" {
		p.either()
	}
	if p.peekN(2).text != "quote" {
		return wast.Wat{Wat: p.directive()}
	}
	p.i += 3
	if p.peek().text == ")" {
		p.either() // no text at all
	}
	s := p.str()
	if p.peek().kind == token.String {
		p.either() // several pieces of text
	}
	p.expect(")")
	if kind == "module" {
		return wast.QuoteModule{Quote: s}
	}
	return wast.QuoteComponent{Quote: s}
}

func (p *refParser) action() wast.Action {
	p.expect("(")
	switch p.next().text {
	case "invoke":
	case "get":
		p.either()
	default:
		p.reject()
	}
	a := wast.Invoke{Name: p.id(), String: p.str()}
	for p.peek().text == "(" {
		a.Const = append(a.Const, p.constant().(wast.Const))
	}
	p.expect(")")
	return a
}

func (p *refParser) constant() any {
	p.expect("(")
	var c any
	switch p.next().text {
	case "i32.const":
		c = wast.I32Const{Value: int32(p.num(i32))}
	case "i64.const":
		c = wast.I64Const{Value: int64(p.num(i64))}
	case "f32.const":
		c = wast.F32Const{Value: math.Float32frombits(uint32(p.scriptNum(f32, 0x7fc00000)))}
	case "f64.const":
		c = wast.F64Const{Value: math.Float64frombits(p.scriptNum(f64, 0x7ff8<<48))}
	case "ref.null", "ref.extern", "ref.func", "v128.const", "either":
		p.either()
	default:
		p.reject()
	}
	p.expect(")")
	return c
}

func (p *refParser) scriptNum(ref func(string) want, nan uint64) uint64 {
	if t := p.peek().text; t == "nan:canonical" || t == "nan:arithmetic" {
		p.next()
		return nan
	}
	return p.num(ref)
}

func judgeScript(w *mc.W, s string) {
	var sc *wast.Wast
	p := &refParser{s: s}
	v := p.try(func() { sc = p.script() })
	exp := ""
	if v == accept {
		exp = dump(sc)
	}
	compareScript(w, s, exp, v)
}

func compareScript(w *mc.W, s, exp string, v verdict) {
	w.Desc(func() string { return s })
	w.Step(1)
	out := "malformed"
	if pv := mc.Safe(func() {
		d, err := wastparse.Parse(s)
		switch v {
		case accept:
			out = fmt.Sprintf("script of %d", min(strings.Count(exp, "Failure")+strings.Count(exp, "AssertReturn")+strings.Count(exp, "WatDirective"), 5))
			if err != nil {
				w.Fail("refused", "the script is well-formed, but: %v", err)
			} else if got := dump(d); got != exp {
				w.Fail("tree "+difference(exp, got), "parsed as\n    %s\n  instead of\n    %s", got, exp)
			}
		case refuse:
			if err == nil {
				w.Fail("accepted", "the script is malformed, but parsed as\n    %s", dump(d))
			}
		default:
			out = "undecided"
			if err == nil && strings.Contains(dump(d), "nothing") {
				w.Fail("hole", "parsed as a script with a missing node: %s", dump(d))
			}
		}
	}); pv != nil {
		w.Fail("panic", "%v", pv)
		return
	}
	w.Trace(out)
}

// line is a directive with its tokens.
type line struct {
	toks []string
	tree wast.Directive
}

func lines() []line {
	sp := strings.Fields
	mod := &ast.Module{Functions: []ast.Function{{ID: option.Some("$f"), Exports: []ast.InlineExport{{Name: "e"}}, Instructions: []ast.Instruction{ast.Drop{}, ast.I32Const{Value: 1}}}}}
	modToks := sp(`( module ( func $f ( export "e" ) drop ( i32.const 1 ) ) )`)
	inv := wast.Invoke{String: "f"}
	cat := func(parts ...[]string) []string {
		var out []string
		for _, p := range parts {
			out = append(out, p...)
		}
		return out
	}
	return []line{
		{sp(`( module )`), wast.WatDirective{Wat: wast.Wat{Wat: &ast.Module{}}}},
		{sp(`( component )`), wast.WatDirective{Wat: wast.Wat{Wat: &ast.Component{}}}},
		{modToks, wast.WatDirective{Wat: wast.Wat{Wat: mod}}},
		{sp(`( module quote "(func)" )`), wast.WatDirective{Wat: wast.QuoteModule{Quote: "(func)"}}},
		{[]string{"(", "component", "quote", `"\"a\" \5c\u{e9}"`, ")"}, wast.WatDirective{Wat: wast.QuoteComponent{Quote: "\"a\" \\é"}}},
		{sp(`( assert_return ( invoke "f" ) )`), wast.AssertReturn{Action: inv}},
		{sp(`( assert_return ( invoke $m "f" ( i32.const -1 ) ( i64.const 0x10 ) ) ( f32.const 1.5 ) )`), wast.AssertReturn{
			Action: wast.Invoke{Name: option.Some("$m"), String: "f", Const: []wast.Const{wast.I32Const{Value: -1}, wast.I64Const{Value: 16}}}, Results: []wast.Result{wast.F32Const{Value: 1.5}}}},
		{sp(`( assert_return ( invoke "" ( f32.const -0x1p-3 ) ( f64.const inf ) ) ( f64.const nan:canonical ) ( f32.const nan:arithmetic ) ( i32.const 4294967295 ) )`), wast.AssertReturn{
			Action: wast.Invoke{Const: []wast.Const{wast.F32Const{Value: -0.125}, wast.F64Const{Value: math.Inf(1)}}}, Results: []wast.Result{wast.F64Const{Value: math.NaN()}, wast.F32Const{Value: float32(math.NaN())}, wast.I32Const{Value: -1}}}},
		{[]string{"(", "assert_trap", "(", "invoke", `"a\"b"`, "(", "i32.const", "0", ")", ")", `"integer divide by zero\n"`, ")"}, wast.AssertTrap{Action: wast.Invoke{String: `a"b`, Const: []wast.Const{wast.I32Const{}}}, Failure: "integer divide by zero\n"}},
		{sp(`( assert_trap ( invoke $x "f" ) "" )`), wast.AssertTrap{Action: wast.Invoke{Name: option.Some("$x"), String: "f"}}},
		{cat(sp(`( assert_invalid`), modToks, sp(`"type" )`)), wast.AssertInvalid{Module: wast.Wat{Wat: mod}, Failure: "type"}},
		{sp(`( assert_invalid ( module quote "x" ) "m" )`), wast.AssertInvalid{Module: wast.QuoteModule{Quote: "x"}, Failure: "m"}},
		{sp(`( assert_invalid ( component ) "m" )`), wast.AssertInvalid{Module: wast.Wat{Wat: &ast.Component{}}, Failure: "m"}},
		{sp(`( assert_malformed ( module quote "(;" ) "unknown" )`), wast.AssertMalformed{Module: wast.QuoteModule{Quote: "(;"}, Failure: "unknown"}},
		{sp(`( assert_malformed ( component quote "" ) "" )`), wast.AssertMalformed{Module: wast.QuoteComponent{}}},
		{cat(sp(`( assert_malformed`), modToks, sp(`"m" )`)), wast.AssertMalformed{Module: wast.Wat{Wat: mod}, Failure: "m"}},
	}
}

// scriptTree builds the expected script, spelling out strings and names like the reference parser.
func scriptTree(ds ...wast.Directive) string { return dump(&wast.Wast{Directives: ds}) }

func c21(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	ls := lines()
	var fs []mc.Family
	n := pick(4, 5)
	fs = append(fs, mc.Family{Name: "scripts", Bound: fmt.Sprintf("every sequence of up to %d out of %d directives, spaced and tight", n, len(ls)), N: mc.SeqCount(len(ls), n),
		Run: func(w *mc.W, i int64) {
			var buf [8]int
			var toks []string
			var ds []wast.Directive
			for _, x := range mc.Seq(i, len(ls), n, buf[:0]) {
				toks = append(toks, ls[x].toks...)
				ds = append(ds, ls[x].tree)
			}
			exp := scriptTree(ds...)
			for _, s := range []string{strings.Join(toks, " "), tight(toks)} {
				w.Distinct()
				compareScript(w, s, exp, accept)
			}
		}})
	// constants
	nums := []struct{ text, bits string }{{"0", ""}, {"1", ""}, {"-1", ""}, {"0x7fff_ffff", ""}, {"-0x8000_0000", ""}, {"+12", ""}, {"00012", ""}}
	kinds := []string{"i32.const", "i64.const", "f32.const", "f64.const"}
	k := pick(3, 4)
	total := mc.SeqCount(len(kinds), k)
	fs = append(fs, mc.Family{Name: "constants", Bound: fmt.Sprintf("up to %d arguments and up to %d results of every type, values different by position", k, k), N: total * total,
		Run: func(w *mc.W, i int64) {
			var b1, b2 [8]int
			as, rs := mc.Seq(i/total, len(kinds), k, b1[:0]), mc.Seq(i%total, len(kinds), k, b2[:0])
			var toks []string
			add := func(kind, v int) any {
				x := nums[v%len(nums)].text
				toks = append(toks, "(", kinds[kind], x, ")")
				switch kind {
				case 0:
					return wast.I32Const{Value: int32(refInt(x, 32).bits)}
				case 1:
					return wast.I64Const{Value: int64(refInt(x, 64).bits)}
				case 2:
					return wast.F32Const{Value: math.Float32frombits(uint32(refFloat(x, 32).bits))}
				}
				return wast.F64Const{Value: math.Float64frombits(refFloat(x, 64).bits)}
			}
			inv := wast.Invoke{String: "f"}
			toks = append(toks, "(", "assert_return", "(", "invoke", `"f"`)
			for j, x := range as {
				inv.Const = append(inv.Const, add(x, j).(wast.Const))
			}
			toks = append(toks, ")")
			ret := wast.AssertReturn{}
			for j, x := range rs {
				ret.Results = append(ret.Results, add(x, j+3).(wast.Result))
			}
			ret.Action = inv
			toks = append(toks, ")")
			s := strings.Join(toks, " ")
			w.State(s)
			compareScript(w, s, scriptTree(ret), accept)
		}})
	// strings in every position
	alpha := []string{"a", `\"`, `\\`, `\n`, `\t`, `\41`, `\u{1f600}`, "é", " ", "(", ";;", `\00`, `\'`, "'"}
	m := pick(3, 4)
	fs = append(fs, mc.Family{Name: "strings", Bound: fmt.Sprintf("every string of up to %d out of %d characters and escapes as name, message and quoted text", m, len(alpha)), N: mc.SeqCount(len(alpha), m),
		Run: func(w *mc.W, i int64) {
			var buf [8]int
			s := ""
			for _, x := range mc.Seq(i, len(alpha), m, buf[:0]) {
				s += alpha[x]
			}
			lit := `"` + s + `"`
			val := (&refParser{}).unquote(lit)
			for _, c := range []struct {
				text string
				d    wast.Directive
			}{
				{"(assert_return (invoke " + lit + "))", wast.AssertReturn{Action: wast.Invoke{String: val}}},
				{"(assert_trap (invoke $m" + lit + ")" + lit + ")", wast.AssertTrap{Action: wast.Invoke{Name: option.Some("$m"), String: val}, Failure: val}},
				{"(module quote" + lit + ")", wast.WatDirective{Wat: wast.QuoteModule{Quote: val}}},
				{"(assert_malformed(component quote " + lit + ")" + lit + ")", wast.AssertMalformed{Module: wast.QuoteComponent{Quote: val}, Failure: val}},
				{"(module (func (export " + lit + ")))", wast.WatDirective{Wat: wast.Wat{Wat: &ast.Module{Functions: []ast.Function{{Exports: []ast.InlineExport{{Name: val}}}}}}}},
			} {
				w.State(c.text)
				compareScript(w, c.text, scriptTree(c.d), accept)
			}
		}})
	// layout: fill every gap
	type gap struct {
		line, at int
	}
	var gaps []gap
	for l := range ls {
		for j := 0; j <= len(ls[l].toks); j++ {
			gaps = append(gaps, gap{l, j})
		}
	}
	fs = append(fs, mc.Family{Name: "layout", Bound: fmt.Sprintf("every directive followed by another, with each gap filled with each of %d spaces and comments", len(layoutFillers)), N: int64(len(gaps)),
		Run: func(w *mc.W, i int64) {
			g := gaps[i]
			toks := ls[g.line].toks
			exp := scriptTree(ls[g.line].tree, ls[5].tree)
			for _, fill := range layoutFillers {
				for _, base := range []string{"", " ", "\n", ";;x\n"} {
					var b strings.Builder
					all := append(append([]string{}, toks...), ls[5].toks...)
					for j := range all {
						word := j > 0 && isIdChar(all[j][0]) && isIdChar(all[j-1][len(all[j-1])-1])
						s := base
						if j == g.at {
							s = fill
						} else if s == "" && word {
							s = " "
						}
						if strings.HasPrefix(s, ";") && j > 0 && all[j-1] == "(" {
							b.WriteByte(' ')
						}
						b.WriteString(s + all[j])
					}
					w.State(b.String())
					compareScript(w, b.String(), exp, accept)
				}
			}
		}})
	// corruptions
	vocab := []string{"(", ")", "module", "component", "quote", "binary", "func", "assert_return", "assert_trap", "assert_invalid", "assert_malformed", "assert_exhaustion", "invoke", "get",
		"i32.const", "i64.const", "f32.const", "f64.const", "ref.null", "ref.extern", "i32", "drop", "$x", "0", "-1", "1.5", "nan:canonical", "4294967296", `"s"`, `"`, "unknown", "invok", "$", ",", "(;", ";;"}
	var base [][]string
	for l := range ls {
		base = append(base, ls[l].toks)
	}
	base = append(base, append(append([]string{}, ls[5].toks...), ls[8].toks...), append(append([]string{}, ls[0].toks...), ls[13].toks...))
	var at []int64
	sum := int64(0)
	for _, toks := range base {
		at = append(at, sum)
		sum += corruptions(len(toks), len(vocab))
	}
	fs = append(fs, mc.Family{Name: "single corruptions", Bound: fmt.Sprintf("every deletion, truncation, duplication, exchange, and every replacement by and insertion of one of %d tokens, of %d scripts", len(vocab), len(base)), N: sum,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(at), func(k int) bool { return at[k] > i }) - 1
			toks := corrupt(base[k], i-at[k], vocab)
			for _, s := range []string{strings.Join(toks, " "), strings.Join(toks, "\n")} {
				w.State(s)
				judgeScript(w, s)
			}
		}})
	var at2 []int64
	sum2 := int64(0)
	small := []string{"(", ")", "module", "quote", "invoke", "assert_return", "i32.const", "$x", "1", `"s"`, "x"}
	var double [][]string
	for _, toks := range base {
		if len(toks) <= pick(13, 30) {
			double = append(double, toks)
		}
	}
	for _, toks := range double {
		at2 = append(at2, sum2)
		sum2 += corruptions(len(toks), len(small))
	}
	fs = append(fs, mc.Family{Name: "double corruptions", Bound: fmt.Sprintf("every pair of corruptions with a vocabulary of %d tokens of %d scripts", len(small), len(double)), N: sum2,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(at2), func(k int) bool { return at2[k] > i }) - 1
			once := corrupt(double[k], i-at2[k], small)
			for j := int64(0); j < corruptions(len(once), len(small)); j++ {
				w.Distinct()
				judgeScript(w, strings.Join(corrupt(once, j, small), " "))
			}
		}})
	type ctx struct {
		pre, post string
		vocab     []string
		n         int
	}
	for _, c := range []ctx{
		{"", "", []string{"(", ")", "module", "component", "quote", `"s"`, "assert_trap", "invoke", "$x", "1", ";;"}, pick(5, 6)},
		{"(assert_return", ")", []string{"(", ")", "invoke", "get", "$x", `"s"`, "i32.const", "1", "x"}, pick(6, 7)},
		{`(assert_return (invoke "f"`, "))", []string{"(", ")", "i32.const", "f64.const", "ref.null", "1", "1.5", "nan", "$x", "x"}, pick(5, 7)},
		{`(assert_return (invoke "f")`, ")", []string{"(", ")", "i64.const", "f32.const", "ref.extern", "1", "1.5", "nan:canonical", "-1", "invoke"}, pick(5, 7)},
		{`(assert_trap (invoke`, ")", []string{"(", ")", "i32.const", "1", "$x", `"s"`, "x"}, pick(6, 8)},
		{`(assert_invalid`, ")", []string{"(", ")", "module", "component", "quote", "func", `"s"`, "invoke"}, pick(6, 7)},
		{`(assert_malformed`, ")", []string{"(", ")", "module", "component", "quote", "binary", `"s"`, "$x"}, pick(6, 7)},
		{`(assert_malformed (module`, ` "m")`, []string{"(", ")", "quote", "func", `"s"`, "$x", "drop"}, pick(6, 8)},
		{`(`, `(module quote "s") "m")`, []string{"assert_invalid", "assert_malformed", "assert_return", "assert_trap", "x", "(", ")", `"s"`}, pick(5, 6)},
	} {
		fs = append(fs, mc.Family{Name: "sequences in " + c.pre + "…" + c.post, Bound: fmt.Sprintf("every sequence of up to %d out of %q", c.n, c.vocab), N: mc.SeqCount(len(c.vocab), c.n),
			Run: func(w *mc.W, i int64) {
				var buf [8]int
				var b strings.Builder
				b.WriteString(c.pre)
				for _, x := range mc.Seq(i, len(c.vocab), c.n, buf[:0]) {
					b.WriteByte(' ')
					b.WriteString(c.vocab[x])
				}
				if c.post != "" {
					b.WriteByte(' ')
				}
				b.WriteString(c.post)
				w.Distinct()
				judgeScript(w, b.String())
			}})
	}
	// every byte
	fs = append(fs, mc.Family{Name: "bytes", Bound: fmt.Sprintf("every truncation, deletion, and replacement and insertion of one of 30 bytes, at every byte of %d scripts", len(base)), N: int64(len(base)),
		Run: func(w *mc.W, i int64) {
			s := tight(base[i])
			for j := 0; j <= len(s); j++ {
				w.State(s[:j])
				judgeScript(w, s[:j])
				for _, c := range []byte("()\";$\\ \n,ax0_-+.e:\x00\x7f\x80\xff\xc3[{'19A") {
					t := s[:j] + string([]byte{c}) + s[j:]
					w.State(t)
					judgeScript(w, t)
					if j < len(s) {
						t = s[:j] + string([]byte{c}) + s[j+1:]
						w.State(t)
						judgeScript(w, t)
					}
				}
			}
		}})
	// modules inside scripts are those of the module parser
	mods := seeds()
	fs = append(fs, mc.Family{Name: "modules", Bound: fmt.Sprintf("%d modules, and each without one of its tokens, alone, followed by a directive and inside assertions", len(mods)), N: int64(len(mods)),
		Run: func(w *mc.W, i int64) {
			for j := -1; j < len(mods[i]); j++ {
				toks := append([]string{}, mods[i]...)
				if j >= 0 {
					toks = append(toks[:j], toks[j+1:]...)
				}
				s := strings.Join(toks, " ")
				for _, t := range []string{s, s + " (assert_return (invoke \"f\"))", "(assert_invalid " + s + " \"m\")", "(assert_malformed " + s + "\"m\")" + s} {
					w.State(t)
					judgeScript(w, t)
				}
			}
		}})
	fs = append(fs, mc.Family{Name: "depth", Bound: fmt.Sprintf("%d ways to nest in a module of a script, 100,000, 1,000,000 and 5,000,000 levels deep, closed, with one too few and one too many closed", len(nestings)), N: int64(3 * len(nestings)), Heavy: true,
		Run: func(w *mc.W, i int64) {
			debug.SetMaxStack(1000000000)
			nested(w, i, "(module) (module (func ", "))", func(s string) (bool, error) {
				d, err := wastparse.Parse(s)
				return d != nil, err
			})
		}})
	return append(fs, manyDirectives())
}
