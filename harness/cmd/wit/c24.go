package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	wit "github.com/patrickhuber/go-wasm/wit/parse"
	"verif/harness/mc"
)

// vocabulary of corruptions: every kind of token, every keyword.
func vocabulary() []string {
	return append([]string{"(", ")", "{", "}", "<", ">", ",", ":", ";", ".", "=", "/", "@", "*", "-", "+", "->", "_", "x", "%y", "%list", "0", "18446744073709551616", "%", "!", "\"s\"", "/*", "//", "é"}, keywordList()...)
}

// corrupt applies the ith single-token corruption; the result can be the original.
func corrupt(toks []string, i int64, vocab []string) []string {
	n, v := int64(len(toks)), int64(len(vocab))
	cut := func(a int64, mid []string, b int64) []string {
		out := append([]string{}, toks[:a]...)
		out = append(out, mid...)
		return append(out, toks[b:]...)
	}
	switch {
	case i < n: // deletion
		return cut(i, nil, i+1)
	case i < 2*n: // truncation
		return toks[:i-n]
	case i < 3*n: // duplication
		i -= 2 * n
		return cut(i, []string{toks[i]}, i)
	case i < 4*n: // exchange with the next
		i -= 3 * n
		if i+1 == n {
			return cut(i, nil, n)
		}
		return cut(i, []string{toks[i+1], toks[i]}, i+2)
	}
	i -= 4 * n
	if i < n*v { // replacement
		return cut(i/v, []string{vocab[i%v]}, i/v+1)
	}
	i -= n * v // insertion
	return cut(i/v, []string{vocab[i%v]}, i/v)
}

func corruptions(n int, v int) int64 { return int64(4*n + n*v + (n+1)*v) }

func c24(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var fs []mc.Family
	base := layoutDocs()
	vocab := vocabulary()
	var at []int64
	total := int64(0)
	for _, toks := range base {
		at = append(at, total)
		total += corruptions(len(toks), len(vocab))
	}
	fs = append(fs, mc.Family{Name: "single corruptions", Bound: fmt.Sprintf("every deletion, truncation, duplication, exchange, and every replacement by and insertion of one of %d tokens, of %d documents", len(vocab), len(base)), N: total,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(at), func(k int) bool { return at[k] > i }) - 1
			toks := corrupt(base[k], i-at[k], vocab)
			for _, s := range []string{strings.Join(toks, " "), strings.Join(toks, "\n") + "\n"} {
				w.State(s)
				judge(w, s)
			}
		}})
	small := []string{"(", ")", "{", "}", "<", ">", ",", ":", ";", ".", "->", "as", "with", "x", "u8", "func", "_"}
	var double [][]string
	for _, toks := range base {
		if len(toks) <= pick(9, 16) {
			double = append(double, toks)
		}
	}
	var dat []int64
	total2 := int64(0)
	for _, toks := range double {
		dat = append(dat, total2)
		total2 += corruptions(len(toks), len(small))
	}
	fs = append(fs, mc.Family{Name: "double corruptions", Bound: fmt.Sprintf("every pair of corruptions with a vocabulary of %d tokens of %d documents", len(small), len(double)), N: total2,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(dat), func(k int) bool { return dat[k] > i }) - 1
			once := corrupt(double[k], i-dat[k], small)
			for j := int64(0); j < corruptions(len(once), len(small)); j++ {
				w.Distinct()
				judge(w, strings.Join(corrupt(once, j, small), " "))
			}
		}})
	type ctx struct {
		pre, post string
		vocab     []string
		n         int
	}
	cs := []ctx{
		{"", "", []string{"package", "use", "interface", "world", "x", ":", "{", "}", ";", "/", "as", ","}, pick(5, 6)},
		{"package x:y", ";", []string{"@", "1", "0", ".", ";", "x", ":", "/", "-"}, pick(5, 7)},
		{"package", ";", []string{"x", ":", "%y", "@", "1", ".", "/", "world", ","}, pick(5, 6)},
		{"use", ";", []string{"x", ":", "/", "@", "as", "1", ".", "{", "}"}, pick(5, 6)},
		{"interface i {", "}", []string{"x", ":", "func", "(", ")", ";", "->", "u8", "static"}, pick(6, 7)},
		{"interface i { f: func", "; }", []string{"(", ")", "x", ":", ",", "->", "u8", "_"}, pick(6, 7)},
		{"interface i { f: func(", "); }", []string{"x", ":", ",", "u8", "(", ")", "list", "func"}, pick(6, 7)},
		{"interface i { f: func() -> (", "); }", []string{"x", ":", ",", "u8", "(", ")", "<", ">"}, pick(5, 7)},
		{"interface i { type t =", "; }", []string{"list", "option", "<", ">", "u8", "x", ",", "_", "%y"}, pick(6, 7)},
		{"interface i { type t =", "; }", []string{"result", "stream", "<", ">", "u8", ",", "_", "future"}, pick(6, 7)},
		{"interface i { type t =", "; }", []string{"tuple", "own", "borrow", "<", ">", "u8", ",", "x"}, pick(6, 7)},
		{"interface i { record", "}", []string{"x", "{", "}", ":", ",", "u8", ";", "%y"}, pick(6, 7)},
		{"interface i { flags", "}", []string{"x", "{", "}", ",", ";", "flags", "1", "%y"}, pick(6, 7)},
		{"interface i { enum", "}", []string{"x", "{", "}", ",", ";", "enum", "(", "u8"}, pick(6, 7)},
		{"interface i { variant", "}", []string{"x", "{", "}", ",", "(", ")", "u8", "_"}, pick(6, 7)},
		{"interface i { resource", "}", []string{"x", "{", "}", ":", ";", "func", "static", "constructor", "(", ")"}, pick(5, 6)},
		{"interface i { resource r {", "} }", []string{"x", ":", ";", "func", "static", "constructor", "(", ")", "->"}, pick(6, 7)},
		{"interface i { use", "; }", []string{"x", ":", "/", ".", "{", "}", ",", "as"}, pick(6, 7)},
		{"interface i { use x.{", "}; }", []string{"x", "as", ",", "%y", "*", ".", "}", "_"}, pick(5, 7)},
		{"world w {", "}", []string{"import", "export", "x", ":", ";", "func", "interface", "{", "}", "("}, pick(5, 6)},
		{"world w { import", "; }", []string{"x", ":", "/", "func", "(", ")", "interface", "@", "1", "."}, pick(5, 6)},
		{"world w { export x:", "}", []string{"interface", "{", "}", "func", "(", ")", ";", "x", ":"}, pick(6, 7)},
		{"world w { include", "}", []string{"x", "with", "{", "}", "as", ",", ";", ":", "/"}, pick(6, 7)},
		{"world w { include x with {", "} }", []string{"x", "as", ",", ";", "%y", "}", "with"}, pick(6, 7)},
		{"world w {", "}", []string{"type", "record", "flags", "enum", "variant", "resource", "use", "include", "union", "x", ";", "{", "}"}, pick(4, 6)},
	}
	for _, c := range cs {
		fs = append(fs, mc.Family{Name: "sequences in " + c.pre + "…" + c.post, Bound: fmt.Sprintf("every sequence of up to %d out of %q", c.n, c.vocab), N: mc.SeqCount(len(c.vocab), c.n),
			Run: func(w *mc.W, i int64) {
				var buf [8]int
				var b strings.Builder
				b.WriteString(c.pre)
				for _, x := range mc.Seq(i, len(c.vocab), c.n, buf[:0]) {
					b.WriteByte(' ')
					b.WriteString(c.vocab[x])
				}
				if c.post != "" {
					b.WriteByte(' ')
				}
				b.WriteString(c.post)
				w.Distinct()
				judge(w, b.String())
			}})
	}
	// every token where a name, a type, or an item is required
	holes := []string{"package %s : b ;", "package a : %s ;", "package a : b @ %s . 0 . 0 ;", "use %s ;", "use a : %s / c ;", "use a : b / %s ;", "use a as %s ;", "interface %s { }", "world %s { }",
		"interface i { %s }", "interface i { %s : func ( ) ; }", "interface i { f : %s ( ) ; }", "interface i { f : func ( %s : u8 ) ; }", "interface i { f : func ( a : %s ) ; }", "interface i { f : func ( ) -> %s ; }", "interface i { f : func ( ) -> ( %s : u8 ) ; }",
		"interface i { type %s = u8 ; }", "interface i { type a = %s ; }", "interface i { type a = list < %s > ; }", "interface i { type a = option < %s > ; }", "interface i { type a = tuple < u8 , %s > ; }", "interface i { type a = result < %s > ; }", "interface i { type a = result < _ , %s > ; }", "interface i { type a = result < u8 , %s > ; }",
		"interface i { type a = stream < %s , u8 > ; }", "interface i { type a = future < %s > ; }", "interface i { type a = own < %s > ; }", "interface i { type a = borrow < %s > ; }",
		"interface i { record %s { a : u8 } }", "interface i { record a { %s : u8 } }", "interface i { record a { b : %s } }", "interface i { flags %s { a } }", "interface i { flags a { %s } }", "interface i { enum %s { a } }", "interface i { enum a { %s } }",
		"interface i { variant %s { a } }", "interface i { variant a { %s } }", "interface i { variant a { b ( %s ) } }", "interface i { resource %s ; }", "interface i { resource r { %s } }", "interface i { resource r { %s : func ( ) ; } }", "interface i { resource r { a : static %s ( ) ; } }", "interface i { resource r { constructor ( a : %s ) ; } }",
		"interface i { use %s . { a } ; }", "interface i { use a . { %s } ; }", "interface i { use a . { b as %s } ; }", "world w { %s }", "world w { import %s ; }", "world w { import %s : func ( ) ; }", "world w { import a : %s ; }", "world w { export a : %s { } }", "world w { include %s ; }", "world w { include a with { %s as b } }", "world w { include a with { b as %s } }", "%s"}
	fs = append(fs, mc.Family{Name: "holes", Bound: fmt.Sprintf("every one and every two of %d tokens in each of %d places", len(vocab), len(holes)), N: int64(len(holes) * len(vocab)),
		Run: func(w *mc.W, i int64) {
			h, a := holes[i/int64(len(vocab))], vocab[i%int64(len(vocab))]
			for _, b := range append([]string{""}, vocab...) {
				s := strings.Replace(h, "%s", strings.TrimSpace(a+" "+b), 1)
				w.State(s)
				judge(w, s)
			}
		}})
	fs = append(fs, mc.Family{Name: "keywords", Bound: fmt.Sprintf("every one-character deletion, doubling, change of case and appended character of every keyword of %d documents", len(base)), N: int64(len(base)),
		Run: func(w *mc.W, i int64) {
			for j, t := range base[i] {
				if _, ok := keywords[t]; !ok {
					continue
				}
				for x := range t {
					for _, m := range []string{t[:x] + t[x+1:], t[:x] + t[x:x+1] + t[x:], t[:x] + strings.ToUpper(t[x:x+1]) + t[x+1:], strings.ToUpper(t), t + "x", "%" + t, t + "-x"} {
						if m == "" {
							continue
						}
						toks := append([]string{}, base[i]...)
						toks[j] = m
						s := strings.Join(toks, " ")
						w.State(s)
						judge(w, s)
					}
				}
			}
		}})
	fs = append(fs, mc.Family{Name: "bytes", Bound: fmt.Sprintf("every truncation, deletion, and replacement and insertion of one of 40 bytes, at every byte of %d documents", len(base)), N: int64(len(base)),
		Run: func(w *mc.W, i int64) {
			s := tight(base[i])
			for j := 0; j <= len(s); j++ {
				w.State(s[:j])
				judge(w, s[:j])
				for _, c := range []byte("(){}<>,:;.=/@*-+_%ax0\"' \n\t\r\f\x00\x7f\x80\xff\xc3[]!Az9#") {
					t := s[:j] + string([]byte{c}) + s[j:]
					w.State(t)
					judge(w, t)
					if j < len(s) {
						t = s[:j] + string([]byte{c}) + s[j+1:]
						w.State(t)
						judge(w, t)
					}
				}
				if j < len(s) {
					t := s[:j] + s[j+1:]
					w.State(t)
					judge(w, t)
				}
			}
		}})
	fs = append(fs, mc.Family{Name: "scale", Bound: "nesting of types and comments, and lists of items, of every length up to 64 and of 1,000 and 20,000, complete and unbalanced", N: 66 * 6,
		Run: func(w *mc.W, i int64) {
			n := int(i / 6)
			if n == 64 {
				n = 1000
			} else if n == 65 {
				n = 20000
			}
			r := strings.Repeat
			var ts []string
			switch i % 6 {
			case 0:
				ts = []string{"interface i { type t = " + r("list<", n) + "u8" + r(">", n) + "; }", "interface i { type t = " + r("list<", n) + "u8" + r(">", n+1) + "; }", "interface i { type t = " + r("option<", n+1) + "u8" + r(">", n) + "; }"}
			case 1:
				ts = []string{r("interface i { }", n), r("interface i { }", n) + "}", r("interface i { }", n) + "world", r("{", n), r("}", n)}
			case 2:
				ts = []string{r("/*", n) + r("*/", n), r("/*", n+1) + r("*/", n), r("/*", n) + r("*/", n+1)}
			case 3:
				ts = []string{"interface i { " + r("x: func(); ", n) + "}", "interface i { " + r("x: func(); ", n), "interface i { " + r("x: func(); ", n) + "x: func() }"}
			case 4:
				ts = []string{"interface i { flags f { " + r("x,", n+1) + "} }", "interface i { flags f { " + r("x,", n+1) + ", } }", "interface i { flags f { " + r("x,", n+1)}
			case 5:
				ts = []string{"interface " + r("x", n+1) + " { }", "package a:b@1.0." + r("9", n+1) + ";", r(" \n", n) + "world w {}" + r("//\n", n), "interface i { type t = " + r("tuple<u8,", n) + "u8" + r(">", n) + "; }"}
			}
			for _, s := range ts {
				w.State(s)
				judge(w, s)
			}
		}})
	fs = append(fs, mc.Family{Name: "depth", Bound: fmt.Sprintf("%d ways to nest types, in %d around, 100,000, 1,000,000 and 5,000,000 levels deep, closed, with one too few and one too many closed", len(nestings), len(around)), N: int64(3 * len(nestings) * len(around)), Heavy: true,
		Run: func(w *mc.W, i int64) {
			debug.SetMaxStack(1000000000) // what a program has unless it asks for more
			x := mc.Mixed(i, len(nestings), len(around), 3)
			k, p, n := nestings[x[0]], around[x[1]], []int{100000, 1000000, 5000000}[x[2]]
			for d := -1; d <= 1; d++ {
				what := fmt.Sprintf("%s… %d levels of %q closed %d times", p[0], n, k, n+d)
				w.State(what)
				w.Desc(func() string { return what })
				w.Step(1)
				out := "tree"
				if pv := mc.Safe(func() {
					// it may be refused whatever it is, but must come to an answer
					a, err := wit.Parse(p[0] + strings.Repeat(k, n) + "u8" + strings.Repeat(">", n+d) + p[1])
					switch {
					case err == nil && d != 0:
						w.Fail("accepted", "the text is malformed, but parsed")
					case err == nil && a == nil:
						w.Fail("neither", "neither a tree nor an error")
					case err != nil:
						out = "error"
					}
				}); pv != nil {
					w.Fail("panic", "%v", pv)
				}
				w.Trace(out)
			}
		}})
	return fs
}

// nestings are the ways in which types nest, around the texts around a type.
var (
	nestings = []string{"list<", "option<", "tuple<", "tuple<u8, ", "result<", "result<_, ", "result<u8, ", "future<", "stream<", "stream<_, ", "stream<u8, "}
	around   = [][2]string{{"interface i { type t = ", "; }"}, {"interface i { f: func(a: ", "); }"}, {"interface i { f: func() -> ", "; }"}, {"interface i { record r { a: ", " } }"}, {"interface i { variant v { a(", ") } }"}}
)
