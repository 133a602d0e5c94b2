// Command lex explores histories of lookahead and cloning of both text lexers (property C25).
package main

import (
	"fmt"
	"strings"

	watlex "github.com/patrickhuber/go-wasm/wat/lex"
	witlex "github.com/patrickhuber/go-wasm/wit/lex"
	"verif/harness/mc"
)

func main() {
	mc.Main([]mc.Property{{ID: "C25", Families: c25}})
}

// tok is what a call on a lexer returned.
type tok struct {
	typ, capture           string
	position, line, column int
	failed, missing        bool
}

func (t tok) String() string {
	switch {
	case t.failed:
		return "an error"
	case t.missing:
		return "neither token nor error"
	}
	return fmt.Sprintf("%s %q at %d (%d:%d)", t.typ, t.capture, t.position, t.line, t.column)
}

type lexer interface {
	peek() tok
	next() tok
	clone() lexer
}

type wat struct{ l *watlex.Lexer }

func (x wat) peek() tok {
	t, err := x.l.Peek()
	if err != nil || t == nil {
		return tok{failed: err != nil, missing: err == nil}
	}
	return tok{typ: string(t.Type), capture: t.Capture, position: t.Position, line: t.Line, column: t.Column}
}

func (x wat) next() tok {
	t, err := x.l.Next()
	if err != nil || t == nil {
		return tok{failed: err != nil, missing: err == nil}
	}
	return tok{typ: string(t.Type), capture: t.Capture, position: t.Position, line: t.Line, column: t.Column}
}

func (x wat) clone() lexer { return wat{x.l.Clone()} }

type wit struct{ l *witlex.Lexer }

func (x wit) peek() tok {
	t, err := x.l.Peek()
	if err != nil || t == nil {
		return tok{failed: err != nil, missing: err == nil}
	}
	return tok{typ: fmt.Sprint(t.Type), capture: t.Capture, position: t.Position, line: t.Line, column: t.Column}
}

func (x wit) next() tok {
	t, err := x.l.Next()
	if err != nil || t == nil {
		return tok{failed: err != nil, missing: err == nil}
	}
	return tok{typ: fmt.Sprint(t.Type), capture: t.Capture, position: t.Position, line: t.Line, column: t.Column}
}

func (x wit) clone() lexer { return wit{x.l.Clone()} }

type format struct {
	name string
	open func(string) lexer
}

var formats = []format{
	{"wat", func(s string) lexer { return wat{watlex.New(s)} }},
	{"wit", func(s string) lexer { return wit{witlex.New(s)} }},
}

// op is an operation on one of the live lexers.
type op struct {
	kind byte // 'p'eek, 'n'ext, 'c'lone
	on   int8
}

func history(h []op) string {
	var b strings.Builder
	for _, o := range h {
		fmt.Fprintf(&b, "%c%d ", o.kind, o.on)
	}
	return b.String()
}

const maxLexers = 3

// histories visits every history of exactly n operations on up to lim lexers.
func histories(n, lim int, visit func([]op)) {
	var rec func(h []op, live int)
	rec = func(h []op, live int) {
		if len(h) == n {
			visit(h)
			return
		}
		for i := 0; i < live; i++ {
			rec(append(h, op{'p', int8(i)}), live)
			rec(append(h, op{'n', int8(i)}), live)
			if live < lim {
				rec(append(h, op{'c', int8(i)}), live+1)
			}
		}
	}
	rec(make([]op, 0, n), 1)
}

// plain is what a lexer returns for an input when it is only ever asked for the next token.
func plain(f format, s string, n int) []tok {
	l := f.open(s)
	out := make([]tok, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, l.next())
		if out[i].failed { // what follows an error is not specified
			break
		}
	}
	return out
}

// follow replays a history on lexers for one input.
func follow(w *mc.W, f format, s string, want []tok, h []op) {
	w.Desc(func() string { return fmt.Sprintf("%s lexer, input %q, history %s", f.name, s, history(h)) })
	var ls [maxLexers]lexer
	var at [maxLexers]int
	var over [maxLexers]bool
	live := 1
	step := 0
	p := mc.Safe(func() {
		ls[0] = f.open(s)
		for k, o := range h {
			step = k
			i := o.on
			if o.kind == 'c' {
				ls[live], at[live], over[live] = ls[i].clone(), at[i], over[i]
				live++
				continue
			}
			var got tok
			if o.kind == 'p' {
				got = ls[i].peek()
			} else {
				got = ls[i].next()
			}
			if over[i] {
				continue
			}
			exp := want[at[i]]
			if got != exp {
				w.Fail(f.name+" "+string(o.kind), "operation %d (%c on lexer %d) returned %s, expected %s", k+1, o.kind, i, got, exp)
				return
			}
			if o.kind == 'n' {
				at[i]++
				over[i] = exp.failed
			}
		}
	})
	w.Step(len(h))
	if p != nil {
		w.Fail(f.name+" panic", "operation %d panicked: %v", step+1, p)
	}
	outcome := "ends before the end"
	for i := 0; i < live; i++ {
		if over[i] {
			outcome = "reaches an error"
		} else if at[i] > 0 && want[at[i]-1].typ == want[len(want)-1].typ && want[at[i]-1].capture == "" {
			outcome = "reads at the end"
		}
	}
	w.Trace(f.name + " " + outcome)
}

func explore(w *mc.W, f format, s string, n, lim int) {
	want := plain(f, s, n+1)
	histories(n, lim, func(h []op) {
		w.Distinct()
		follow(w, f, s, want, h)
	})
}

var alphabets = map[string][]string{
	"wat": {"a", "1", "(", ")", "\"", "\\", ";", " ", "\n", "$", "#", "(;"},
	"wit": {"a", "1", "{", "/", "*", "-", ">", " ", "\n", "%", "#", "."},
}

var documents = map[string][]string{
	"wat": {
		"", " ", "(module)", "(module (func $f (param i32) (result i64) local.get 0))", "( ( (", ")))", "a b c d e f g h", "a\"b\"c", "\"s\" \"t\\n\" \"u",
		";; comment\n(module)", "(; c ;)(; d ;)x", "(; c (; d ;) ;) y", "(; open", "x (; open", "\"open", "a \"open\n\"", "a \xff b", "\xff", "é", "a é b", ";; c \xff\nx", "$id$id ($x) $", "1 2.5 0x1p3 nan:0x1 -inf",
		"(\n\n(\n(\r\n(", "\t\t(a)\t", ";", ";;", "a;b", "(;", "(;;)", "\"\\u{41}\" z", "\"\\q\" z", "[ ] { }", "x,y",
	},
	"wit": {
		"", " ", "package a:b@1.2.3;", "interface i { f: func(a: u8) -> string; }", "{ { {", "} } }", "a b c d e f g h", "-> - >", "-", "a-b-c", "use a.{b as c};", "// comment\nworld w {}", "/* a */ /* b */x",
		"/* a /* b */ */ y", "/* open", "x /* open", "/*/", "//", "%", "a % b", "%list %a", "#", "a # b # c", "\xff", "a \xff b", "é", "list<u8>", "1 2 3", "1.2.3", "type t = result<_, u8>;", "a\n\nb\nc\r\nd", "@ : ; , = * + _",
	},
}

func c25(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var fs []mc.Family
	for _, f := range formats {
		al := alphabets[f.name]
		text := func(i int64, n int) string {
			var buf [8]int
			var b strings.Builder
			for _, x := range mc.Seq(i, len(al), n, buf[:0]) {
				b.WriteString(al[x])
			}
			return b.String()
		}
		ln, hn := 4, pick(7, 9)
		fs = append(fs, mc.Family{Name: f.name + " peeks", Bound: fmt.Sprintf("every text of up to %d pieces out of %q, every history of %d peeks and nexts", ln, al, hn), N: mc.SeqCount(len(al), ln),
			Run: func(w *mc.W, i int64) { explore(w, f, text(i, ln), hn, 1) }})
		cl, cn := 3, pick(5, 6)
		fs = append(fs, mc.Family{Name: f.name + " clones", Bound: fmt.Sprintf("every text of up to %d pieces out of %q, every history of %d peeks, nexts and clones on up to 3 lexers", cl, al, cn), N: mc.SeqCount(len(al), cl),
			Run: func(w *mc.W, i int64) { explore(w, f, text(i, cl), cn, 3) }})
		ds := documents[f.name]
		dn, pn := pick(6, 8), pick(14, 18)
		fs = append(fs, mc.Family{Name: f.name + " documents", Bound: fmt.Sprintf("%d documents, every history of %d peeks, nexts and clones on up to 3 lexers, every history of %d peeks and nexts", len(ds), dn, pn), N: int64(len(ds)) * 2,
			Run: func(w *mc.W, i int64) {
				if i%2 == 0 {
					explore(w, f, ds[i/2], dn, 3)
				} else {
					explore(w, f, ds[i/2], pn, 1)
				}
			}})
		// every position of a document, reached with and without lookahead
		fs = append(fs, mc.Family{Name: f.name + " positions", Bound: fmt.Sprintf("%d documents, every number of tokens consumed plainly or with one or two peeks each, then every history of 4 operations on up to 3 lexers", len(ds)), N: int64(len(ds)),
			Run: func(w *mc.W, i int64) {
				want := plain(f, ds[i], 200)
				for k := 0; k < len(want) && k < 60; k++ {
					for peeks := 0; peeks < 3; peeks++ {
						var pre []op
						for j := 0; j < k; j++ {
							for x := 0; x < peeks; x++ {
								pre = append(pre, op{'p', 0})
							}
							pre = append(pre, op{'n', 0})
						}
						histories(4, 3, func(h []op) {
							w.Distinct()
							follow(w, f, ds[i], want, append(pre[:len(pre):len(pre)], h...))
						})
					}
				}
			}})
	}
	return fs
}
