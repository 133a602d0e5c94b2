package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wat"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"verif/harness/mc"
)

// vocabulary of corruptions: every kind of token, every structural keyword.
var vocabulary = []string{"(", ")", "module", "component", "func", "type", "table", "memory", "global", "param", "result", "local", "export", "import", "elem", "mut",
	"i32", "f64", "funcref", "externref", "block", "loop", "if", "then", "else", "end", "drop", "call", "br_table", "i32.const", "f32.const", "call_indirect", "select", "i32.load",
	"$x", "$b", "0", "-1", "1.5", "nan", "4294967296", `"s"`, `"`, "unknown", "i32.nop", "offset=4", "$", ",", "(;", ";;", "'"}

// corrupt applies the ith single-token corruption; the result can be the original.
func corrupt(toks []string, i int64, vocab []string) []string {
	n, v := int64(len(toks)), int64(len(vocab))
	cut := func(a int64, mid []string, b int64) []string {
		out := append([]string{}, toks[:a]...)
		out = append(out, mid...)
		return append(out, toks[b:]...)
	}
	switch {
	case i < n: // deletion
		return cut(i, nil, i+1)
	case i < 2*n: // truncation
		return toks[:i-n]
	case i < 3*n: // duplication
		i -= 2 * n
		return cut(i, []string{toks[i]}, i)
	case i < 4*n: // exchange with the next
		i -= 3 * n
		if i+1 == n {
			return cut(i, nil, n)
		}
		return cut(i, []string{toks[i+1], toks[i]}, i+2)
	}
	i -= 4 * n
	if i < n*v { // replacement
		return cut(i/v, []string{vocab[i%v]}, i/v+1)
	}
	i -= n * v // insertion
	return cut(i/v, []string{vocab[i%v]}, i/v)
}

func corruptions(n int, v int) int64 { return int64(4*n + n*v + (n+1)*v) }

// seeds are the well-formed modules corruptions start from.
func seeds() [][]string {
	out := layoutModules()
	one := func(is ...ast.Instruction) {
		for _, bits := range []uint64{0, ^uint64(0)} {
			p := &printer{bits: bits}
			p.module(fn(is...))
			out = append(out, p.out)
		}
	}
	one(ast.I32Load{}, ast.Select{}, ast.LocalSet{Index: ast.RawIndex{Index: 3}})
	one(ast.If{Name: option.Some("$b"), Clause: []ast.Instruction{ast.Drop{}}, Then: ast.Then{Instructions: []ast.Instruction{ast.Return{}}}})
	one(ast.Loop{Name: option.Some("$b"), Instructions: []ast.Instruction{ast.Block{}}}, ast.MemoryGrow{})
	one(ast.I64Const{Value: 5}, ast.F64Const{Value: 0.5}, ast.I32RemS{}, ast.F32Nearest{})
	return out
}

func textCase(w *mc.W, toks []string) {
	for _, s := range []string{strings.Join(toks, " "), strings.Join(toks, "\n") + "\n"} {
		w.State(s)
		judge(w, s)
	}
}

func c20(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var fs []mc.Family
	base := seeds()
	var at []int64
	total := int64(0)
	for _, toks := range base {
		at = append(at, total)
		total += corruptions(len(toks), len(vocabulary))
	}
	fs = append(fs, mc.Family{Name: "single corruptions", Bound: fmt.Sprintf("every deletion, truncation, duplication, exchange, and every replacement by and insertion of one of %d tokens, of %d modules", len(vocabulary), len(base)), N: total,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(at), func(k int) bool { return at[k] > i }) - 1
			textCase(w, corrupt(base[k], i-at[k], vocabulary))
		}})
	// two corruptions
	small := []string{"(", ")", "module", "func", "param", "result", "local", "export", "then", "else", "end", "i32", "drop", "$x", "1", `"s"`}
	var double [][]string
	for _, toks := range base {
		if len(toks) <= pick(11, 24) {
			double = append(double, toks)
		}
	}
	type pos struct{ start, first int64 }
	var dat []pos
	total2 := int64(0)
	for _, toks := range double {
		n := corruptions(len(toks), len(small))
		dat = append(dat, pos{total2, n})
		total2 += n
	}
	fs = append(fs, mc.Family{Name: "double corruptions", Bound: fmt.Sprintf("every pair of corruptions with a vocabulary of %d tokens of %d modules", len(small), len(double)), N: total2,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(dat), func(k int) bool { return dat[k].start > i }) - 1
			once := corrupt(double[k], i-dat[k].start, small)
			for j := int64(0); j < corruptions(len(once), len(small)); j++ {
				s := strings.Join(corrupt(once, j, small), " ")
				w.Distinct()
				judge(w, s)
			}
		}})
	// every token sequence in every context
	type ctx struct {
		pre, post string
		vocab     []string
		n         int
	}
	cs := []ctx{
		{"", "", []string{"(", ")", "module", "component", "func", "$x", `"s"`, "1", "1.5", ",", ";;"}, pick(5, 6)},
		{"(module", ")", []string{"(", ")", "module", "func", "type", "table", "memory", "global", "i32", "$x", "1", "funcref"}, pick(4, 6)},
		{"(module (func", "))", []string{"(", ")", "param", "result", "local", "export", "import", "i32", "$x", `"s"`, "drop"}, pick(5, 6)},
		{"(module (func", "))", []string{"(", ")", "block", "loop", "if", "then", "else", "end", "drop", "$x", "result", "i32"}, pick(5, 6)},
		{"(module (func (", ")))", []string{"(", ")", "if", "then", "else", "drop", "call", "0", "$x"}, pick(6, 7)},
		{"(module (func (if (then", "))))", []string{"(", ")", "if", "then", "else", "end", "drop"}, pick(6, 8)},
		{"(module (func if $x", "end))", []string{"(", ")", "if", "then", "else", "end", "drop", "$x"}, pick(6, 7)},
		{"(module (func br_table", "))", []string{"(", ")", "0", "$x", "-1", "1.5", "drop", "br_table", "call", "4294967296"}, pick(5, 6)},
		{"(module (func (call_indirect", ")))", []string{"(", ")", "type", "$x", "0", "drop", "param", "result", "i32"}, pick(5, 6)},
		{"(module (type", "))", []string{"(", ")", "func", "param", "result", "$x", "i32", "f64", "local"}, pick(6, 7)},
		{"(module (type (func", ")))", []string{"(", ")", "param", "result", "$x", "i32", "1"}, pick(6, 8)},
		{"(module (table", "))", []string{"(", ")", "$x", "0", "1", "-1", "funcref", "externref", "elem", "i32"}, pick(5, 7)},
		{"(module (memory", "))", []string{"(", ")", "$x", "0", "1", "-1", "+1", "1.5", "4294967296", `"s"`}, pick(5, 6)},
		{"(module (global", "))", []string{"(", ")", "$x", "mut", "i32", "f64", "drop", "i32.const", "0"}, pick(5, 7)},
		{"(module (func (local", ")))", []string{"(", ")", "$x", "i32", "i64", "f32", "f64", "local", "1"}, pick(5, 6)},
		{"(module (func (export", ")))", []string{"(", ")", "$x", "export", `"s"`, `""`, "import", "\"\\75\"", "s"}, pick(5, 6)},
	}
	for _, c := range cs {
		fs = append(fs, mc.Family{Name: "sequences in " + c.pre + "…" + c.post, Bound: fmt.Sprintf("every sequence of up to %d out of %q", c.n, c.vocab), N: mc.SeqCount(len(c.vocab), c.n),
			Run: func(w *mc.W, i int64) {
				var buf [8]int
				var b strings.Builder
				b.WriteString(c.pre)
				for _, x := range mc.Seq(i, len(c.vocab), c.n, buf[:0]) {
					b.WriteByte(' ')
					b.WriteString(c.vocab[x])
				}
				if c.post != "" {
					b.WriteByte(' ')
				}
				b.WriteString(c.post)
				w.Distinct()
				judge(w, b.String())
			}})
	}
	// every operand for every instruction
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	fs = append(fs, mc.Family{Name: "operands", Bound: fmt.Sprintf("every instruction followed by up to two of %d tokens, plain and folded", len(vocabulary)), N: int64(len(names)),
		Run: func(w *mc.W, i int64) {
			for _, a := range append([]string{""}, vocabulary...) {
				for _, b := range append([]string{""}, vocabulary...) {
					for _, f := range []string{"(module (func (%s %s %s)))", "(module (func %s %s %s))", "(module (global i32 %s %s %s))"} {
						s := fmt.Sprintf(f, names[i], a, b)
						w.State(s)
						judge(w, s)
					}
				}
			}
		}})
	// every near miss of every keyword
	fs = append(fs, mc.Family{Name: "keywords", Bound: "every one-character deletion, doubling, change of case and appended character of every keyword", N: int64(len(names)),
		Run: func(w *mc.W, i int64) {
			k := names[i]
			var miss []string
			for j := range k {
				miss = append(miss, k[:j]+k[j+1:], k[:j]+k[j:j+1]+k[j:], k[:j]+strings.ToUpper(k[j:j+1])+k[j+1:])
			}
			miss = append(miss, k+"x", k+".", k+"0", "$"+k, "\""+k+"\"")
			for _, m := range miss {
				if m == "" {
					continue
				}
				for _, operand := range []string{"", " 0", " $x", " (type $t)"} {
					s := "(module (func (" + m + operand + ")))"
					w.State(s)
					judge(w, s)
					judge(w, "(module (func "+m+operand+"))")
				}
			}
		}})
	fields := []string{"module", "component", "func", "type", "table", "memory", "global", "param", "result", "local", "export", "import", "elem", "mut", "then", "else", "end", "i32", "i64", "f32", "f64", "funcref", "externref"}
	fs = append(fs, mc.Family{Name: "structural keywords", Bound: fmt.Sprintf("every near miss of a keyword in %d modules", len(base)), N: int64(len(base)),
		Run: func(w *mc.W, i int64) {
			for j, t := range base[i] {
				found := false
				for _, f := range fields {
					found = found || f == t
				}
				if !found {
					continue
				}
				for x := range t {
					for _, m := range []string{t[:x] + t[x+1:], t[:x] + t[x:x+1] + t[x:], t[:x] + strings.ToUpper(t[x:x+1]) + t[x+1:], t + "x", "$" + t, "\"" + t + "\""} {
						toks := append([]string{}, base[i]...)
						toks[j] = m
						if m == "" {
							continue
						}
						textCase(w, toks)
					}
				}
			}
		}})
	// every byte-level truncation and single-byte change
	fs = append(fs, mc.Family{Name: "bytes", Bound: fmt.Sprintf("every truncation, deletion, and replacement and insertion of one of 40 bytes, at every byte of %d modules", len(base)), N: int64(len(base)),
		Run: func(w *mc.W, i int64) {
			s := tight(base[i])
			for j := 0; j <= len(s); j++ {
				w.State(s[:j])
				judge(w, s[:j])
				for _, c := range []byte("()\";$\\ \n\t,ax0_-+.e:\x00\x7f\x80\xff\xc3[]{}/'`~!\r19zA=#") {
					t := s[:j] + string([]byte{c}) + s[j:]
					w.State(t)
					judge(w, t)
					if j < len(s) {
						t = s[:j] + string([]byte{c}) + s[j+1:]
						w.State(t)
						judge(w, t)
					}
				}
				if j < len(s) {
					t := s[:j] + s[j+1:]
					w.State(t)
					judge(w, t)
				}
			}
		}})
	fs = append(fs, mc.Family{Name: "operand texts", Bound: fmt.Sprintf("every pair of %d tokens and every truncation of them where a string, an integer or a float is read", len(vocabulary)), N: int64(len(vocabulary)),
		Run: func(w *mc.W, i int64) {
			for _, a := range []string{"", " ", "(;x;)", ";;x\n"} {
				for _, b := range append([]string{"", "-0x7f", "1e3", "inf", "\"a\\nb\"", "\"\\", "\"\\q\""}, vocabulary...) {
					s := a + vocabulary[i] + " " + b
					for j := 0; j <= len(s); j++ {
						operandCase(w, s[:j])
					}
					operandCase(w, a+b)
				}
			}
		}})
	fs = append(fs, mc.Family{Name: "scale", Bound: "nesting of parentheses, folded operands, blocks and comments, and lists, of every length up to 64 and of 1,000 and 20,000, complete and unbalanced", N: 66 * 8,
		Run: func(w *mc.W, i int64) {
			n := int(i / 8)
			if n == 64 {
				n = 1000
			} else if n == 65 {
				n = 20000
			}
			r := strings.Repeat
			var ts []string
			switch i % 8 {
			case 0:
				ts = []string{"(module (func" + r("(drop", n) + r(")", n) + "))", "(module (func" + r("(drop", n) + r(")", n) + ")", "(module (func" + r("(drop", n) + r(")", n) + ")))"}
			case 1:
				ts = []string{"(module (func " + r("block ", n) + r("end ", n) + "))", "(module (func " + r("block ", n+1) + r("end ", n) + "))", "(module (func " + r("block ", n) + r("end ", n+1) + "))"}
			case 2:
				ts = []string{"(module" + r("(func)", n) + ")", "(module" + r("(func)", n), "(module" + r("(func)", n) + "(fun))"}
			case 3:
				ts = []string{"(module" + r("(;", n) + r(";)", n) + ")", "(module" + r("(;", n+1) + r(";)", n) + ")", "(module" + r("(;", n) + r(";)", n+1) + ")"}
			case 4:
				ts = []string{"(module (func " + r("drop ", n) + "))", "(module (func " + r("drop ", n) + "dro))"}
			case 5:
				ts = []string{r("(", n), r(")", n), "(module" + r("(", n), "(module (func" + r("(block", n)}
			case 6:
				ts = []string{"(module (func (param" + r(" i32", n) + ")" + r("(result i64)", n) + "))", "(module (func (export \"" + r("é", n) + "\")))", "(module (func (export \"" + r("x", n) + ")))"}
			case 7:
				ts = []string{"(module (func br_table 0" + r(" 1", n) + "))", "(module (func" + r("(if (then", n) + r("))", n) + "))", "(module" + r(" \n", n) + ")" + r(";;\n", n)}
			}
			for _, s := range ts {
				w.State(s)
				judge(w, s)
			}
		}})
	fs = append(fs, mc.Family{Name: "depth", Bound: fmt.Sprintf("%d ways to nest, 100,000, 1,000,000 and 5,000,000 levels deep, closed, with one too few and one too many closed", len(nestings)), N: int64(3 * len(nestings)), Heavy: true,
		Run: func(w *mc.W, i int64) {
			debug.SetMaxStack(1000000000) // what a program has unless it asks for more
			nested(w, i, "(module (func ", "))", func(s string) (bool, error) {
				d, err := parse.Parse(lex.New(s))
				if err == nil {
					_, err = wat.NewDecoder(nil).Decode(strings.NewReader(s))
				}
				return d != nil, err
			})
		}})
	return fs
}

// nestings are the ways in which instructions nest: what opens a level, what stands innermost, and
// what closes a level.
var nestings = [][3]string{
	{"(block ", "", ")"}, {"(loop ", "", ")"}, {"(drop ", "", ")"}, {"(i32.add (i32.const 1) ", "(i32.const 1)", ")"},
	{"(if (then ", "", "))"}, {"(if (then) (else ", "", "))"}, {"(if ", "(i32.const 1)", " (then))"},
	{"block ", "", "end "}, {"loop ", "", "end "}, {"if ", "", "end "}, {"if else ", "", "end "}, {"(block loop ", "", "end )"},
}

// nested parses a text with very many levels, which may be refused whatever it is, but must come to
// an answer.
func nested(w *mc.W, i int64, pre, post string, parse func(s string) (bool, error)) {
	n := []int{100000, 1000000, 5000000}[i/int64(len(nestings))]
	k := nestings[i%int64(len(nestings))]
	for d := -1; d <= 1; d++ {
		what := fmt.Sprintf("%s… %d levels of %q closed %d times", pre, n, k[0], n+d)
		w.State(what)
		w.Desc(func() string { return what })
		w.Step(1)
		out := "tree"
		if pv := mc.Safe(func() {
			tree, err := parse(pre + strings.Repeat(k[0], n) + k[1] + strings.Repeat(k[2], n+d) + post)
			switch {
			case err == nil && d != 0:
				w.Fail("accepted", "the text is malformed, but parsed")
			case err == nil && !tree:
				w.Fail("neither", "neither a tree nor an error")
			case err != nil:
				out = "error"
			}
		}); pv != nil {
			w.Fail("panic", "%v", pv)
		}
		w.Trace(out)
	}
}

// operandCase puts a text where a string or a number is read.
func operandCase(w *mc.W, s string) {
	for _, p := range [][2]string{{"(module (func (export ", ")))"}, {"(module (func i32.const ", "))"}, {"(module (func i64.const ", "))"}, {"(module (func f32.const ", "))"}, {"(module (func (f64.const ", ")))"}} {
		w.State(p[0] + s)
		judge(w, p[0]+s+p[1])
	}
}
