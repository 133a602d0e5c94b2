package main

import (
	"strings"

	"github.com/patrickhuber/go-wasm/wat"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"verif/harness/mc"
)

// judge parses the text and compares with the reference parser.
func judge(w *mc.W, s string) verdict {
	d, v, whole := refDirective(s)
	exp := ""
	if v == accept {
		exp = dump(d)
	}
	compare(w, s, exp, v, whole)
	return whole
}

// compare parses the text and compares with the expected tree. whole is the verdict on the text as
// a file, v the one on the module at its start.
func compare(w *mc.W, s string, exp string, v, whole verdict) {
	w.Desc(func() string { return s })
	w.Step(1)
	out := "malformed"
	if pv := mc.Safe(func() {
		d, err := parse.Parse(lex.New(s))
		switch v {
		case accept:
			out = "module"
			if err != nil {
				w.Fail("refused", "the text is well-formed, but: %v", err)
			} else if got := dump(d); got != exp {
				w.Fail("tree "+difference(exp, got), "parsed as\n    %s\n  instead of\n    %s", got, exp)
			}
		case refuse:
			if err == nil {
				w.Fail("accepted", "the text is malformed, but parsed as\n    %s", dump(d))
			}
		default:
			out = "undecided"
			if err == nil && hasHole(d) {
				w.Fail("hole", "parsed as a tree with a missing node: %s", dump(d))
			}
		}
	}); pv != nil {
		w.Fail("panic", "%v", pv)
		return
	}
	if w.Failed() {
		return
	}
	if pv := mc.Safe(func() {
		_, err := wat.NewDecoder(nil).Decode(strings.NewReader(s))
		if whole == accept && err != nil {
			w.Fail("decoder refused", "the text is well-formed, but: %v", err)
		}
		if whole == refuse && err == nil {
			w.Fail("decoder accepted", "the text is malformed, but is decoded")
		}
		if v == accept && whole == refuse {
			out = "module and more"
		}
	}); pv != nil {
		w.Fail("decoder panic", "%v", pv)
	}
	w.Trace(out)
}

func hasHole(d ast.Directive) bool { return strings.Contains(dump(d), "nothing") }

// difference names the first node that differs.
func difference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	// back to the name of the field or node
	for i > 0 && (i >= len(a) || !isLetter(a[i]) || !isLetter(a[i-1])) && !(i < len(a) && a[i] == ':') {
		i--
	}
	j := i
	for j > 0 && isLetter(a[j-1]) {
		j--
	}
	for i < len(a) && isLetter(a[i]) {
		i++
	}
	if strings.Contains(a[j:i], "\"") || i-j > 20 {
		return "text"
	}
	return a[j:i]
}

func isLetter(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }
