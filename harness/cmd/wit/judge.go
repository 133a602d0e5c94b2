package main

import (
	"strings"

	"github.com/patrickhuber/go-wasm/wit/ast"
	wit "github.com/patrickhuber/go-wasm/wit/parse"
	"verif/harness/mc"
)

// judge parses the text and compares with the reference parser.
func judge(w *mc.W, s string) (*ast.Ast, verdict) {
	ref, v := refParse(s)
	w.Desc(func() string { return s })
	w.Step(1)
	if pv := mc.Safe(func() {
		a, err := wit.Parse(s)
		switch {
		case v == accept && err != nil:
			w.Fail("refused", "the text is well-formed, but: %v", err)
		case v == refuse && err == nil:
			w.Fail("accepted", "the text is malformed, but parsed as\n    %s", dump(a))
		case (v == accept || v == either) && err == nil:
			if exp, got := dump(ref), dump(a); got != exp {
				w.Fail("tree "+difference(exp, got), "parsed as\n    %s\n  instead of\n    %s", got, exp)
			}
		case v == undecided && err == nil:
			if d := dump(a); strings.Contains(d, "nothing") {
				w.Fail("hole", "parsed as a tree with a missing node: %s", d)
			}
		}
	}); pv != nil {
		w.Fail("panic", "%v", pv)
	}
	w.Trace([]string{"document", "malformed", "undecided", "either"}[v])
	return ref, v
}
