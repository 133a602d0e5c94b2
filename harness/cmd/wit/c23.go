package main

import (
	"fmt"
	"strings"

	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wit/ast"
	"verif/harness/mc"
)

// tight joins tokens with a space only where two words would merge.
func tight(toks []string) string { return join(toks, func(int) string { return "" }) }

// join puts a filler in front of every token, and a space where two tokens would merge.
func join(toks []string, filler func(i int) string) string {
	var b strings.Builder
	for i, t := range toks {
		f := filler(i)
		if i > 0 {
			last := toks[i-1][len(toks[i-1])-1]
			if f == "" && wordChar(last) && wordChar(t[0]) || f != "" && last == '/' && f[0] == '/' {
				b.WriteByte(' ')
			}
		}
		b.WriteString(f)
		b.WriteString(t)
	}
	return b.String()
}

// treeCase checks one document in all its spellings.
func treeCase(w *mc.W, a *ast.Ast) {
	exp := dump(a)
	for bits := uint64(0); ; bits++ {
		p := &printer{bits: bits}
		p.document(a)
		if p.used > 6 { // none or all
			if bits > 1 {
				return
			}
			p = &printer{bits: -bits}
			p.document(a)
		} else if bits >= 1<<p.used {
			return
		}
		for _, s := range []string{strings.Join(p.out, " "), tight(p.out)} {
			w.Distinct()
			ref, v := judge(w, s)
			if v != accept || dump(ref) != exp {
				w.Fail("harness", "generated %s but the reference reads %s (%d)", exp, dump(ref), v)
			}
			if w.Failed() {
				return
			}
		}
	}
}

func iface(items ...ast.InterfaceItem) *ast.Ast {
	return &ast.Ast{Items: []ast.AstItem{{Interface: &ast.Interface{Name: "i", Items: items}}}}
}

func world(items ...ast.WorldItem) *ast.Ast {
	return &ast.Ast{Items: []ast.AstItem{{World: &ast.World{Id: "w", Items: items}}}}
}

func fn(params []ast.Parameter, anonymous ast.Type, named ...ast.Parameter) *ast.FuncType {
	return &ast.FuncType{Params: params, Results: &ast.ResultList{Anonymous: anonymous, Named: named}}
}

func ps(ts ...ast.Type) []ast.Parameter {
	var out []ast.Parameter
	for i, t := range ts {
		out = append(out, ast.Parameter{Id: string(rune('a' + i)), Type: t})
	}
	return out
}

// places puts a type wherever a type can be.
var places = []func(t ast.Type) *ast.Ast{
	func(t ast.Type) *ast.Ast { return iface(&ast.TypeItem{ID: "x", Type: t}) },
	func(t ast.Type) *ast.Ast { return world(&ast.TypeItem{ID: "x", Type: t}) },
	func(t ast.Type) *ast.Ast {
		return iface(&ast.Record{ID: "x", Fields: []ast.Field{{Name: "a", Type: t}, {Name: "b", Type: &ast.U8{}}, {Name: "c", Type: t}}})
	},
	func(t ast.Type) *ast.Ast {
		return world(&ast.Record{ID: "x", Fields: []ast.Field{{Name: "a", Type: t}}})
	},
	func(t ast.Type) *ast.Ast {
		return iface(&ast.Variant{ID: "x", Cases: []ast.Case{{Name: "a", Type: o(t)}, {Name: "b"}, {Name: "c", Type: o(t)}}})
	},
	func(t ast.Type) *ast.Ast {
		return iface(&ast.FuncItem{ID: "f", FuncType: fn(ps(t, &ast.U8{}, t), nil)})
	},
	func(t ast.Type) *ast.Ast { return iface(&ast.FuncItem{ID: "f", FuncType: fn(nil, t)}) },
	func(t ast.Type) *ast.Ast { return iface(&ast.FuncItem{ID: "f", FuncType: fn(ps(t), nil, ps(t, t)...)}) },
	func(t ast.Type) *ast.Ast {
		return iface(&ast.Resource{ID: "r", Methods: []ast.ResourceMethod{&ast.Constructor{ParameterList: ps(t)}, ast.Static{ID: "s", FuncType: fn(ps(t), t)}, ast.Method{Func: &ast.FuncItem{ID: "m", FuncType: fn(ps(t), t)}}}})
	},
	func(t ast.Type) *ast.Ast {
		return world(&ast.Import{ExternType: &ast.ExternTypeFunc{ID: "f", Func: fn(ps(t), t)}})
	},
	func(t ast.Type) *ast.Ast {
		return world(&ast.Export{ExternType: &ast.ExternTypeInterface{ID: "e", InterfaceItems: []ast.InterfaceItem{&ast.TypeItem{ID: "x", Type: t}, &ast.FuncItem{ID: "f", FuncType: fn(ps(t), t)}}}})
	},
}

func pkg(ns, name string, v ...uint64) ast.PackageDeclaration {
	d := ast.PackageDeclaration{Namespace: ns, Name: name}
	if len(v) == 3 {
		d.Version = option.Some(ast.Version{Major: v[0], Minor: v[1], Patch: v[2]})
	}
	return d
}

func local(id string) *ast.UsePath { return &ast.UsePath{Id: id} }

func remote(d ast.PackageDeclaration, name string) *ast.UsePath {
	u := &ast.UsePath{}
	u.Package.Id = &d
	u.Package.Name = name
	return u
}

func paths() []*ast.UsePath {
	return []*ast.UsePath{local("p"), remote(pkg("n", "q"), "p"), remote(pkg("n", "q", 1, 2, 3), "p")}
}

// typedefs are the type definitions allowed in interfaces and worlds.
func typedefs() []ast.TypeDef {
	m := ast.Method{Func: &ast.FuncItem{ID: "m", FuncType: fn(ps(&ast.Borrow{Id: "r"}), nil, ps(&ast.U8{})...)}}
	return []ast.TypeDef{
		&ast.TypeItem{ID: "ty", Type: &ast.List{ItemType: &ast.Char{}}},
		&ast.TypeItem{ID: "tid", Type: &ast.Id{Value: "other"}},
		&ast.Record{ID: "rec", Fields: []ast.Field{{Name: "a", Type: &ast.U8{}}, {Name: "b", Type: &ast.Tuple{Types: []ast.Type{&ast.S64{}, &ast.Bool{}}}}}},
		&ast.Flags{ID: "fl", Flags: []ast.Flag{{Id: "a"}, {Id: "b"}}},
		&ast.Enum{ID: "en", Cases: []ast.EnumCase{{Name: "a"}, {Name: "b"}}},
		&ast.Variant{ID: "va", Cases: []ast.Case{{Name: "a"}, {Name: "b", Type: o(&ast.String{})}}},
		&ast.Resource{ID: "r0"},
		&ast.Resource{ID: "r1", Methods: []ast.ResourceMethod{m}},
		&ast.Resource{ID: "r2", Methods: []ast.ResourceMethod{&ast.Constructor{}, ast.Static{ID: "s", FuncType: fn(nil, &ast.Own{Id: "r2"})}}},
	}
}

func uses() []*ast.Use {
	var out []*ast.Use
	for _, p := range paths() {
		out = append(out, &ast.Use{From: p, Names: []ast.UseName{{Name: "a"}}},
			&ast.Use{From: p, Names: []ast.UseName{{Name: "a", As: option.Some("b")}, {Name: "c"}}})
	}
	return out
}

func funcs() []*ast.FuncType {
	return []*ast.FuncType{fn(nil, nil), fn(ps(&ast.U32{}), nil), fn(ps(&ast.Id{Value: "t"}, &ast.String{}), &ast.Result{}), fn(nil, nil, ps(&ast.S8{}, &ast.Float64{})...), fn(nil, &ast.Id{Value: "t"})}
}

func interfaceItems() []ast.InterfaceItem {
	var out []ast.InterfaceItem
	for _, t := range typedefs() {
		out = append(out, t)
	}
	for _, u := range uses() {
		out = append(out, u)
	}
	for i, f := range funcs() {
		out = append(out, &ast.FuncItem{ID: fmt.Sprintf("f%d", i), FuncType: f})
	}
	return out
}

func worldItems() []ast.WorldItem {
	var out []ast.WorldItem
	for _, t := range typedefs() {
		out = append(out, t)
	}
	for _, u := range uses() {
		out = append(out, u)
	}
	var ext []ast.ExternType
	for i, f := range funcs() {
		ext = append(ext, &ast.ExternTypeFunc{ID: fmt.Sprintf("f%d", i), Func: f})
	}
	for _, p := range paths() {
		ext = append(ext, &ast.ExternTypeUsePath{UsePath: p})
		out = append(out, &ast.Include{From: p}, &ast.Include{From: p, Names: []ast.IncludeName{{Name: "a", As: "b"}}},
			&ast.Include{From: p, Names: []ast.IncludeName{{Name: "a", As: "b"}, {Name: "c", As: "d"}, {Name: "e", As: "f"}}})
	}
	ext = append(ext, &ast.ExternTypeInterface{ID: "e0"}, &ast.ExternTypeInterface{ID: "e1", InterfaceItems: interfaceItems()[:3]})
	for _, x := range ext {
		out = append(out, &ast.Import{ExternType: x}, &ast.Export{ExternType: x})
	}
	return out
}

func topItems() []ast.AstItem {
	out := []ast.AstItem{{Interface: &ast.Interface{Name: "i0"}}, {World: &ast.World{Id: "w0"}},
		{Interface: &ast.Interface{Name: "i1", Items: interfaceItems()[2:12]}}, {World: &ast.World{Id: "w1", Items: worldItems()[12:20]}}}
	for _, p := range paths() {
		out = append(out, ast.AstItem{Use: &ast.TopLevelUse{Item: p}}, ast.AstItem{Use: &ast.TopLevelUse{Item: p, As: option.Some("z")}})
	}
	return out
}

// everything is a document with every kind of item, split in parts.
func layoutDocs() [][]string {
	var out [][]string
	add := func(a *ast.Ast) {
		p := &printer{}
		p.document(a)
		out = append(out, p.out)
		q := &printer{bits: ^uint64(0)}
		q.document(a)
		if len(q.out) != len(p.out) {
			out = append(out, q.out)
		}
	}
	for _, it := range interfaceItems() {
		add(iface(it))
	}
	for _, it := range worldItems() {
		add(world(it))
	}
	for _, it := range topItems() {
		if it.Use != nil {
			add(&ast.Ast{Items: []ast.AstItem{it}})
		}
	}
	add(&ast.Ast{PackageDeclaration: option.Some(pkg("n", "q"))})
	add(&ast.Ast{PackageDeclaration: option.Some(pkg("n", "q", 10, 20, 30)), Items: topItems()[:2]})
	for _, t := range []ast.Type{&ast.Result{Ok: o(&ast.U8{}), Error: o(&ast.Char{})}, &ast.Result{Error: o(&ast.Id{Value: "e"})}, &ast.Stream{Element: o(&ast.Bool{}), End: o(&ast.U8{})}, &ast.Stream{End: o(&ast.U8{})}, &ast.Option{ItemType: &ast.Future{ItemType: o(&ast.S16{})}}, &ast.Borrow{Id: "r"}} {
		add(iface(&ast.TypeItem{ID: "x", Type: t}))
	}
	return out
}

func c23(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var fs []mc.Family
	full := typesBySize(allLeaves(), 3)
	var ts []ast.Type
	for _, l := range full[1:] {
		ts = append(ts, l...)
	}
	fs = append(fs, mc.Family{Name: "types", Bound: fmt.Sprintf("every type of up to 3 nodes (%d) in each of %d places", len(ts), len(places)), N: int64(len(ts) * len(places)),
		Run: func(w *mc.W, i int64) {
			treeCase(w, places[i%int64(len(places))](ts[i/int64(len(places))]))
		}})
	deep := typesBySize([]ast.Type{&ast.U16{}, &ast.Id{Value: "x-y1"}, &ast.Borrow{Id: "r"}, &ast.Result{}}, pick(5, 6))
	var ds []ast.Type
	for _, l := range deep[4:] {
		ds = append(ds, l...)
	}
	fs = append(fs, mc.Family{Name: "nested types", Bound: fmt.Sprintf("every type of 4 to %d nodes over 4 leaves (%d)", pick(5, 6), len(ds)), N: int64(len(ds)),
		Run: func(w *mc.W, i int64) { treeCase(w, places[int(i)%2](ds[i])) }})
	ii := interfaceItems()
	fs = append(fs, mc.Family{Name: "interface items", Bound: fmt.Sprintf("every sequence of up to 3 out of %d items", len(ii)), N: mc.SeqCount(len(ii), 3),
		Run: func(w *mc.W, i int64) {
			var buf [4]int
			var items []ast.InterfaceItem
			for _, x := range mc.Seq(i, len(ii), 3, buf[:0]) {
				items = append(items, ii[x])
			}
			treeCase(w, iface(items...))
			if len(items) < 3 {
				treeCase(w, world(&ast.Import{ExternType: &ast.ExternTypeInterface{ID: "e", InterfaceItems: items}}, &ast.Export{ExternType: &ast.ExternTypeInterface{ID: "x", InterfaceItems: items}}))
			}
		}})
	wi := worldItems()
	wn := pick(2, 3)
	fs = append(fs, mc.Family{Name: "world items", Bound: fmt.Sprintf("every sequence of up to %d out of %d items", wn, len(wi)), N: mc.SeqCount(len(wi), wn),
		Run: func(w *mc.W, i int64) {
			var buf [4]int
			var items []ast.WorldItem
			for _, x := range mc.Seq(i, len(wi), wn, buf[:0]) {
				items = append(items, wi[x])
			}
			treeCase(w, world(items...))
		}})
	ti := topItems()
	pkgs := []*ast.PackageDeclaration{nil}
	for _, d := range []ast.PackageDeclaration{pkg("n", "p"), pkg("n", "p", 0, 0, 1), pkg("%world", "a-b", 12, 0, 345)} {
		d := d
		pkgs = append(pkgs, &d)
	}
	fs = append(fs, mc.Family{Name: "documents", Bound: fmt.Sprintf("%d package declarations, every sequence of up to 3 out of %d top level items", len(pkgs), len(ti)), N: mc.SeqCount(len(ti), 3) * int64(len(pkgs)),
		Run: func(w *mc.W, i int64) {
			a := &ast.Ast{}
			if d := pkgs[i%int64(len(pkgs))]; d != nil {
				a.PackageDeclaration = option.Some(*d)
			}
			var buf [4]int
			for _, x := range mc.Seq(i/int64(len(pkgs)), len(ti), 3, buf[:0]) {
				a.Items = append(a.Items, ti[x])
			}
			treeCase(w, a)
		}})
	var ms []ast.ResourceMethod
	ms = append(ms, &ast.Constructor{}, &ast.Constructor{ParameterList: ps(&ast.U8{}, &ast.Own{Id: "r"})})
	for i, f := range funcs() {
		ms = append(ms, ast.Static{ID: fmt.Sprintf("s%d", i), FuncType: f}, ast.Method{Func: &ast.FuncItem{ID: fmt.Sprintf("m%d", i), FuncType: f}})
	}
	fs = append(fs, mc.Family{Name: "methods", Bound: fmt.Sprintf("every sequence of up to 3 out of %d methods of a resource, in an interface and a world", len(ms)), N: mc.SeqCount(len(ms), 3),
		Run: func(w *mc.W, i int64) {
			var buf [4]int
			r := &ast.Resource{ID: "r"}
			for _, x := range mc.Seq(i, len(ms), 3, buf[:0]) {
				r.Methods = append(r.Methods, ms[x])
			}
			treeCase(w, iface(r))
			treeCase(w, world(r))
		}})
	// lists of every length, every cases pattern
	fs = append(fs, mc.Family{Name: "lengths", Bound: "lists of fields, flags, cases, parameters, results, names, tuple items of every length up to 40, every with/without-payload pattern of up to 8 cases and alias pattern of up to 8 names", N: 40 + 256*2,
		Run: func(w *mc.W, i int64) {
			name := func(k int) string { return fmt.Sprintf("n%d", k) }
			if i < 40 {
				rec, fl, en, tu := &ast.Record{ID: "r"}, &ast.Flags{ID: "f"}, &ast.Enum{ID: "e"}, &ast.Tuple{}
				var pp []ast.Parameter
				inc := &ast.Include{From: local("x")}
				leaves := allLeaves()
				for k := 0; k <= int(i); k++ {
					t := leaves[k%len(leaves)]
					rec.Fields = append(rec.Fields, ast.Field{Name: name(k), Type: t})
					fl.Flags = append(fl.Flags, ast.Flag{Id: name(k)})
					en.Cases = append(en.Cases, ast.EnumCase{Name: name(k)})
					tu.Types = append(tu.Types, t)
					pp = append(pp, ast.Parameter{Id: name(k), Type: t})
					inc.Names = append(inc.Names, ast.IncludeName{Name: name(k), As: "x" + name(k)})
				}
				treeCase(w, iface(rec))
				treeCase(w, iface(fl))
				treeCase(w, iface(en))
				treeCase(w, iface(&ast.TypeItem{ID: "t", Type: tu}))
				treeCase(w, iface(&ast.FuncItem{ID: "f", FuncType: fn(pp, nil, pp...)}))
				treeCase(w, world(inc))
				return
			}
			i -= 40
			bits, n := i%256, 8
			va, us := &ast.Variant{ID: "v"}, &ast.Use{From: paths()[2]}
			for k := 0; k < n; k++ {
				c, u := ast.Case{Name: name(k)}, ast.UseName{Name: name(k)}
				if bits>>k&1 == 1 {
					c.Type = o(ts[k])
					u.As = option.Some("as-" + name(k))
				}
				va.Cases = append(va.Cases, c)
				us.Names = append(us.Names, u)
			}
			if i < 256 {
				treeCase(w, iface(va))
			} else {
				treeCase(w, iface(us))
				treeCase(w, world(us))
			}
		}})
	vs := []uint64{0, 1, 7, 8, 9, 10, 19, 100, 65535, 65536, 4294967295, 4294967296, 20231018, 202310181234, 9223372036854775807, 9223372036854775808, 18446744073709551615}
	fs = append(fs, mc.Family{Name: "versions", Bound: fmt.Sprintf("every version of three out of %d numbers, in each of 7 places", len(vs)), N: mc.Pow(len(vs), 3),
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, len(vs), len(vs), len(vs))
			p := pkg("n", "q", vs[d[0]], vs[d[1]], vs[d[2]])
			u := remote(p, "p")
			treeCase(w, &ast.Ast{PackageDeclaration: option.Some(p)})
			treeCase(w, &ast.Ast{Items: []ast.AstItem{{Use: &ast.TopLevelUse{Item: u}}, {Use: &ast.TopLevelUse{Item: u, As: option.Some("z")}}}})
			treeCase(w, iface(&ast.Use{From: u, Names: []ast.UseName{{Name: "a"}}}))
			treeCase(w, world(&ast.Import{ExternType: &ast.ExternTypeUsePath{UsePath: u}}, &ast.Export{ExternType: &ast.ExternTypeUsePath{UsePath: u}}, &ast.Include{From: u}, &ast.Include{From: u, Names: []ast.IncludeName{{Name: "a", As: "b"}}}))
		}})
	// names: every keyword escaped, words next to keywords, every shape
	names := []string{"a", "z9", "a-b", "a1-b2-c3", "A", "AB-CD", "a-B", "x-u8", "u8-x", "u128", "lists", "func-x", "from-x", "a0", "interfaces", "%x", "%a-b", "f32", "f64", "s", "u", "error-context", "async", "borrowed", "i", "underscore"}
	for _, k := range keywordList() {
		names = append(names, "%"+k, k+"x", "x-"+k, k+"-y1", strings.ToUpper(k))
	}
	named := []func(n string) *ast.Ast{
		func(n string) *ast.Ast { return &ast.Ast{PackageDeclaration: option.Some(pkg(n, "b"))} },
		func(n string) *ast.Ast { return &ast.Ast{PackageDeclaration: option.Some(pkg("b", n, 1, 0, 0))} },
		func(n string) *ast.Ast {
			return &ast.Ast{Items: []ast.AstItem{{Use: &ast.TopLevelUse{Item: local(n), As: option.Some(n)}}, {Use: &ast.TopLevelUse{Item: remote(pkg(n, "x"), "y")}}, {Use: &ast.TopLevelUse{Item: remote(pkg("x", n, 1, 2, 3), "y")}}, {Use: &ast.TopLevelUse{Item: remote(pkg("x", "y"), n)}}}}
		},
		func(n string) *ast.Ast {
			return &ast.Ast{Items: []ast.AstItem{{Interface: &ast.Interface{Name: n}}, {World: &ast.World{Id: n}}}}
		},
		func(n string) *ast.Ast {
			return iface(&ast.Use{From: local(n), Names: []ast.UseName{{Name: n}, {Name: n, As: option.Some(n)}}}, &ast.FuncItem{ID: n, FuncType: fn([]ast.Parameter{{Id: n, Type: &ast.Id{Value: n}}}, &ast.Id{Value: n})},
				&ast.FuncItem{ID: n, FuncType: fn(nil, nil, ast.Parameter{Id: n, Type: &ast.Own{Id: n}})})
		},
		func(n string) *ast.Ast {
			return iface(&ast.TypeItem{ID: n, Type: &ast.Borrow{Id: n}}, &ast.Record{ID: n, Fields: []ast.Field{{Name: n, Type: &ast.List{ItemType: &ast.Id{Value: n}}}}})
		},
		func(n string) *ast.Ast {
			return iface(&ast.Flags{ID: n, Flags: []ast.Flag{{Id: n}, {Id: n}}}, &ast.Enum{ID: n, Cases: []ast.EnumCase{{Name: n}}}, &ast.Variant{ID: n, Cases: []ast.Case{{Name: n}, {Name: n, Type: o(&ast.Id{Value: n})}}})
		},
		func(n string) *ast.Ast {
			return world(&ast.Resource{ID: n, Methods: []ast.ResourceMethod{ast.Static{ID: n, FuncType: fn(nil, nil)}, ast.Method{Func: &ast.FuncItem{ID: n, FuncType: fn(nil, nil)}}}}, &ast.Resource{ID: n})
		},
		func(n string) *ast.Ast {
			return world(&ast.Import{ExternType: &ast.ExternTypeFunc{ID: n, Func: fn(nil, nil)}}, &ast.Export{ExternType: &ast.ExternTypeInterface{ID: n}}, &ast.Import{ExternType: &ast.ExternTypeUsePath{UsePath: local(n)}}, &ast.Export{ExternType: &ast.ExternTypeUsePath{UsePath: remote(pkg(n, n, 0, 1, 0), n)}})
		},
		func(n string) *ast.Ast {
			return world(&ast.Include{From: local(n)}, &ast.Include{From: remote(pkg(n, n), n), Names: []ast.IncludeName{{Name: n, As: n}, {Name: n, As: n}}})
		},
	}
	fs = append(fs, mc.Family{Name: "names", Bound: fmt.Sprintf("every one of %d names, every escaped keyword among them, in %d documents covering every place of a name", len(names), len(named)), N: int64(len(names) * len(named)),
		Run: func(w *mc.W, i int64) { treeCase(w, named[i%int64(len(named))](names[i/int64(len(named))])) }})
	docs := layoutDocs()
	fillers := []string{" ", "\n", "\t", "\r\n", "\n\n  ", "/**/", "/* c */", "/*/* n */*/", "// line\n", "//\n", "/// doc }\n", "/* \n } */ ", "// /*\n", "/*// */"}
	fs = append(fs, mc.Family{Name: "layout", Bound: fmt.Sprintf("%d documents, %d fillers in every gap, in all gaps, at both ends, in every pair of gaps", len(docs), len(fillers)), N: int64(len(docs) * len(fillers)),
		Run: func(w *mc.W, i int64) {
			toks, f := docs[i/int64(len(fillers))], fillers[i%int64(len(fillers))]
			base, _ := refParse(strings.Join(toks, " "))
			exp := dump(base)
			check := func(s string) {
				w.State(s)
				ref, v := judge(w, s)
				if v != accept || dump(ref) != exp {
					w.Fail("harness", "layout changes the reference: %s", s)
				}
			}
			check(join(toks, func(int) string { return f }))
			check(join(toks, func(int) string { return f }) + f)
			check(tight(toks) + f)
			for a := range toks {
				check(join(toks, func(k int) string {
					if k == a {
						return f
					}
					return ""
				}))
				check(join(toks, func(k int) string {
					if k == a {
						return f
					}
					return " "
				}))
				if !thorough && len(toks) > 20 {
					continue
				}
				for b := a + 1; b < len(toks); b++ {
					check(join(toks, func(k int) string {
						if k == a || k == b {
							return f
						}
						return ""
					}))
				}
			}
			// a line comment needs no line end at the end of the text
			if strings.HasPrefix(f, "//") {
				check(tight(toks) + strings.TrimSuffix(f, "\n"))
			}
		}})
	return append(fs, many())
}
