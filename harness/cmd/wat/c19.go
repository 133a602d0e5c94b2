package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"verif/harness/mc"
)

// tight joins tokens with a space only where two words would merge.
func tight(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 && isIdChar(t[0]) && isIdChar(toks[i-1][len(toks[i-1])-1]) {
			b.WriteByte(' ')
		}
		b.WriteString(t)
	}
	return b.String()
}

// treeCase checks one module in all its spellings.
func treeCase(w *mc.W, m *ast.Module, layouts ...string) {
	exp := dump(m)
	for bits := uint64(0); ; bits++ {
		p := &printer{bits: bits}
		p.module(m)
		if p.used > 20 || bits >= 1<<p.used {
			if p.used > 20 {
				w.Fail("harness", "too many decisions")
			}
			break
		}
		for _, l := range append([]string{" "}, layouts...) {
			text := strings.Join(p.out, l)
			if l == "" {
				text = tight(p.out)
			}
			w.State(text)
			if bits < 2 && !w.Failed() {
				if d, v, whole := refDirective(text); v != accept || whole != accept || dump(d) != exp {
					panic("the reference parser disagrees with the printer on " + text)
				}
			}
			compare(w, text, exp, accept, accept)
			if w.Failed() {
				return
			}
		}
	}
}

func fn(is ...ast.Instruction) *ast.Module {
	return &ast.Module{Functions: []ast.Function{{Instructions: is}}}
}

// variants of every instruction.
func allInstructions() []ast.Instruction {
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	idx := []ast.Index{ast.RawIndex{}, ast.RawIndex{Index: 1}, ast.RawIndex{Index: 4294967295}, ast.IDIndex{ID: "$x"}, ast.IDIndex{ID: "$0"}, ast.IDIndex{ID: "$i32.add"}}
	var out []ast.Instruction
	for _, n := range names {
		if ops[n].leaf != nil {
			out = append(out, ops[n].leaf)
		}
	}
	for _, x := range idx {
		out = append(out, ast.Br{Index: x}, ast.BrIf{Index: x}, ast.Call{Index: x}, ast.LocalGet{Index: x}, ast.LocalSet{Index: x}, ast.LocalTee{Index: x}, ast.GlobalGet{Index: x}, ast.GlobalSet{Index: x})
		for _, y := range idx {
			out = append(out, ast.BrTable{Indicies: []ast.Index{x, y}}, ast.BrTable{Indicies: []ast.Index{x, y, x, y}})
		}
		out = append(out, ast.BrTable{Indicies: []ast.Index{x}})
	}
	for _, v := range []int32{0, 1, -1, 2147483647, -2147483648} {
		out = append(out, ast.I32Const{Value: v}, ast.I64Const{Value: int64(v)}, ast.I64Const{Value: int64(v) << 32}, ast.F32Const{Value: float32(v) / 4}, ast.F64Const{Value: float64(v) / 3})
	}
	out = append(out, ast.CallIndirect{Type: ast.TypeUse{Index: "$sig"}}, ast.CallIndirect{Type: ast.TypeUse{Index: "$type"}})
	bts := []ast.BlockType{{}, {Results: []ast.Result{{Types: []ast.ValType{ast.I32{}}}}}, {Results: []ast.Result{{}}}, {Results: []ast.Result{{Types: []ast.ValType{ast.I64{}, ast.F32{}}}, {Types: []ast.ValType{ast.F64{}}}}}}
	for _, n := range []types.Option[string]{nil, option.Some("$l")} {
		for _, bt := range bts {
			out = append(out, ast.Block{Name: n, BlockType: bt}, ast.Loop{Name: n, BlockType: bt}, ast.If{Name: n, BlockType: bt}, ast.If{Name: n, BlockType: bt, Else: option.Some(ast.Else{})})
		}
	}
	return out
}

// contexts puts an instruction in every place one can stand.
func contexts(i ast.Instruction) []*ast.Module {
	one := []ast.Instruction{i}
	d := ast.Instruction(ast.Drop{})
	res := []*ast.Module{fn(i), fn(d, i), fn(i, d), fn(i, i),
		fn(ast.Folded{Instruction: ast.I32Add{}, Parameters: one}),
		fn(ast.Folded{Instruction: ast.Return{}, Parameters: []ast.Instruction{d, i, d}}),
		fn(ast.Block{Instructions: one}), fn(ast.Loop{Instructions: []ast.Instruction{d, i}}), fn(ast.Block{Name: option.Some("$k"), Instructions: []ast.Instruction{i, d}}),
		fn(ast.If{Then: ast.Then{Instructions: one}}), fn(ast.If{Else: option.Some(ast.Else{Instructions: one})}), fn(ast.If{Clause: one}), fn(ast.If{Clause: []ast.Instruction{d, i}, Then: ast.Then{Instructions: one}}),
		{Globals: []ast.Global{{Type: ast.GlobalType{Type: ast.I32{}}, Instructions: one}}},
		{Globals: []ast.Global{{ID: option.Some("$g"), Type: ast.GlobalType{Type: ast.F64{}, Mutable: true}, Instructions: []ast.Instruction{i, d}}}},
	}
	switch i.(type) {
	case ast.Block, ast.Loop, ast.If, ast.Folded:
	default:
		res = append(res, fn(ast.Folded{Instruction: i, Parameters: []ast.Instruction{d}}), fn(ast.Folded{Instruction: i, Parameters: []ast.Instruction{ast.Folded{Instruction: i, Parameters: one}, ast.Block{}}}))
	}
	return res
}

// fields are the module fields sequences are made of, as setters.
func fieldSet() []func(m *ast.Module) {
	i32t, f64t := ast.ValType(ast.I32{}), ast.ValType(ast.F64{})
	fun := func(f ast.Function) func(*ast.Module) {
		return func(m *ast.Module) { m.Functions = append(m.Functions, f) }
	}
	typ := func(t ast.Type) func(*ast.Module) { return func(m *ast.Module) { m.Types = append(m.Types, t) } }
	tab := func(t ast.Table) func(*ast.Module) { return func(m *ast.Module) { m.Tables = append(m.Tables, t) } }
	mem := func(t ast.Memory) func(*ast.Module) { return func(m *ast.Module) { m.Memory = append(m.Memory, t) } }
	glo := func(t ast.Global) func(*ast.Module) { return func(m *ast.Module) { m.Globals = append(m.Globals, t) } }
	id := option.Some[string]
	return []func(m *ast.Module){
		fun(ast.Function{}), fun(ast.Function{ID: id("$f"), Instructions: []ast.Instruction{ast.Drop{}}}),
		fun(ast.Function{Exports: []ast.InlineExport{{Name: "add"}}, Parameters: []ast.Parameter{{ID: id("$x"), Types: []ast.ValType{i32t}}}}),
		fun(ast.Function{Imports: []ast.InlineImport{{Module: "m", Field: "f"}}, Results: []ast.Result{{Types: []ast.ValType{f64t}}}}),
		typ(ast.Type{}), typ(ast.Type{ID: id("$t"), FuncType: ast.FuncType{Parameters: []ast.Parameter{{Types: []ast.ValType{i32t, f64t}}}, Results: []ast.Result{{Types: []ast.ValType{f64t}}}}}),
		tab(ast.Table{TableType: ast.TableType{Limits: ast.Limits{Min: 1}, RefType: ast.FuncRef{}}}),
		tab(ast.Table{ID: id("$t"), TableType: ast.TableType{RefType: ast.ExternRef{}}, Elements: []ast.Element{{ID: "$f"}, {ID: "$g"}}}),
		mem(ast.Memory{Limits: ast.Limits{Min: 1}}), mem(ast.Memory{ID: id("$m"), Limits: ast.Limits{Min: 0, Max: option.Some[uint32](2)}}),
		glo(ast.Global{Type: ast.GlobalType{Type: i32t}}), glo(ast.Global{ID: id("$g"), Type: ast.GlobalType{Mutable: true, Type: f64t}, Instructions: []ast.Instruction{ast.F64Const{Value: 1}}}),
	}
}

// fieldText writes each field of a module in the order given, not grouped by kind.
func fieldText(set []func(*ast.Module), seq []int, bits uint64) []string {
	out := []string{"(", "module"}
	for _, x := range seq {
		var m ast.Module
		set[x](&m)
		p := &printer{bits: bits}
		p.module(&m)
		out = append(out, p.out[2:len(p.out)-1]...)
	}
	return append(out, ")")
}

var layoutFillers = []string{" ", "\n", "\t", "\r\n", "  ", "(;;)", "(; (;x;) \n\" ;)", ";; )(\n", " ;;\n ", "\n\n(;a;)(;b;)"}

func c19(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var fs []mc.Family
	all := allInstructions()
	fs = append(fs, mc.Family{Name: "instructions", Bound: fmt.Sprintf("%d variants of all %d instructions in every context, each instruction plain and folded, spaced and tight", len(all), len(ops)), N: int64(len(all)),
		Run: func(w *mc.W, i int64) {
			for _, m := range contexts(all[i]) {
				treeCase(w, m, "", "\n")
			}
		}})
	// pairs of instructions next to each other
	fs = append(fs, mc.Family{Name: "pairs", Bound: fmt.Sprintf("every ordered pair of the %d variants in a body and as operands, plain and folded", len(all)), N: int64(len(all) * len(all)),
		Run: func(w *mc.W, i int64) {
			a, b := all[i/int64(len(all))], all[i%int64(len(all))]
			treeCase(w, fn(a, b))
			treeCase(w, fn(ast.Folded{Instruction: ast.Drop{}, Parameters: []ast.Instruction{a, b}}))
		}})
	n := pick(4, 5)
	t := newTrees([]ast.Instruction{ast.Drop{}, ast.Call{Index: ast.IDIndex{ID: "$f"}}}, n)
	var seqs [][]ast.Instruction
	for k := 0; k <= n; k++ {
		seqs = append(seqs, t.seq[k]...)
	}
	fs = append(fs, mc.Family{Name: "nesting", Bound: fmt.Sprintf("every body of up to %d nested instructions out of 2 leaves, folding, block, loop and if, each plain and folded", n), N: int64(len(seqs)),
		Run: func(w *mc.W, i int64) { treeCase(w, fn(seqs[i]...)) }})
	set := fieldSet()
	k := pick(4, 5)
	fs = append(fs, mc.Family{Name: "fields", Bound: fmt.Sprintf("every sequence of up to %d out of %d fields", k, len(set)), N: mc.SeqCount(len(set), k),
		Run: func(w *mc.W, i int64) {
			var buf [8]int
			seq := mc.Seq(i, len(set), k, buf[:0])
			var m ast.Module
			for _, x := range seq {
				set[x](&m)
			}
			exp := dump(&m)
			for bits := uint64(0); bits < 2; bits++ {
				toks := fieldText(set, seq, bits-bits&1*2) // all folded, all plain
				for _, text := range []string{strings.Join(toks, " "), tight(toks)} {
					w.State(text)
					compare(w, text, exp, accept, accept)
				}
			}
		}})
	// functions
	ids := []types.Option[string]{nil, option.Some("$f")}
	exports := [][]ast.InlineExport{nil, {{Name: ""}}, {{Name: "a"}}, {{Name: "a b\"\\\n\x00é"}, {Name: "func"}}}
	imports := [][]ast.InlineImport{nil, {{Module: "m", Field: ""}}, {{Module: "", Field: "é\x7f"}}}
	a, b, c, d := ast.ValType(ast.I32{}), ast.ValType(ast.I64{}), ast.ValType(ast.F32{}), ast.ValType(ast.F64{})
	params := [][]ast.Parameter{nil, {{}}, {{Types: []ast.ValType{a}}}, {{Types: []ast.ValType{a, b, c, d}}}, {{ID: option.Some("$x"), Types: []ast.ValType{d}}}, {{Types: []ast.ValType{b}}, {ID: option.Some("$x"), Types: []ast.ValType{c}}, {}, {Types: []ast.ValType{a, a}}}}
	results := [][]ast.Result{nil, {{}}, {{Types: []ast.ValType{a}}}, {{Types: []ast.ValType{d, c, b, a}}}, {{Types: []ast.ValType{b}}, {}, {Types: []ast.ValType{c, d}}}}
	locals := [][]ast.Local{nil, {{Type: a}}, {{Type: a}, {Type: b}, {Type: c}}, {{ID: option.Some("$y"), Type: d}}, {{Type: b}, {ID: option.Some("$y"), Type: a}, {Type: d}, {Type: a}, {ID: option.Some("$z"), Type: c}}}
	bodies := [][]ast.Instruction{nil, {ast.Drop{}}, {ast.Return{}, ast.Folded{Instruction: ast.I32Add{}, Parameters: []ast.Instruction{ast.Drop{}}}}}
	fs = append(fs, mc.Family{Name: "functions", Bound: "every combination of identifier, exports, import, parameters, results, locals and body", N: int64(len(ids) * len(exports) * len(imports) * len(params) * len(results) * len(locals) * len(bodies)),
		Run: func(w *mc.W, i int64) {
			x := mc.Mixed(i, len(ids), len(exports), len(imports), len(params), len(results), len(locals), len(bodies))
			f := ast.Function{ID: ids[x[0]], Exports: exports[x[1]], Imports: imports[x[2]], Parameters: params[x[3]], Results: results[x[4]], Locals: locals[x[5]], Instructions: bodies[x[6]]}
			if len(f.Imports) > 0 && (len(f.Locals) > 0 || len(f.Instructions) > 0) {
				return
			}
			treeCase(w, &ast.Module{Functions: []ast.Function{f}}, "")
		}})
	tids := []types.Option[string]{nil, option.Some("$t")}
	nums := []uint32{0, 1, 65536, 4294967295}
	fs = append(fs, mc.Family{Name: "types, tables, memories and globals", Bound: "every combination of identifier, signature, limits, reference type, elements, value type and mutability", N: 2,
		Run: func(w *mc.W, i int64) {
			id := tids[i]
			for _, p := range params {
				for _, r := range results {
					treeCase(w, &ast.Module{Types: []ast.Type{{ID: id, FuncType: ast.FuncType{Parameters: p, Results: r}}}}, "")
				}
			}
			for _, min := range nums {
				for _, max := range []types.Option[uint32]{nil, option.Some(nums[0]), option.Some(nums[1]), option.Some(nums[2]), option.Some(nums[3])} {
					l := ast.Limits{Min: min, Max: max}
					treeCase(w, &ast.Module{Memory: []ast.Memory{{ID: id, Limits: l}}}, "")
					if min == 0 && max == nil {
						continue // written as elements by the printer
					}
					for _, r := range []ast.RefType{ast.FuncRef{}, ast.ExternRef{}} {
						treeCase(w, &ast.Module{Tables: []ast.Table{{ID: id, TableType: ast.TableType{Limits: l, RefType: r}}}}, "")
					}
				}
			}
			for _, r := range []ast.RefType{ast.FuncRef{}, ast.ExternRef{}} {
				for _, e := range [][]ast.Element{nil, {{ID: "$f"}}, {{ID: "$f"}, {ID: "$g"}, {ID: "$f"}}} {
					treeCase(w, &ast.Module{Tables: []ast.Table{{ID: id, TableType: ast.TableType{RefType: r}, Elements: e}}}, "")
				}
			}
			for _, v := range []ast.ValType{a, b, c, d} {
				for _, mut := range []bool{false, true} {
					for _, body := range bodies {
						treeCase(w, &ast.Module{Globals: []ast.Global{{ID: id, Type: ast.GlobalType{Type: v, Mutable: mut}, Instructions: body}}}, "")
					}
				}
			}
		}})
	// layout
	lay := layoutModules()
	var at []int64
	total := int64(0)
	for _, toks := range lay {
		at = append(at, total)
		total += int64(len(toks)+1) * int64(len(toks)+1)
	}
	fs = append(fs, mc.Family{Name: "layout", Bound: fmt.Sprintf("%d modules with every pair of gaps between tokens filled with each of %d spaces and comments, the others tight or spaced", len(lay), len(layoutFillers)), N: total,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(at), func(k int) bool { return at[k] > i }) - 1
			toks := lay[k]
			i -= at[k]
			g1, g2 := int(i)/(len(toks)+1), int(i)%(len(toks)+1)
			if g2 < g1 {
				return
			}
			d, v, _ := refDirective(tight(toks))
			if v != accept {
				panic(tight(toks))
			}
			exp := dump(d)
			for f1, x := range layoutFillers {
				for f2, y := range layoutFillers {
					if (!thorough || g1 == g2) && f1 != f2 {
						continue
					}
					for _, base := range []string{"", " "} {
						var b strings.Builder
						for j := 0; j <= len(toks); j++ {
							fill := func(s string) {
								if s[0] == ';' && j > 0 && toks[j-1] == "(" {
									b.WriteByte(' ') // "(;" would open a block comment
								}
								b.WriteString(s)
							}
							switch {
							case j == g1:
								fill(x)
							case j == g2:
								fill(y)
							case j > 0 && j < len(toks) && (base == " " || isIdChar(toks[j][0]) && isIdChar(toks[j-1][len(toks[j-1])-1])):
								b.WriteByte(' ')
							}
							if j < len(toks) {
								b.WriteString(toks[j])
							}
						}
						w.State(b.String())
						compare(w, b.String(), exp, accept, accept)
					}
				}
			}
		}})
	return append(fs, manyFields())
}

// layoutModules covers every field and every kind of instruction.
func layoutModules() [][]string {
	var out [][]string
	set := fieldSet()
	for i := range set {
		out = append(out, fieldText(set, []int{i}, 0))
	}
	out = append(out, []string{"(", "component", ")"}, []string{"(", "module", ")"})
	full := ast.Function{ID: option.Some("$f"), Exports: []ast.InlineExport{{Name: "e"}}, Parameters: []ast.Parameter{{ID: option.Some("$x"), Types: []ast.ValType{ast.I32{}}}}, Results: []ast.Result{{Types: []ast.ValType{ast.I32{}}}}, Locals: []ast.Local{{Type: ast.F64{}}},
		Instructions: []ast.Instruction{
			ast.Block{Name: option.Some("$b"), BlockType: ast.BlockType{Results: []ast.Result{{Types: []ast.ValType{ast.I32{}}}}}, Instructions: []ast.Instruction{ast.I32Const{Value: -1}}},
			ast.If{Then: ast.Then{Instructions: []ast.Instruction{ast.Drop{}}}, Else: option.Some(ast.Else{Instructions: []ast.Instruction{ast.CallIndirect{Type: ast.TypeUse{Index: "$t"}}}})},
			ast.Folded{Instruction: ast.BrTable{Indicies: []ast.Index{ast.RawIndex{Index: 1}, ast.IDIndex{ID: "$b"}}}, Parameters: []ast.Instruction{ast.LocalGet{Index: ast.IDIndex{ID: "$x"}}, ast.F32Const{Value: 1.5}}},
		}}
	for _, bits := range []uint64{0, ^uint64(0)} {
		p := &printer{bits: bits}
		p.module(&ast.Module{Functions: []ast.Function{full}})
		out = append(out, p.out)
	}
	return out
}
