package main

import (
	"strconv"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wat/ast"
)

// The printer writes a tree as tokens; bits decide which instructions are plain.

type printer struct {
	out  []string
	bits uint64
	used int // decisions taken
}

func (p *printer) put(s ...string) { p.out = append(p.out, s...) }

func (p *printer) plain() bool {
	b := p.bits>>p.used&1 == 1
	p.used++
	return b
}

func (p *printer) id(o types.Option[string]) {
	if o != nil {
		if v, ok := o.Deconstruct(); ok {
			p.put(v)
		}
	}
}

func (p *printer) module(m *ast.Module) {
	p.put("(", "module")
	for i := range m.Types {
		p.put("(", "type")
		p.id(m.Types[i].ID)
		p.put("(", "func")
		p.sig(m.Types[i].FuncType.Parameters, m.Types[i].FuncType.Results)
		p.put(")", ")")
	}
	for i := range m.Tables {
		t := &m.Tables[i]
		p.put("(", "table")
		p.id(t.ID)
		ref := "funcref"
		if _, ok := t.TableType.RefType.(ast.ExternRef); ok {
			ref = "externref"
		}
		if t.TableType.Limits.Max == nil && t.TableType.Limits.Min == 0 {
			p.put(ref, "(", "elem")
			for _, e := range t.Elements {
				p.put(e.ID)
			}
			p.put(")")
		} else {
			p.limits(t.TableType.Limits)
			p.put(ref)
		}
		p.put(")")
	}
	for i := range m.Memory {
		p.put("(", "memory")
		p.id(m.Memory[i].ID)
		p.limits(m.Memory[i].Limits)
		p.put(")")
	}
	for i := range m.Globals {
		g := &m.Globals[i]
		p.put("(", "global")
		p.id(g.ID)
		if g.Type.Mutable {
			p.put("(", "mut", valName(g.Type.Type), ")")
		} else {
			p.put(valName(g.Type.Type))
		}
		p.seq(g.Instructions)
		p.put(")")
	}
	for i := range m.Functions {
		f := &m.Functions[i]
		p.put("(", "func")
		p.id(f.ID)
		for _, e := range f.Exports {
			p.put("(", "export", quote(e.Name), ")")
		}
		for _, x := range f.Imports {
			p.put("(", "import", quote(x.Module), quote(x.Field), ")")
		}
		p.sig(f.Parameters, f.Results)
		for k := 0; k < len(f.Locals); k++ {
			l := f.Locals[k]
			p.put("(", "local")
			p.id(l.ID)
			p.put(valName(l.Type))
			if l.ID == nil {
				// unnamed locals in a row share a field
				for k+1 < len(f.Locals) && f.Locals[k+1].ID == nil && p.plain() {
					k++
					p.put(valName(f.Locals[k].Type))
				}
			}
			p.put(")")
		}
		p.seq(f.Instructions)
		p.put(")")
	}
	p.put(")")
}

func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range []byte(s) {
		if c < 0x20 || c == '"' || c == '\\' || c >= 0x7f {
			b.WriteByte('\\')
			b.WriteByte("0123456789abcdef"[c>>4])
			b.WriteByte("0123456789abcdef"[c&15])
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) limits(l ast.Limits) {
	p.put(strconv.FormatUint(uint64(l.Min), 10))
	if max, ok := some(l.Max); ok {
		p.put(strconv.FormatUint(max, 10))
	}
}

func (p *printer) sig(params []ast.Parameter, results []ast.Result) {
	for _, x := range params {
		p.put("(", "param")
		p.id(x.ID)
		for _, t := range x.Types {
			p.put(valName(t))
		}
		p.put(")")
	}
	p.results(results)
}

func (p *printer) results(results []ast.Result) {
	for _, x := range results {
		p.put("(", "result")
		for _, t := range x.Types {
			p.put(valName(t))
		}
		p.put(")")
	}
}

func valName(t ast.ValType) string {
	switch t.(type) {
	case ast.I32:
		return "i32"
	case ast.I64:
		return "i64"
	case ast.F32:
		return "f32"
	}
	return "f64"
}

func (p *printer) seq(is []ast.Instruction) {
	for _, i := range is {
		switch x := i.(type) {
		case ast.Folded:
			p.folded(i)
			continue
		case ast.If:
			if len(x.Clause) > 0 {
				p.folded(i)
				continue
			}
		}
		if p.plain() {
			p.open(i, true)
		} else {
			p.folded(i)
		}
	}
}

func (p *printer) folded(i ast.Instruction) {
	p.put("(")
	if f, ok := i.(ast.Folded); ok {
		p.open(f.Instruction, false)
		for _, x := range f.Parameters {
			p.folded(x)
		}
	} else {
		p.open(i, false)
	}
	p.put(")")
}

func (p *printer) index(op string, x ...ast.Index) {
	p.put(op)
	for _, i := range x {
		switch v := i.(type) {
		case ast.IDIndex:
			p.put(v.ID)
		case ast.RawIndex:
			p.put(strconv.FormatUint(uint64(v.Index), 10))
		}
	}
}

var leafName = func() map[ast.Instruction]string {
	m := map[ast.Instruction]string{}
	for name, o := range ops {
		if o.leaf != nil {
			m[o.leaf] = name
		}
	}
	return m
}()

// end closes a plain block, repeating its label or not.
func (p *printer) end(word string, name types.Option[string]) {
	p.put(word)
	if name != nil && p.plain() {
		p.id(name)
	}
}

// open writes an instruction without its parentheses.
func (p *printer) open(i ast.Instruction, plain bool) {
	switch x := i.(type) {
	case ast.Br:
		p.index("br", x.Index)
	case ast.BrIf:
		p.index("br_if", x.Index)
	case ast.BrTable:
		p.index("br_table", x.Indicies...)
	case ast.Call:
		p.index("call", x.Index)
	case ast.LocalGet:
		p.index("local.get", x.Index)
	case ast.LocalSet:
		p.index("local.set", x.Index)
	case ast.LocalTee:
		p.index("local.tee", x.Index)
	case ast.GlobalGet:
		p.index("global.get", x.Index)
	case ast.GlobalSet:
		p.index("global.set", x.Index)
	case ast.I32Const:
		p.put("i32.const", strconv.FormatInt(int64(x.Value), 10))
	case ast.I64Const:
		p.put("i64.const", strconv.FormatInt(x.Value, 10))
	case ast.F32Const:
		p.put("f32.const", strconv.FormatFloat(float64(x.Value), 'g', -1, 32))
	case ast.F64Const:
		p.put("f64.const", strconv.FormatFloat(x.Value, 'g', -1, 64))
	case ast.CallIndirect:
		p.put("call_indirect", "(", "type", x.Type.Index, ")")
	case ast.Block:
		p.put("block")
		p.id(x.Name)
		p.results(x.BlockType.Results)
		p.seq(x.Instructions)
		if plain {
			p.end("end", x.Name)
		}
	case ast.Loop:
		p.put("loop")
		p.id(x.Name)
		p.results(x.BlockType.Results)
		p.seq(x.Instructions)
		if plain {
			p.end("end", x.Name)
		}
	case ast.If:
		p.put("if")
		p.id(x.Name)
		p.results(x.BlockType.Results)
		var els *ast.Else
		if x.Else != nil {
			if e, ok := x.Else.Deconstruct(); ok {
				els = &e
			}
		}
		if plain {
			p.seq(x.Then.Instructions)
			if els != nil {
				p.end("else", x.Name)
				p.seq(els.Instructions)
			}
			p.end("end", x.Name)
			return
		}
		for _, c := range x.Clause {
			p.folded(c)
		}
		p.put("(", "then")
		p.seq(x.Then.Instructions)
		p.put(")")
		if els != nil {
			p.put("(", "else")
			p.seq(els.Instructions)
			p.put(")")
		}
	default:
		p.put(leafName[i])
	}
}

// trees enumerates instructions by number of nodes.
type trees struct {
	leaves []ast.Instruction
	inst   [][]ast.Instruction
	seq    [][][]ast.Instruction
}

func newTrees(leaves []ast.Instruction, n int) *trees {
	t := &trees{leaves: leaves, inst: make([][]ast.Instruction, n+1), seq: make([][][]ast.Instruction, n+1)}
	t.seq[0] = [][]ast.Instruction{nil}
	for k := 1; k <= n; k++ {
		t.inst[k] = t.make(k)
		for f := 1; f <= k; f++ {
			for _, a := range t.inst[f] {
				for _, rest := range t.seq[k-f] {
					t.seq[k] = append(t.seq[k], append([]ast.Instruction{a}, rest...))
				}
			}
		}
	}
	return t
}

func (t *trees) make(n int) []ast.Instruction {
	if n == 1 {
		out := append([]ast.Instruction{}, t.leaves...)
		return append(out, ast.Block{}, ast.Loop{Name: option.Some("$l")}, ast.If{})
	}
	var out []ast.Instruction
	for _, body := range t.seq[n-1] {
		for _, l := range t.leaves {
			out = append(out, ast.Folded{Instruction: l, Parameters: body})
		}
		out = append(out,
			ast.Block{Name: option.Some("$b"), Instructions: body},
			ast.Loop{BlockType: ast.BlockType{Results: []ast.Result{{Types: []ast.ValType{ast.I32{}}}}}, Instructions: body})
	}
	// if: condition, then and else share the nodes
	for c := 0; c < n; c++ {
		for _, clause := range t.seq[c] {
			for th := 0; th <= n-1-c; th++ {
				for _, then := range t.seq[th] {
					if c+th == n-1 {
						out = append(out, ast.If{Clause: clause, Then: ast.Then{Instructions: then}})
					}
					for _, els := range t.seq[n-1-c-th] {
						out = append(out, ast.If{Name: option.Some("$i"), Clause: clause, Then: ast.Then{Instructions: then}, Else: option.Some(ast.Else{Instructions: els})})
					}
				}
			}
		}
	}
	return out
}
