package main

import (
	"math"
	"strings"
	"unicode/utf8"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/token"
)

// The reference parser: recursive descent over the supported part of the text format, written from
// the grammar of the specification. It stops with reject where the text is malformed and with either
// where the full grammar may allow what the supported part lacks.

type rejected struct{}
type either struct{}

type refParser struct {
	s    string
	toks []rtok
	i    int
	line int
}

func (p *refParser) reject() { panic(rejected{}) }
func (p *refParser) either() { panic(either{}) }

// peekN returns the nth token ahead, reading tokens only as far as needed.
func (p *refParser) peekN(n int) rtok {
	for len(p.toks) <= p.i+n {
		if k := len(p.toks); k > 0 && p.toks[k-1].kind == token.EndOfStream {
			return p.toks[k-1]
		}
		pos := 0
		if k := len(p.toks); k > 0 {
			pos = p.toks[k-1].pos + len(p.toks[k-1].text)
		}
		for {
			if pos == len(p.s) {
				p.toks = append(p.toks, rtok{kind: token.EndOfStream, pos: pos})
				break
			}
			l, k, st := scan(p.s[pos:])
			if st == broken {
				p.reject()
			}
			if st == open {
				p.either()
			}
			if k != token.Whitespace && k != token.LineComment && k != token.BlockComment {
				p.toks = append(p.toks, rtok{kind: k, text: p.s[pos : pos+l], pos: pos})
				break
			}
			pos += l
		}
	}
	return p.toks[p.i+n]
}

func (p *refParser) peek() rtok { return p.peekN(0) }

func (p *refParser) next() rtok {
	t := p.peek()
	if t.kind != token.EndOfStream {
		p.i++
	}
	return t
}

func (p *refParser) expect(text string) {
	if p.next().text != text {
		p.reject()
	}
}

// at reports whether the next two tokens are a parenthesis and the keyword.
func (p *refParser) at(keyword string) bool {
	return p.peek().text == "(" && p.peekN(1).text == keyword
}

func (p *refParser) enter(keyword string) bool {
	if !p.at(keyword) {
		return false
	}
	p.next()
	p.next()
	return true
}

func (p *refParser) id() types.Option[string] {
	if p.peek().kind == token.Id {
		return option.Some(p.next().text)
	}
	return option.None[string]()
}

func (p *refParser) str() string {
	t := p.next()
	if t.kind != token.String {
		p.reject()
	}
	return p.unquote(t.text)
}

func (p *refParser) unquote(s string) string {
	s = s[1 : len(s)-1]
	var out []byte
	for i := 0; i < len(s); {
		if s[i] != '\\' {
			out = append(out, s[i])
			i++
			continue
		}
		n, ok := escape(s[i:])
		if !ok {
			p.either()
		}
		switch c := s[i+1]; {
		case n == 2 && c == 't':
			out = append(out, 9)
		case n == 2 && c == 'n':
			out = append(out, 10)
		case n == 2 && c == 'r':
			out = append(out, 13)
		case n == 2:
			out = append(out, c)
		case c == 'u':
			v := rune(0)
			for _, d := range []byte(s[i+3 : i+n-1]) {
				if d != '_' {
					v = v*16 + rune(hexVal(d))
				}
			}
			out = append(out, string(v)...)
		default:
			out = append(out, byte(hexVal(s[i+1])<<4|hexVal(s[i+2])))
		}
		i += n
	}
	return string(out)
}

// name is a string that has to be well-formed.
func (p *refParser) name() string {
	s := p.str()
	if !utf8.ValidString(s) {
		p.either()
	}
	return s
}

func (p *refParser) directive() ast.Directive {
	p.expect("(")
	switch p.next().text {
	case "module":
		if p.peek().kind == token.Id {
			p.either()
		}
		m := p.module()
		p.expect(")")
		return m
	case "component":
		if p.next().text != ")" {
			p.either()
		}
		return &ast.Component{}
	}
	p.reject()
	return nil
}

func (p *refParser) module() *ast.Module {
	m := &ast.Module{}
	for p.peek().text == "(" {
		p.next()
		switch p.next().text {
		case "func":
			m.Functions = append(m.Functions, p.function())
		case "type":
			id := p.id()
			if !p.enter("func") {
				p.reject()
			}
			t := ast.Type{ID: id, FuncType: ast.FuncType{Parameters: p.params(), Results: p.results()}}
			p.expect(")")
			m.Types = append(m.Types, t)
		case "table":
			m.Tables = append(m.Tables, p.table())
		case "memory":
			id := p.id()
			if p.peek().text == "(" {
				p.either()
			}
			m.Memory = append(m.Memory, ast.Memory{ID: id, Limits: p.limits()})
		case "global":
			g := ast.Global{ID: p.id()}
			if p.at("export") || p.at("import") {
				p.either()
			}
			if p.enter("mut") {
				g.Type = ast.GlobalType{Mutable: true, Type: p.valType()}
				p.expect(")")
			} else {
				g.Type.Type = p.valType()
			}
			g.Instructions = p.instrs()
			m.Globals = append(m.Globals, g)
		case "import", "export", "start", "elem", "data", "rec", "tag":
			p.either()
		default:
			p.reject()
		}
		p.expect(")")
	}
	return m
}

func (p *refParser) function() ast.Function {
	f := ast.Function{ID: p.id()}
	for p.enter("export") {
		f.Exports = append(f.Exports, ast.InlineExport{Name: p.name()})
		p.expect(")")
	}
	imported := p.enter("import")
	if imported {
		f.Imports = append(f.Imports, ast.InlineImport{Module: p.name(), Field: p.name()})
		p.expect(")")
	}
	if p.at("type") {
		p.either()
	}
	f.Parameters = p.params()
	f.Results = p.results()
	if imported {
		return f
	}
	for p.enter("local") {
		if id := p.id(); id.IsSome() {
			f.Locals = append(f.Locals, ast.Local{ID: id, Type: p.valType()})
		} else {
			for _, t := range p.valTypes() {
				f.Locals = append(f.Locals, ast.Local{Type: t})
			}
		}
		p.expect(")")
	}
	f.Instructions = p.instrs()
	return f
}

func (p *refParser) params() []ast.Parameter {
	var out []ast.Parameter
	for p.enter("param") {
		x := ast.Parameter{ID: p.id()}
		if x.ID.IsSome() {
			x.Types = []ast.ValType{p.valType()}
		} else {
			x.Types = p.valTypes()
		}
		p.expect(")")
		out = append(out, x)
	}
	return out
}

func (p *refParser) results() []ast.Result {
	var out []ast.Result
	for p.enter("result") {
		out = append(out, ast.Result{Types: p.valTypes()})
		p.expect(")")
	}
	return out
}

func (p *refParser) valTypes() []ast.ValType {
	var out []ast.ValType
	for p.peek().text != ")" {
		out = append(out, p.valType())
	}
	return out
}

func (p *refParser) valType() ast.ValType {
	switch p.next().text {
	case "i32":
		return ast.I32{}
	case "i64":
		return ast.I64{}
	case "f32":
		return ast.F32{}
	case "f64":
		return ast.F64{}
	case "funcref", "externref", "v128":
		p.either()
	}
	p.reject()
	return nil
}

func (p *refParser) limits() ast.Limits {
	l := ast.Limits{Min: p.uint(p.next())}
	if p.peek().kind == token.Integer {
		l.Max = option.Some(p.uint(p.next()))
	}
	return l
}

func (p *refParser) uint(t rtok) uint32 {
	if t.kind != token.Integer {
		p.reject()
	}
	w := refUint(t.text)
	if !w.ok {
		p.reject()
	}
	return uint32(w.bits)
}

func (p *refParser) table() ast.Table {
	t := ast.Table{ID: p.id()}
	if p.at("export") || p.at("import") {
		p.either()
	}
	limits := p.peek().kind == token.Integer
	if limits {
		t.TableType.Limits = p.limits()
	}
	switch p.next().text {
	case "funcref":
		t.TableType.RefType = ast.FuncRef{}
	case "externref":
		t.TableType.RefType = ast.ExternRef{}
	default:
		p.reject()
	}
	if limits {
		// later versions allow an initial value here
		if n := p.peek(); n.kind == token.Reserved && known(n.text) || n.text == "(" && known(p.peekN(1).text) {
			p.either()
		}
		return t
	}
	if !p.enter("elem") {
		p.reject()
	}
	for p.peek().kind == token.Id {
		t.Elements = append(t.Elements, ast.Element{ID: p.next().text})
	}
	if n := p.peek(); n.kind == token.Integer || n.text == "(" {
		p.either()
	}
	p.expect(")")
	return t
}

// operand kinds
const (
	opNone = iota
	opIndex
	opIndices
	opI32
	opI64
	opF32
	opF64
	opMem
	opSelect
	opIndirect
	opBlock
	opLoop
	opIf
)

type opInfo struct {
	kind int
	leaf ast.Instruction
}

var ops = map[string]opInfo{
	"br": {kind: opIndex}, "br_if": {kind: opIndex}, "br_table": {kind: opIndices}, "call": {kind: opIndex},
	"local.get": {kind: opIndex}, "local.set": {kind: opIndex}, "local.tee": {kind: opIndex},
	"global.get": {kind: opIndex}, "global.set": {kind: opIndex},
	"return": {opNone, ast.Return{}}, "drop": {opNone, ast.Drop{}}, "select": {opSelect, ast.Select{}},
	"memory.grow": {opMem, ast.MemoryGrow{}}, "i32.load": {opMem, ast.I32Load{}}, "i32.store": {opMem, ast.I32Store{}},
	"i32.const": {kind: opI32}, "i64.const": {kind: opI64}, "f32.const": {kind: opF32}, "f64.const": {kind: opF64},
	"f32.add": {opNone, ast.F32Add{}}, "f32.sub": {opNone, ast.F32Sub{}}, "f32.mul": {opNone, ast.F32Mul{}}, "f32.div": {opNone, ast.F32Div{}},
	"f32.sqrt": {opNone, ast.F32Sqrt{}}, "f32.min": {opNone, ast.F32Min{}}, "f32.max": {opNone, ast.F32Max{}}, "f32.ceil": {opNone, ast.F32Ceil{}},
	"f32.floor": {opNone, ast.F32Floor{}}, "f32.trunc": {opNone, ast.F32Trunc{}}, "f32.nearest": {opNone, ast.F32Nearest{}},
	"i32.add": {opNone, ast.I32Add{}}, "i32.sub": {opNone, ast.I32Sub{}}, "i32.mul": {opNone, ast.I32Mul{}}, "i32.div_s": {opNone, ast.I32DivS{}},
	"i32.div_u": {opNone, ast.I32DivU{}}, "i32.rem_s": {opNone, ast.I32RemS{}}, "i32.rem_u": {opNone, ast.I32RemU{}}, "i32.and": {opNone, ast.I32And{}},
	"i32.or": {opNone, ast.I32Or{}}, "i32.xor": {opNone, ast.I32Xor{}}, "i32.shl": {opNone, ast.I32Shl{}}, "i32.shr_s": {opNone, ast.I32ShrS{}},
	"i32.shr_u": {opNone, ast.I32ShrU{}}, "i32.rotl": {opNone, ast.I32Rotl{}}, "i32.rotr": {opNone, ast.I32Rotr{}}, "i32.clz": {opNone, ast.I32Clz{}},
	"i32.ctz": {opNone, ast.I32Ctz{}}, "i32.popcnt": {opNone, ast.I32Popcnt{}}, "i32.extend8_s": {opNone, ast.I32Extend8S{}}, "i32.extend16_s": {opNone, ast.I32Extend16S{}},
	"i32.eqz": {opNone, ast.I32Eqz{}}, "i32.eq": {opNone, ast.I32Eq{}}, "i32.ne": {opNone, ast.I32Ne{}}, "i32.lt_s": {opNone, ast.I32LtS{}},
	"i32.lt_u": {opNone, ast.I32LtU{}}, "i32.le_s": {opNone, ast.I32LeS{}}, "i32.le_u": {opNone, ast.I32LeU{}}, "i32.gt_s": {opNone, ast.I32GtS{}},
	"i32.gt_u": {opNone, ast.I32GtU{}}, "i32.ge_s": {opNone, ast.I32GeS{}}, "i32.ge_u": {opNone, ast.I32GeU{}},
	"block": {kind: opBlock}, "loop": {kind: opLoop}, "if": {kind: opIf}, "call_indirect": {kind: opIndirect},
}

func known(op string) bool { _, ok := ops[op]; return ok }

// instrs reads instructions up to a token that cannot begin one.
func (p *refParser) instrs() []ast.Instruction {
	var out []ast.Instruction
	for {
		t := p.peek()
		switch {
		case t.text == "(":
			out = append(out, p.folded())
		case t.kind == token.Reserved && t.text != "end" && t.text != "else":
			out = append(out, p.plain())
		default:
			return out
		}
	}
}

func (p *refParser) folded() ast.Instruction {
	p.expect("(")
	t := p.peek().text
	switch ops[t].kind {
	case opBlock, opLoop:
		p.next()
		i := p.block(t)
		p.expect(")")
		return i
	case opIf:
		p.next()
		i := ast.If{Name: p.id(), BlockType: p.blockType()}
		for p.peek().text == "(" && p.peekN(1).text != "then" {
			i.Clause = append(i.Clause, p.folded())
		}
		if !p.enter("then") {
			p.reject()
		}
		i.Then.Instructions = p.instrs()
		p.expect(")")
		if p.enter("else") {
			i.Else = option.Some(ast.Else{Instructions: p.instrs()})
			p.expect(")")
		}
		p.expect(")")
		return i
	}
	i := p.plain()
	var params []ast.Instruction
	for p.peek().text == "(" {
		params = append(params, p.folded())
	}
	p.expect(")")
	if len(params) > 0 {
		return ast.Folded{Instruction: i, Parameters: params}
	}
	return i
}

func (p *refParser) block(op string) ast.Instruction {
	name, ty := p.id(), p.blockType()
	body := p.instrs()
	if op == "loop" {
		return ast.Loop{Name: name, BlockType: ty, Instructions: body}
	}
	return ast.Block{Name: name, BlockType: ty, Instructions: body}
}

func (p *refParser) blockType() ast.BlockType {
	if p.at("type") || p.at("param") {
		p.either()
	}
	return ast.BlockType{Results: p.results()}
}

// label reads the optional repetition of a label.
func (p *refParser) label(name types.Option[string]) {
	if p.peek().kind == token.Id {
		if n, ok := name.Deconstruct(); !ok || n != p.next().text {
			p.reject()
		}
	}
}

func (p *refParser) plain() ast.Instruction {
	t := p.next()
	op, ok := ops[t.text]
	if !ok {
		p.reject()
	}
	switch op.kind {
	case opMem:
		if n := p.peek(); n.kind == token.Integer || n.kind == token.Id || strings.HasPrefix(n.text, "offset=") || strings.HasPrefix(n.text, "align=") {
			p.either()
		}
	case opSelect:
		if p.at("result") {
			p.either()
		}
	case opIndex:
		x := p.index()
		switch t.text {
		case "br":
			return ast.Br{Index: x}
		case "br_if":
			return ast.BrIf{Index: x}
		case "call":
			return ast.Call{Index: x}
		case "local.get":
			return ast.LocalGet{Index: x}
		case "local.set":
			return ast.LocalSet{Index: x}
		case "local.tee":
			return ast.LocalTee{Index: x}
		case "global.get":
			return ast.GlobalGet{Index: x}
		}
		return ast.GlobalSet{Index: x}
	case opIndices:
		b := ast.BrTable{Indicies: []ast.Index{p.index()}}
		for n := p.peek(); n.kind == token.Integer || n.kind == token.Id; n = p.peek() {
			b.Indicies = append(b.Indicies, p.index())
		}
		return b
	case opI32:
		return ast.I32Const{Value: int32(p.num(i32))}
	case opI64:
		return ast.I64Const{Value: int64(p.num(i64))}
	case opF32:
		return ast.F32Const{Value: math.Float32frombits(uint32(p.num(f32)))}
	case opF64:
		return ast.F64Const{Value: math.Float64frombits(p.num(f64))}
	case opIndirect:
		if !p.enter("type") {
			p.either() // the type can be left out or follow a table
		}
		if p.peek().kind == token.Integer {
			p.either()
		}
		id, ok := p.id().Deconstruct()
		if !ok {
			p.reject()
		}
		p.expect(")")
		if p.at("param") || p.at("result") {
			p.either()
		}
		return ast.CallIndirect{Type: ast.TypeUse{Index: id}}
	case opBlock, opLoop:
		i := p.block(t.text)
		p.expect("end")
		switch b := i.(type) {
		case ast.Block:
			p.label(b.Name)
		case ast.Loop:
			p.label(b.Name)
		}
		return i
	case opIf:
		i := ast.If{Name: p.id(), BlockType: p.blockType()}
		i.Then.Instructions = p.instrs()
		if p.peek().text == "else" {
			p.next()
			p.label(i.Name)
			i.Else = option.Some(ast.Else{Instructions: p.instrs()})
		}
		p.expect("end")
		p.label(i.Name)
		return i
	}
	return op.leaf
}

func (p *refParser) index() ast.Index {
	t := p.next()
	if t.kind == token.Id {
		return ast.IDIndex{ID: t.text}
	}
	return ast.RawIndex{Index: p.uint(t)}
}

func (p *refParser) num(ref func(string) want) uint64 {
	t := p.next()
	w := ref(t.text)
	if w.anyNaN {
		p.either()
	}
	if !w.ok {
		p.reject()
	}
	return w.bits
}

type verdict int

const (
	accept verdict = iota
	refuse
	undecided
)

// refDirective parses the module at the start of s. whole tells whether nothing follows it.
func refDirective(s string) (d ast.Directive, v verdict, whole verdict) {
	p := &refParser{s: s}
	v = p.try(func() { d = p.directive() })
	if v != accept {
		return nil, v, v
	}
	whole = p.try(func() {
		if p.next().kind != token.EndOfStream {
			p.reject()
		}
	})
	return d, v, whole
}

func (p *refParser) try(f func()) (v verdict) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case rejected:
			v = refuse
		case either:
			v = undecided
		default:
			panic(r)
		}
	}()
	f()
	return accept
}
