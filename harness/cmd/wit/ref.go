package main

import (
	"math/big"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/token"
)

type verdict int

const (
	accept verdict = iota
	refuse
	undecided // legal or illegal, but outside what is settled; only holes are looked for
	either    // may be refused; if accepted, the tree is determined
)

type stop struct{ v verdict }

// refParser is the reference parser, over the significant tokens of a text.
type refParser struct {
	toks   []rtok
	i      int
	either bool
}

func refParse(s string) (*ast.Ast, verdict) {
	all, st := tokenize(s)
	switch st {
	case broken:
		return nil, refuse
	case open:
		return nil, undecided
	}
	p := &refParser{}
	for _, t := range all {
		switch t.kind {
		case token.Whitespace, token.LineComment, token.BlockComment:
		default:
			p.toks = append(p.toks, t)
		}
	}
	var a *ast.Ast
	v := p.try(func() { a = p.document() })
	if v == accept && p.either {
		v = either
	}
	return a, v
}

func (p *refParser) try(f func()) (v verdict) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stop)
			if !ok {
				panic(r)
			}
			v = s.v
		}
	}()
	f()
	return accept
}

func (p *refParser) peek() token.TokenType { return p.toks[p.i].kind }

func (p *refParser) fail() { panic(stop{refuse}) }

func (p *refParser) has(k token.TokenType) bool {
	if p.peek() != k {
		return false
	}
	if k != token.EndOfStream {
		p.i++
	}
	return true
}

func (p *refParser) want(k token.TokenType) string {
	if p.peek() != k {
		p.fail()
	}
	p.i++
	return p.toks[p.i-1].text
}

func (p *refParser) id() string {
	if p.peek() == token.ExplicitId {
		return p.want(token.ExplicitId)[1:]
	}
	return p.want(token.Id)
}

// list reads comma separated items up to the closing token. A trailing comma is fine if trailing is set.
func (p *refParser) list(end token.TokenType, trailing, empty bool, item func()) {
	n := 0
	for !p.has(end) {
		item()
		n++
		if p.has(end) {
			return
		}
		p.want(token.Comma)
		if p.peek() == end && !trailing {
			p.either = true
		}
	}
	if n == 0 && !empty {
		p.either = true
	}
}

func (p *refParser) document() *ast.Ast {
	a := &ast.Ast{}
	if p.has(token.Package) {
		d := ast.PackageDeclaration{Namespace: p.id()}
		p.want(token.Colon)
		d.Name = p.id()
		d.Version = p.version()
		p.want(token.Semicolon)
		a.PackageDeclaration = option.Some(d)
	}
	for !p.has(token.EndOfStream) {
		var it ast.AstItem
		switch {
		case p.has(token.Use):
			u := &ast.TopLevelUse{Item: p.path()}
			if p.has(token.As) {
				u.As = option.Some(p.id())
			}
			p.want(token.Semicolon)
			it.Use = u
		case p.has(token.Interface):
			it.Interface = &ast.Interface{Name: p.id(), Items: p.interfaceItems()}
		case p.has(token.World):
			it.World = &ast.World{Id: p.id(), Items: p.worldItems()}
		default:
			p.fail()
		}
		a.Items = append(a.Items, it)
	}
	return a
}

func (p *refParser) version() types.Option[ast.Version] {
	if !p.has(token.At) {
		return nil
	}
	num := func() uint64 {
		s := p.want(token.Integer)
		if len(s) > 1 && s[0] == '0' {
			p.either = true // not a semantic version
		}
		n, _ := new(big.Int).SetString(s, 10)
		if !n.IsUint64() {
			p.fail()
		}
		return n.Uint64()
	}
	v := ast.Version{Major: num()}
	p.want(token.Period)
	v.Minor = num()
	p.want(token.Period)
	v.Patch = num()
	if k := p.peek(); k == token.Minus || k == token.Plus {
		panic(stop{undecided})
	}
	return option.Some(v)
}

func (p *refParser) path() *ast.UsePath {
	u := &ast.UsePath{}
	id := p.id()
	if !p.has(token.Colon) {
		u.Id = id
		return u
	}
	d := &ast.PackageDeclaration{Namespace: id, Name: p.id()}
	p.want(token.Slash)
	u.Package.Name = p.id()
	d.Version = p.version()
	u.Package.Id = d
	return u
}

func (p *refParser) interfaceItems() []ast.InterfaceItem {
	var out []ast.InterfaceItem
	p.want(token.OpenBrace)
	for !p.has(token.CloseBrace) {
		switch k := p.peek(); {
		case k == token.Use:
			out = append(out, p.use())
		case k == token.Id || k == token.ExplicitId:
			out = append(out, p.funcItem())
		default:
			out = append(out, p.typedef())
		}
	}
	return out
}

func (p *refParser) funcItem() *ast.FuncItem {
	f := &ast.FuncItem{ID: p.id()}
	p.want(token.Colon)
	f.FuncType = p.funcType()
	p.want(token.Semicolon)
	return f
}

func (p *refParser) funcType() *ast.FuncType {
	p.want(token.Func)
	f := &ast.FuncType{Params: p.params(), Results: &ast.ResultList{}}
	if p.has(token.RightArrow) {
		if p.peek() == token.OpenParen {
			f.Results.Named = p.params()
			if len(f.Results.Named) == 0 {
				p.either = true
			}
		} else {
			f.Results.Anonymous = p.ty()
		}
	}
	return f
}

func (p *refParser) params() []ast.Parameter {
	var out []ast.Parameter
	p.want(token.OpenParen)
	p.list(token.CloseParen, false, true, func() {
		x := ast.Parameter{Id: p.id()}
		p.want(token.Colon)
		x.Type = p.ty()
		out = append(out, x)
	})
	return out
}

func (p *refParser) use() *ast.Use {
	p.want(token.Use)
	u := &ast.Use{From: p.path()}
	p.want(token.Period)
	p.want(token.OpenBrace)
	p.list(token.CloseBrace, true, false, func() {
		n := ast.UseName{Name: p.id()}
		if p.has(token.As) {
			n.As = option.Some(p.id())
		}
		u.Names = append(u.Names, n)
	})
	p.want(token.Semicolon)
	return u
}

func (p *refParser) typedef() ast.TypeDef {
	switch {
	case p.has(token.Type):
		t := &ast.TypeItem{ID: p.id()}
		p.want(token.Equal)
		t.Type = p.ty()
		p.want(token.Semicolon)
		return t
	case p.has(token.Record):
		r := &ast.Record{ID: p.id()}
		p.want(token.OpenBrace)
		p.list(token.CloseBrace, true, false, func() {
			f := ast.Field{Name: p.id()}
			p.want(token.Colon)
			f.Type = p.ty()
			r.Fields = append(r.Fields, f)
		})
		return r
	case p.has(token.Flags):
		f := &ast.Flags{ID: p.id()}
		p.want(token.OpenBrace)
		p.list(token.CloseBrace, true, false, func() { f.Flags = append(f.Flags, ast.Flag{Id: p.id()}) })
		return f
	case p.has(token.Enum):
		e := &ast.Enum{ID: p.id()}
		p.want(token.OpenBrace)
		p.list(token.CloseBrace, true, false, func() { e.Cases = append(e.Cases, ast.EnumCase{Name: p.id()}) })
		return e
	case p.has(token.Variant):
		v := &ast.Variant{ID: p.id()}
		p.want(token.OpenBrace)
		p.list(token.CloseBrace, true, false, func() {
			c := ast.Case{Name: p.id()}
			if p.has(token.OpenParen) {
				c.Type = option.Some(p.ty())
				p.want(token.CloseParen)
			}
			v.Cases = append(v.Cases, c)
		})
		return v
	case p.has(token.Resource):
		r := &ast.Resource{ID: p.id()}
		if p.has(token.Semicolon) {
			return r
		}
		p.want(token.OpenBrace)
		for !p.has(token.CloseBrace) {
			if p.has(token.Constructor) {
				r.Methods = append(r.Methods, &ast.Constructor{ParameterList: p.params()})
				p.want(token.Semicolon)
				continue
			}
			id := p.id()
			p.want(token.Colon)
			if p.has(token.Static) {
				r.Methods = append(r.Methods, ast.Static{ID: id, FuncType: p.funcType()})
			} else {
				r.Methods = append(r.Methods, ast.Method{Func: &ast.FuncItem{ID: id, FuncType: p.funcType()}})
			}
			p.want(token.Semicolon)
		}
		return r
	case p.peek() == token.Union:
		panic(stop{undecided}) // gone from the language
	}
	p.fail()
	return nil
}

func (p *refParser) worldItems() []ast.WorldItem {
	var out []ast.WorldItem
	p.want(token.OpenBrace)
	for !p.has(token.CloseBrace) {
		switch k := p.peek(); k {
		case token.Import:
			p.i++
			out = append(out, &ast.Import{ExternType: p.extern()})
		case token.Export:
			p.i++
			out = append(out, &ast.Export{ExternType: p.extern()})
		case token.Use:
			out = append(out, p.use())
		case token.Include:
			p.i++
			n := &ast.Include{From: p.path()}
			if !p.has(token.With) {
				p.want(token.Semicolon)
			} else {
				p.want(token.OpenBrace)
				p.list(token.CloseBrace, false, false, func() {
					x := ast.IncludeName{Name: p.id()}
					p.want(token.As)
					x.As = p.id()
					n.Names = append(n.Names, x)
				})
				if p.has(token.Semicolon) {
					p.either = true
				}
			}
			out = append(out, n)
		default:
			out = append(out, p.typedef())
		}
	}
	return out
}

func (p *refParser) extern() ast.ExternType {
	if p.i+2 < len(p.toks) && p.toks[p.i+1].kind == token.Colon {
		switch p.toks[p.i+2].kind {
		case token.Func:
			x := &ast.ExternTypeFunc{ID: p.id()}
			p.want(token.Colon)
			x.Func = p.funcType()
			p.want(token.Semicolon)
			return x
		case token.Interface:
			x := &ast.ExternTypeInterface{ID: p.id()}
			p.i += 2
			x.InterfaceItems = p.interfaceItems()
			return x
		}
	}
	x := &ast.ExternTypeUsePath{UsePath: p.path()}
	p.want(token.Semicolon)
	return x
}

func (p *refParser) ty() ast.Type {
	k := p.peek()
	if k == token.Id || k == token.ExplicitId {
		return &ast.Id{Value: p.id()}
	}
	if mk, ok := primitive[k]; ok {
		p.i++
		return mk
	}
	p.i++
	arg := func() ast.Type {
		p.want(token.Less)
		t := p.ty()
		p.want(token.Greater)
		return t
	}
	two := func() (a, b types.Option[ast.Type]) {
		if !p.has(token.Less) {
			return
		}
		if p.has(token.Underscore) {
			p.want(token.Comma)
			b = option.Some(p.ty())
		} else {
			a = option.Some(p.ty())
			if p.has(token.Comma) {
				b = option.Some(p.ty())
			}
		}
		p.want(token.Greater)
		return
	}
	handle := func() string {
		p.want(token.Less)
		s := p.id()
		p.want(token.Greater)
		return s
	}
	switch k {
	case token.List:
		return &ast.List{ItemType: arg()}
	case token.Option:
		return &ast.Option{ItemType: arg()}
	case token.Future:
		if p.peek() != token.Less {
			return &ast.Future{}
		}
		return &ast.Future{ItemType: option.Some(arg())}
	case token.Result:
		a, b := two()
		return &ast.Result{Ok: a, Error: b}
	case token.Stream:
		a, b := two()
		return &ast.Stream{Element: a, End: b}
	case token.Tuple:
		t := &ast.Tuple{}
		p.want(token.Less)
		p.list(token.Greater, true, false, func() { t.Types = append(t.Types, p.ty()) })
		return t
	case token.Own:
		return &ast.Own{Id: handle()}
	case token.Borrow:
		return &ast.Borrow{Id: handle()}
	}
	p.fail()
	return nil
}

var primitive = map[token.TokenType]ast.Type{
	token.U8: &ast.U8{}, token.U16: &ast.U16{}, token.U32: &ast.U32{}, token.U64: &ast.U64{},
	token.S8: &ast.S8{}, token.S16: &ast.S16{}, token.S32: &ast.S32{}, token.S64: &ast.S64{},
	token.Float32: &ast.Float32{}, token.Float64: &ast.Float64{},
	token.Char: &ast.Char{}, token.Bool: &ast.Bool{}, token.String: &ast.String{},
}
