package main

import (
	"strconv"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-wasm/wit/ast"
)

// printer writes a tree as tokens; bits decide about trailing commas.
type printer struct {
	out  []string
	bits uint64
	used int
}

func (p *printer) put(s ...string) { p.out = append(p.out, s...) }

func (p *printer) flip() bool {
	b := p.bits>>p.used&1 == 1
	p.used++
	return b
}

func some[T any](o types.Option[T]) (v T, ok bool) {
	if o == nil {
		return v, false
	}
	return o.Deconstruct()
}

func (p *printer) document(a *ast.Ast) {
	if d, ok := some(a.PackageDeclaration); ok {
		p.put("package", d.Namespace, ":", d.Name)
		p.version(d.Version)
		p.put(";")
	}
	for _, it := range a.Items {
		switch {
		case it.Use != nil:
			p.put("use")
			p.path(it.Use.Item)
			if as, ok := some(it.Use.As); ok {
				p.put("as", as)
			}
			p.put(";")
		case it.Interface != nil:
			p.put("interface", it.Interface.Name)
			p.interfaceItems(it.Interface.Items)
		case it.World != nil:
			p.put("world", it.World.Id, "{")
			for _, x := range it.World.Items {
				p.worldItem(x)
			}
			p.put("}")
		}
	}
}

func num(n uint64) string { return strconv.FormatUint(n, 10) }

func (p *printer) version(o types.Option[ast.Version]) {
	if v, ok := some(o); ok {
		p.put("@", num(v.Major), ".", num(v.Minor), ".", num(v.Patch))
	}
}

func (p *printer) path(u *ast.UsePath) {
	if u.Package.Id == nil {
		p.put(u.Id)
		return
	}
	p.put(u.Package.Id.Namespace, ":", u.Package.Id.Name, "/", u.Package.Name)
	p.version(u.Package.Id.Version)
}

func (p *printer) interfaceItems(items []ast.InterfaceItem) {
	p.put("{")
	for _, x := range items {
		switch x := x.(type) {
		case *ast.FuncItem:
			p.funcItem(x)
		case *ast.Use:
			p.use(x)
		default:
			p.typedef(x)
		}
	}
	p.put("}")
}

func (p *printer) funcItem(x *ast.FuncItem) {
	p.put(x.ID, ":")
	p.funcType(x.FuncType)
	p.put(";")
}

func (p *printer) funcType(f *ast.FuncType) {
	p.put("func")
	p.params(f.Params)
	if f.Results == nil {
		return
	}
	if f.Results.Anonymous != nil {
		p.put("->")
		p.ty(f.Results.Anonymous)
	} else if len(f.Results.Named) > 0 {
		p.put("->")
		p.params(f.Results.Named)
	}
}

func (p *printer) params(ps []ast.Parameter) {
	p.put("(")
	for i, x := range ps {
		if i > 0 {
			p.put(",")
		}
		p.put(x.Id, ":")
		p.ty(x.Type)
	}
	p.put(")")
}

func (p *printer) use(u *ast.Use) {
	p.put("use")
	p.path(u.From)
	p.put(".", "{")
	for i, n := range u.Names {
		p.put(n.Name)
		if as, ok := some(n.As); ok {
			p.put("as", as)
		}
		p.comma(i, len(u.Names))
	}
	p.put("}", ";")
}

// comma follows the ith of n items.
func (p *printer) comma(i, n int) {
	if i+1 < n || p.flip() {
		p.put(",")
	}
}

func (p *printer) typedef(x any) {
	switch x := x.(type) {
	case *ast.TypeItem:
		p.put("type", x.ID, "=")
		p.ty(x.Type)
		p.put(";")
	case *ast.Record:
		p.put("record", x.ID, "{")
		for i, f := range x.Fields {
			p.put(f.Name, ":")
			p.ty(f.Type)
			p.comma(i, len(x.Fields))
		}
		p.put("}")
	case *ast.Flags:
		p.put("flags", x.ID, "{")
		for i, f := range x.Flags {
			p.put(f.Id)
			p.comma(i, len(x.Flags))
		}
		p.put("}")
	case *ast.Enum:
		p.put("enum", x.ID, "{")
		for i, c := range x.Cases {
			p.put(c.Name)
			p.comma(i, len(x.Cases))
		}
		p.put("}")
	case *ast.Variant:
		p.put("variant", x.ID, "{")
		for i, c := range x.Cases {
			p.put(c.Name)
			if t, ok := some(c.Type); ok {
				p.put("(")
				p.ty(t)
				p.put(")")
			}
			p.comma(i, len(x.Cases))
		}
		p.put("}")
	case *ast.Resource:
		p.put("resource", x.ID)
		if len(x.Methods) == 0 && p.flip() {
			p.put(";")
			return
		}
		p.put("{")
		for _, m := range x.Methods {
			switch m := m.(type) {
			case *ast.Constructor:
				p.put("constructor")
				p.params(m.ParameterList)
				p.put(";")
			case ast.Static:
				p.put(m.ID, ":", "static")
				p.funcType(m.FuncType)
				p.put(";")
			case ast.Method:
				p.funcItem(m.Func)
			}
		}
		p.put("}")
	default:
		panic("typedef")
	}
}

func (p *printer) worldItem(x ast.WorldItem) {
	switch x := x.(type) {
	case *ast.Import:
		p.put("import")
		p.extern(x.ExternType)
	case *ast.Export:
		p.put("export")
		p.extern(x.ExternType)
	case *ast.Use:
		p.use(x)
	case *ast.Include:
		p.put("include")
		p.path(x.From)
		if len(x.Names) == 0 {
			p.put(";")
			return
		}
		p.put("with", "{")
		for i, n := range x.Names {
			if i > 0 {
				p.put(",")
			}
			p.put(n.Name, "as", n.As)
		}
		p.put("}")
	default:
		p.typedef(x)
	}
}

func (p *printer) extern(x ast.ExternType) {
	switch x := x.(type) {
	case *ast.ExternTypeFunc:
		p.put(x.ID, ":")
		p.funcType(x.Func)
		p.put(";")
	case *ast.ExternTypeInterface:
		p.put(x.ID, ":", "interface")
		p.interfaceItems(x.InterfaceItems)
	case *ast.ExternTypeUsePath:
		p.path(x.UsePath)
		p.put(";")
	}
}

func (p *printer) two(name string, a, b types.Option[ast.Type]) {
	p.put(name)
	x, okA := some(a)
	y, okB := some(b)
	if !okA && !okB {
		return
	}
	p.put("<")
	if okA {
		p.ty(x)
	} else {
		p.put("_")
	}
	if okB {
		p.put(",")
		p.ty(y)
	}
	p.put(">")
}

func (p *printer) ty(t ast.Type) {
	switch t := t.(type) {
	case *ast.Id:
		p.put(t.Value)
	case *ast.List:
		p.put("list", "<")
		p.ty(t.ItemType)
		p.put(">")
	case *ast.Option:
		p.put("option", "<")
		p.ty(t.ItemType)
		p.put(">")
	case *ast.Future:
		p.put("future")
		if x, ok := some(t.ItemType); ok {
			p.put("<")
			p.ty(x)
			p.put(">")
		}
	case *ast.Result:
		p.two("result", t.Ok, t.Error)
	case *ast.Stream:
		p.two("stream", t.Element, t.End)
	case *ast.Tuple:
		p.put("tuple", "<")
		for i, x := range t.Types {
			p.ty(x)
			p.comma(i, len(t.Types))
		}
		p.put(">")
	case *ast.Own:
		p.put("own", "<", t.Id, ">")
	case *ast.Borrow:
		p.put("borrow", "<", t.Id, ">")
	default:
		for k, v := range primitive {
			if sameType(v, t) {
				p.put(string(k))
				return
			}
		}
		panic("type")
	}
}

func sameType(a, b ast.Type) bool { return dump(a) == dump(b) }

func o(t ast.Type) types.Option[ast.Type] { return option.Some(t) }

// typesBySize enumerates types by number of nodes.
func typesBySize(leaves []ast.Type, n int) [][]ast.Type {
	by := make([][]ast.Type, n+1)
	by[1] = leaves
	for k := 2; k <= n; k++ {
		var out []ast.Type
		for _, t := range by[k-1] {
			out = append(out, &ast.List{ItemType: t}, &ast.Option{ItemType: t}, &ast.Future{ItemType: o(t)},
				&ast.Result{Ok: o(t)}, &ast.Result{Error: o(t)}, &ast.Stream{Element: o(t)}, &ast.Stream{End: o(t)}, &ast.Tuple{Types: []ast.Type{t}})
		}
		for i := 1; i < k-1; i++ {
			for _, a := range by[i] {
				for _, b := range by[k-1-i] {
					out = append(out, &ast.Result{Ok: o(a), Error: o(b)}, &ast.Stream{Element: o(a), End: o(b)}, &ast.Tuple{Types: []ast.Type{a, b}})
				}
				for j := 1; i+j < k-1; j++ {
					for _, b := range by[j] {
						for _, c := range by[k-1-i-j] {
							out = append(out, &ast.Tuple{Types: []ast.Type{a, b, c}})
						}
					}
				}
			}
		}
		by[k] = out
	}
	return by
}

func allLeaves() []ast.Type {
	var out []ast.Type
	for _, k := range keywordList() {
		if t, ok := primitive[keywords[k]]; ok {
			out = append(out, t)
		}
	}
	return append(out, &ast.Id{Value: "t"}, &ast.Own{Id: "r"}, &ast.Borrow{Id: "r"}, &ast.Result{}, &ast.Future{}, &ast.Stream{})
}
