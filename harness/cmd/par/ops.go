package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/leb128"
	"github.com/patrickhuber/go-wasm/runtime"
	wastparse "github.com/patrickhuber/go-wasm/wast/parse"
	watlex "github.com/patrickhuber/go-wasm/wat/lex"
	watparse "github.com/patrickhuber/go-wasm/wat/parse"
	watoken "github.com/patrickhuber/go-wasm/wat/token"
	witlex "github.com/patrickhuber/go-wasm/wit/lex"
	witparse "github.com/patrickhuber/go-wasm/wit/parse"
	witoken "github.com/patrickhuber/go-wasm/wit/token"
)

// ---------------------------------------------------------------- dumps

// dump writes down everything a caller can see of a value.
func dump(x any) string {
	var b strings.Builder
	write(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func write(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 60 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Pointer {
			b.WriteByte('&')
		}
		write(b, v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name() + "{")
		public := 0
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				public++
			}
		}
		for i := 0; i < t.NumField(); i++ {
			if public == 0 || t.Field(i).IsExported() {
				write(b, v.Field(i), depth+1)
				b.WriteByte(' ')
			}
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			write(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var parts []string
		for it := v.MapRange(); it.Next(); {
			var p strings.Builder
			write(&p, it.Key(), depth+1)
			p.WriteByte(':')
			write(&p, it.Value(), depth+1)
			parts = append(parts, p.String())
		}
		sort.Strings(parts)
		b.WriteString("map" + fmt.Sprint(parts))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%s:%x", v.Kind(), math.Float64bits(v.Float()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Kind().String())
	default:
		if v.CanInt() {
			fmt.Fprintf(b, "%s:%d", v.Kind(), v.Int())
		} else if v.CanUint() {
			fmt.Fprintf(b, "%s:%d", v.Kind(), v.Uint())
		}
	}
}

func outcome(x any, err error) string {
	if err != nil {
		return "error"
	}
	return dump(x)
}

// ---------------------------------------------------------------- streams

// source hands out data in pieces and yields around each.
type source struct {
	data  []byte
	each  int
	yield func()
}

func (s *source) Read(p []byte) (int, error) {
	s.yield()
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := len(s.data)
	if s.each > 0 && n > s.each {
		n = s.each
	}
	n = copy(p, s.data[:n])
	s.data = s.data[n:]
	s.yield()
	return n, nil
}

// sink takes data and yields around each piece.
type sink struct {
	got   []byte
	yield func()
}

func (s *sink) Write(p []byte) (int, error) {
	s.yield()
	s.got = append(s.got, p...)
	s.yield()
	return len(p), nil
}

func section(id byte, content ...byte) []byte {
	return append([]byte{id, byte(len(content))}, content...)
}

func module(sections ...[]byte) []byte {
	out := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	for _, s := range sections {
		out = append(out, s...)
	}
	return out
}

func streamOps() []*op {
	mods := []struct {
		name string
		b    []byte
	}{
		{"an empty module", module()},
		{"a component", []byte{0, 'a', 's', 'm', 0x0a, 0, 1, 0}},
		{"a module with types", module(section(1, 2, 0x60, 2, 0x7f, 0x7e, 1, 0x7d, 0x60, 1, 0x7c, 0))},
		{"a module with a function", module(section(1, 1, 0x60, 1, 0x7f, 1, 0x7f), section(3, 1, 0), section(7, 1, 3, 'a', 'd', 'd', 0, 0), section(10, 1, 11, 2, 2, 0x7f, 1, 0x7e, 0x20, 0, 0x20, 1, 0x6a, 0x0b))},
		{"a module with two functions", module(section(3, 2, 0x85, 1, 3), section(7, 2, 1, 'x', 0, 1, 2, 'y', 'z', 0, 0), section(10, 2, 5, 1, 3, 0x7c, 0x6a, 0x0b, 4, 0, 0x20, 7, 0x0b))},
		{"a module with custom sections", module(section(0, 2, 'c', '1', 9, 9), section(1, 0), section(0, 1, 'q'))},
		{"a truncated module", module(section(1, 1, 0x60, 1))},
		{"a wrong magic number", []byte{0, 'a', 's', 'n', 1, 0, 0, 0}},
	}
	var out []*op
	for _, m := range mods {
		m := m
		for _, each := range []int{1, 0} {
			each := each
			if each == 1 && len(m.b) > 40 {
				continue
			}
			out = append(out, &op{fmt.Sprintf("reading %s in pieces of %d", m.name, each), func(y func()) string {
				d, err := binary.Read(&source{append([]byte(nil), m.b...), each, y})
				r := outcome(d, err)
				y()
				return r + outcome(d, err)
			}})
		}
	}
	nums := []struct {
		v uint32
		b []byte
	}{
		{5, []byte{5}}, {300, []byte{0xac, 2}}, {1<<32 - 1, []byte{0xff, 0xff, 0xff, 0xff, 0x0f}}, {0, []byte{0x80, 0x80, 0}}, {1 << 20, []byte{0x80, 0x80, 0xc0, 0}}, {0, []byte{0xff}},
	}
	for _, n := range nums {
		n := n
		out = append(out, &op{fmt.Sprintf("decoding % x", n.b), func(y func()) string {
			v, k, err := leb128.DecodeReader(&source{append([]byte(nil), n.b...), 1, y})
			return outcome([]any{v, k}, err)
		}})
		out = append(out, &op{fmt.Sprintf("decoding % x buffered", n.b), func(y func()) string {
			v, k, err := leb128.Decode(bufio.NewReaderSize(&source{append([]byte(nil), n.b...), 1, y}, 16))
			return outcome([]any{v, k}, err)
		}})
		out = append(out, &op{fmt.Sprintf("encoding %d", n.v), func(y func()) string {
			s := &sink{yield: y}
			bw := bufio.NewWriterSize(s, 16)
			for i := 0; i < 5; i++ {
				if _, err := leb128.Encode(bw, n.v+uint32(i)); err != nil {
					return "error"
				}
				y()
			}
			bw.Flush()
			return fmt.Sprintf("% x", s.got)
		}})
	}
	return out
}

// ---------------------------------------------------------------- codecs

func codecOps() []*op {
	var out []*op
	var names []encoding.Encoding
	for _, c := range []encoding.Codec{encoding.NewUTF8(), encoding.NewUTF16(), encoding.NewLatin1(), encoding.NewLatin1Utf16()} {
		names = append(names, c.Encoding())
	}
	texts := []string{"ab", "é", "日x", "a𝄞", ""}
	datas := [][]byte{{0x41, 0}, {0x3d, 0xd8, 0x1e, 0xdd, 0x42, 0}, {0xc3, 0xa9}, {0xe9, 0x61}, {0, 0x41, 0x26, 3}}
	for _, n := range names {
		n := n
		for _, s := range texts {
			s := s
			out = append(out, &op{fmt.Sprintf("encoding %q as %s", s, n), func(y func()) string {
				c, err := encoding.DefaultFactory().Get(n)
				if err != nil {
					return "error"
				}
				dst := &sink{yield: y}
				err = c.Encode(dst, &source{[]byte(s), 2, y})
				return outcome(dst.got, err)
			}})
		}
		for _, d := range datas {
			d := d
			out = append(out, &op{fmt.Sprintf("decoding % x as %s", d, n), func(y func()) string {
				c, err := encoding.DefaultFactory().Get(n)
				if err != nil {
					return "error"
				}
				dst := &sink{yield: y}
				err = c.Decode(dst, &source{append([]byte(nil), d...), 2, y})
				return outcome(dst.got, err)
			}})
		}
	}
	return out
}

// ---------------------------------------------------------------- marshalling

// world is a guest with a memory and an instance.
type world struct {
	mem  *bytes.Buffer
	next uint32
	inst *types.ComponentInstance
	opts *types.CanonicalOptions
}

func newWorld(e encoding.Encoding, y func()) *world {
	w := &world{mem: bytes.NewBuffer(bytes.Repeat([]byte{0x11}, 256)), next: 8}
	w.inst = &types.ComponentInstance{MayEnter: true, MayLeave: true, Handles: types.HandleTables{ResourceTypeToTable: map[types.ResourceType]*types.HandleTable{}}}
	w.opts = &types.CanonicalOptions{
		Memory: w.mem, StringEncoding: e,
		Realloc: func(oldPtr, oldSize, align, size uint32) (uint32, error) {
			y()
			if align == 0 {
				align = 1
			}
			p := (w.next + align - 1) / align * align
			if int(p+size) > w.mem.Len() {
				return 0, fmt.Errorf("out of memory")
			}
			copy(w.mem.Bytes()[p:p+size], w.mem.Bytes()[oldPtr:oldPtr+min(oldSize, size)])
			w.next = p + size
			y()
			return p, nil
		},
		PostReturn: func() { y() },
	}
	return w
}

func (w *world) cx() *types.CallContext {
	return &types.CallContext{Options: w.opts, Instance: w.inst}
}

type typed struct {
	name string
	t    types.ValType
	vs   []any
}

// the types are shared by all operations: they are descriptions, not state
func shared() []typed {
	str := types.NewString()
	rec := types.NewRecord(types.Field{Label: "a", Type: types.NewU8()}, types.Field{Label: "b", Type: str}, types.Field{Label: "c", Type: types.NewF64()})
	flags := types.NewFlags("x", "y", "z")
	vari := types.NewVariant(types.NewCase("n", types.NewU64()), types.NewCase("s", str), types.NewCase("e", nil))
	return []typed{
		{"string", str, []any{"ab", "é日", "𝄞abc"}},
		{"list of string", types.NewList(str), []any{[]any{"x", "é"}, []any{"日本", "", "q"}}},
		{"list of u16", types.NewList(types.NewU16()), []any{[]any{uint16(1), uint16(0xfffe)}}},
		{"record", rec, []any{map[string]any{"a": uint8(1), "b": "one", "c": 1.5}, map[string]any{"a": uint8(2), "b": "zwölf", "c": math.Inf(1)}}},
		{"flags", flags, []any{map[string]any{"x": true, "y": false, "z": true}, map[string]any{"x": false, "y": true, "z": false}}},
		{"variant", vari, []any{map[string]any{"n": uint64(1 << 40)}, map[string]any{"s": "text"}, map[string]any{"e": nil}}},
		{"tuple", types.NewTuple(types.NewOption(str), types.NewResult(types.NewU32(), str), types.NewChar()), []any{map[string]any{"0": map[string]any{"some": "s"}, "1": map[string]any{"error": "bad"}, "2": 'x'}}},
	}
}

// flat writes down core values.
func flat(vs []values.Value) string {
	s := ""
	for _, v := range vs {
		s += fmt.Sprintf("%v:%s ", v.Kind(), dump(v.Value()))
	}
	return s
}

func anys(vs []values.Value) []any {
	out := make([]any, len(vs))
	for i, v := range vs {
		out[i] = v
	}
	return out
}

func abiOps() []*op {
	var out []*op
	encs := []encoding.Encoding{encoding.NewUTF8().Encoding(), encoding.NewUTF16().Encoding(), encoding.NewLatin1Utf16().Encoding()}
	ts := shared()
	for ti, t := range ts {
		for vi, v := range t.vs {
			t, v := t, v
			e := encs[(ti+vi)%len(encs)]
			name := fmt.Sprintf("%s %v as %s", t.name, v, e)
			out = append(out, &op{"lowering and lifting " + name, func(y func()) string {
				w := newWorld(e, y)
				vs, err := aio.LowerFlat(w.cx(), v, t.t)
				if err != nil {
					return "error"
				}
				y()
				s := flat(vs) + fmt.Sprintf("%x", w.mem.Bytes())
				y()
				x, err := aio.LiftFlat(w.cx(), values.NewIterator(vs...), t.t)
				y()
				return s + outcome(x, err)
			}})
			out = append(out, &op{"storing and loading " + name, func(y func()) string {
				w := newWorld(e, y)
				w.next = 64
				if err := aio.Store(w.cx(), v, t.t, 16); err != nil {
					return "error"
				}
				y()
				s := fmt.Sprintf("%x", w.mem.Bytes())
				x, err := aio.Load(w.cx(), t.t, 16)
				y()
				return s + outcome(x, err)
			}})
		}
	}
	for ti, t := range ts {
		t := t
		v := t.vs[0]
		e := encs[ti%len(encs)]
		ft := types.NewFuncType([]types.Parameter{{Type: t.t}}, []types.Parameter{{Type: t.t}})
		for _, max := range []int{16, 0} {
			max := max
			out = append(out, &op{fmt.Sprintf("calling a guest with %s, at most %d flat", t.name, max), func(y func()) string {
				w := newWorld(e, y)
				seen := ""
				x, post, err := aio.CanonLift(w.opts, w.inst, func(a any) (any, error) {
					y()
					seen = dumpArgs(a)
					y()
					return a, nil
				}, ft, []any{v}, max, max)
				if err != nil {
					return "error"
				}
				y()
				post()
				return seen + dump(x) + dump(w.inst.MayEnter) + dump(w.inst.MayLeave) + fmt.Sprintf("%x", w.mem.Bytes())
			}})
			out = append(out, &op{fmt.Sprintf("calling the host with %s, at most %d flat", t.name, max), func(y func()) string {
				w := newWorld(e, func() {})
				var args []values.Value
				var err error
				if max > 0 {
					args, err = aio.LowerFlat(w.cx(), v, t.t)
				} else {
					err = aio.Store(w.cx(), v, t.t, 192)
					args = []values.Value{values.U32(192), values.U32(128)}
				}
				if err != nil {
					return "error"
				}
				if args, err = padded(args, t.t, max); err != nil {
					return "error"
				}
				re := w.opts.Realloc
				w.opts.Realloc = func(a, b, c, d uint32) (uint32, error) {
					y()
					defer y()
					return re(a, b, c, d)
				}
				seen := ""
				x, err := aio.CanonLower(w.opts, w.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
					y()
					seen = dump(lifted)
					y()
					return lifted, func() { y() }, nil
				}, true, ft, anys(args), max, max)
				if err != nil {
					return "error"
				}
				return seen + dumpArgs(x) + dump(w.inst.MayEnter) + dump(w.inst.MayLeave) + fmt.Sprintf("%x", w.mem.Bytes())
			}})
		}
	}
	for n := 1; n <= 3; n++ {
		n := n
		out = append(out, &op{fmt.Sprintf("a life of %d resources", n), func(y func()) string {
			w := newWorld(encs[0], y)
			s := ""
			rt := types.NewResourceType(func(rep uint32) {
				y()
				s += fmt.Sprintf("end of %d, ", rep)
				y()
			}, w.inst)
			var hs []uint32
			for k := 0; k < n; k++ {
				h, err := aio.CanonResourceNew(w.inst, rt, uint32(100*n+k))
				i, ok := h.(uint32)
				if err != nil || !ok {
					return "error"
				}
				hs = append(hs, i)
				y()
			}
			for _, i := range hs {
				rep, err := aio.CanonResourceRep(w.inst, rt, i)
				s += fmt.Sprintf("%d is %d %v, ", i, rep, err == nil)
				y()
				s += fmt.Sprint(aio.CanonResourceDrop(w.inst, rt, i) == nil)
				y()
				_, err = aio.CanonResourceRep(w.inst, rt, i)
				s += fmt.Sprint(err != nil)
				y()
			}
			return s
		}})
		out = append(out, &op{fmt.Sprintf("lending a resource %d times", n), func(y func()) string {
			w := newWorld(encs[0], y)
			g := newWorld(encs[0], y)
			s := ""
			rt := types.NewResourceType(func(rep uint32) { s += fmt.Sprintf("end of %d, ", rep) }, w.inst)
			h, err := aio.CanonResourceNew(w.inst, rt, uint32(7*n))
			if err != nil {
				return "error"
			}
			var ps []types.Parameter
			var args []any
			for k := 0; k < n; k++ {
				ps = append(ps, types.Parameter{Type: types.NewBorrow(rt)})
				args = append(args, values.U32(h.(uint32)))
			}
			ft := types.NewFuncType(ps, nil)
			_, err = aio.CanonLower(w.opts, w.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
				y()
				return aio.CanonLift(g.opts, g.inst, func(a any) (any, error) {
					for _, x := range a.([]any) {
						i := x.(values.Value).Value().(uint32)
						rep, err := aio.CanonResourceRep(g.inst, rt, i)
						s += fmt.Sprintf("%d is %d %v, ", i, rep, err == nil)
						y()
						s += fmt.Sprint(aio.CanonResourceDrop(w.inst, rt, h.(uint32)) != nil)
						s += fmt.Sprint(aio.CanonResourceDrop(g.inst, rt, i) == nil)
						y()
					}
					return []any{}, nil
				}, ft, lifted, 16, 16)
			}, true, ft, args, 16, 16)
			if err != nil {
				return s + "error"
			}
			y()
			return s + fmt.Sprint(aio.CanonResourceDrop(w.inst, rt, h.(uint32)) == nil) + s
		}})
	}
	return out
}

func dumpArgs(a any) string {
	l, ok := a.([]any)
	if !ok {
		return dump(a)
	}
	s := ""
	for _, x := range l {
		v, ok := x.(values.Value)
		if !ok {
			return dump(a)
		}
		s += fmt.Sprintf("%v:%s ", v.Kind(), dump(v.Value()))
	}
	return s
}

// padded adds a place for results where they do not fit.
func padded(args []values.Value, t types.ValType, max int) ([]values.Value, error) {
	ft, err := aio.FlattenTypes([]types.ValType{t})
	if err != nil {
		return nil, err
	}
	if max > 0 && len(ft) > max {
		return nil, fmt.Errorf("too many")
	}
	return args, nil
}

// ---------------------------------------------------------------- texts

func textOps() []*op {
	var out []*op
	wats := []string{
		`(module (func $f (param i32) (result i32) local.get 0))`,
		`(module (memory 1 2) (export "m" (memory 0)))`,
		"(module ;; c\n (; d ;) (func (export \"a\\n\") (local f64) i32.const 0x7f drop))",
		`(component (core module $m))`,
		`(module (func $g nan:0x1 "\u{1F600}`,
		`(module`,
	}
	for _, s := range wats {
		s := s
		out = append(out, &op{fmt.Sprintf("tokens of %q", s), func(y func()) string {
			l := watlex.New(s)
			r := ""
			var kept []any
			for i := 0; i < 200; i++ {
				y()
				p, perr := l.Peek()
				t, err := l.Next()
				if err != nil || perr != nil {
					r += "error"
					break
				}
				r += dump(p) + dump(t)
				kept = append(kept, p, t)
				if t.Type == watoken.EndOfStream {
					break
				}
			}
			y()
			return r + dump(kept)
		}})
		out = append(out, &op{fmt.Sprintf("parsing %q", s), func(y func()) string {
			d, err := watparse.Parse(watlex.New(s))
			r := outcome(d, err)
			y()
			return r + outcome(d, err)
		}})
	}
	for _, s := range []string{
		`(module) (assert_return (invoke "a" (i32.const 1)) (i32.const 2))`,
		`(assert_malformed (module quote "(func") "unexpected")`,
		`(assert_trap`,
	} {
		s := s
		out = append(out, &op{fmt.Sprintf("parsing the script %q", s), func(y func()) string {
			d, err := wastparse.Parse(s)
			r := outcome(d, err)
			y()
			return r + outcome(d, err)
		}})
	}
	wits := []string{
		"package a:b@1.2.3;\ninterface i { f: func(x: u8) -> string; type t = list<u8>; }",
		"world w { import f: func(); export i: interface { g: func(); } }",
		"/// doc\ninterface k { record r { a: u8, b: option<t>, } flags fl { x, y } enum e { one } }",
		"interface j { resource r { constructor(); m: func(); s: static func() -> r; } }",
		"interface %world { use a:b/c.{d as e}; variant v { n, s(u8) } }",
		"interface i {",
	}
	for _, s := range wits {
		s := s
		out = append(out, &op{fmt.Sprintf("tokens of %q", s), func(y func()) string {
			l := witlex.New(s)
			r := ""
			var kept []any
			for i := 0; i < 200; i++ {
				y()
				p, perr := l.Peek()
				t, err := l.Next()
				if err != nil || perr != nil {
					r += "error"
					break
				}
				r += dump(p) + dump(t)
				kept = append(kept, p, t)
				if t.Type == witoken.EndOfStream {
					break
				}
			}
			y()
			return r + dump(kept)
		}})
		out = append(out, &op{fmt.Sprintf("parsing %q", s), func(y func()) string {
			d, err := witparse.Parse(s)
			r := outcome(d, err)
			y()
			return r + outcome(d, err)
		}})
	}
	return out
}

// ---------------------------------------------------------------- stores

func storeOps() []*op {
	f := func(k int) *api.Func { return &api.Func{Type: api.TypeIndex(k)} }
	ex := func(name string, i int) api.Export {
		return api.Export{Name: name, Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(i)}}
	}
	// the modules are shared as well
	mods := []*api.Module{
		{},
		{Funcs: []*api.Func{f(1)}, Exports: []api.Export{ex("a", 0)}},
		{Funcs: []*api.Func{f(2), f(3)}, Exports: []api.Export{ex("b", 1), ex("a", 0)}},
		{Funcs: []*api.Func{f(4), f(5), f(6)}},
	}
	var out []*op
	for n := 0; n < 40; n++ {
		var seq []int
		if n < 4 {
			seq = []int{n}
		} else if n < 20 {
			seq = []int{(n - 4) % 4, (n - 4) / 4}
		} else {
			seq = []int{n % 3, n / 3 % 4, n % 4, 3 - n%4}
		}
		out = append(out, &op{fmt.Sprintf("instances of modules %v", seq), func(y func()) string {
			st := &runtime.Store{}
			var ins []*runtime.ModuleInstance
			for _, k := range seq {
				in, err := runtime.NewModuleInstance(st, mods[k])
				if err != nil {
					return "error"
				}
				ins = append(ins, in)
				y()
			}
			s := ""
			for _, in := range ins {
				s += dump(in.FunctionAddresses) + dump(in.Exports)
				for _, name := range []string{"a", "b", "c"} {
					x, ok := in.GetExport(name)
					s += fmt.Sprint(ok)
					if ok {
						s += dump(x)
					}
					y()
				}
			}
			return s + dump(st.Funcs)
		}})
	}
	return out
}
