package main

import (
	"bytes"
	"fmt"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/api"
	wasm "github.com/patrickhuber/go-wasm/binary"
	"verif/harness/mc"
)

// The model of a module: what the supported part of the binary format says.
type mod struct {
	types   []ftype
	funcs   []fn
	exports []export
}

type ftype struct{ params, results string } // one letter per value type: i l f d

type fn struct {
	typ    uint32
	groups []group
	body   []ins
}

type group struct {
	n uint32
	t byte
}

type ins struct {
	op  byte
	arg uint32
}

type export struct {
	name string
	fn   uint32
}

const (
	opEnd = 0x0b
	opGet = 0x20
	opAdd = 0x6a
)

func valByte(c byte) byte {
	switch c {
	case 'i':
		return 0x7f
	case 'l':
		return 0x7e
	case 'f':
		return 0x7d
	}
	return 0x7c
}

func valLetter(b byte) (byte, bool) {
	switch b {
	case 0x7f:
		return 'i', true
	case 0x7e:
		return 'l', true
	case 0x7d:
		return 'f', true
	case 0x7c:
		return 'd', true
	}
	return 0, false
}

// enc writes a module; pad says how many bytes more than the shortest form
// the k-th integer takes (as far as five bytes allow).
type enc struct {
	pad  func(k int) int
	set  func(k int) (uint32, bool) // lies about the k-th integer
	ints int
	gap  func(k int) []byte // further sections to put into the k-th gap
}

func (e *enc) u32(dst []byte, v uint32) []byte {
	if e.set != nil {
		if x, ok := e.set(e.ints); ok {
			v = x
		}
	}
	n := len(refEncode(nil, v))
	if e.pad != nil {
		n += e.pad(e.ints)
		if n > 5 {
			n = 5
		}
	}
	e.ints++
	return refPad(dst, v, n)
}

func (e *enc) section(dst []byte, id byte, body []byte) []byte {
	dst = append(dst, id)
	dst = e.u32(dst, uint32(len(body)))
	return append(dst, body...)
}

var preamble = []byte{0, 'a', 's', 'm', 1, 0, 0, 0}

func (e *enc) vals(dst []byte, s string) []byte {
	dst = e.u32(dst, uint32(len(s)))
	for k := range s {
		dst = append(dst, valByte(s[k]))
	}
	return dst
}

// module encodes m. all asks for sections even if they are empty.
func (e *enc) module(m *mod, all bool) []byte {
	dst := append([]byte(nil), preamble...)
	gap := func(k int) {
		if e.gap != nil {
			dst = append(dst, e.gap(k)...)
		}
	}
	gap(0)
	if all || len(m.types) > 0 {
		b := e.u32(nil, uint32(len(m.types)))
		for _, t := range m.types {
			b = append(b, 0x60)
			b = e.vals(b, t.params)
			b = e.vals(b, t.results)
		}
		dst = e.section(dst, 1, b)
	}
	gap(1)
	if all || len(m.funcs) > 0 {
		b := e.u32(nil, uint32(len(m.funcs)))
		for _, f := range m.funcs {
			b = e.u32(b, f.typ)
		}
		dst = e.section(dst, 3, b)
	}
	gap(2)
	if all || len(m.exports) > 0 {
		b := e.u32(nil, uint32(len(m.exports)))
		for _, x := range m.exports {
			b = e.u32(b, uint32(len(x.name)))
			b = append(b, x.name...)
			b = append(b, 0)
			b = e.u32(b, x.fn)
		}
		dst = e.section(dst, 7, b)
	}
	gap(3)
	if all || len(m.funcs) > 0 {
		b := e.u32(nil, uint32(len(m.funcs)))
		for _, f := range m.funcs {
			c := e.u32(nil, uint32(len(f.groups)))
			for _, g := range f.groups {
				c = e.u32(c, g.n)
				c = append(c, valByte(g.t))
			}
			for _, x := range f.body {
				c = append(c, x.op)
				if x.op == opGet {
					c = e.u32(c, x.arg)
				}
			}
			c = append(c, opEnd)
			b = e.u32(b, uint32(len(c)))
			b = append(b, c...)
		}
		dst = e.section(dst, 10, b)
	}
	gap(4)
	return dst
}

type verdict int

const (
	reject verdict = iota
	accept
	either // the specification leaves it open, or it is outside the supported part
)

// dec is a strict decoder over a byte slice.
type dec struct {
	b   []byte
	bad bool
}

func (d *dec) byte() byte {
	if len(d.b) == 0 {
		d.bad = true
		return 0
	}
	c := d.b[0]
	d.b = d.b[1:]
	return c
}

func (d *dec) u32() uint32 {
	if d.bad {
		return 0
	}
	v, n, ok := refDecode(d.b)
	if !ok {
		d.bad = true
		return 0
	}
	d.b = d.b[n:]
	return v
}

func (d *dec) take(n uint32) *dec {
	if d.bad || uint64(n) > uint64(len(d.b)) {
		d.bad = true
		return &dec{bad: true}
	}
	s := d.b[:n]
	d.b = d.b[n:]
	return &dec{b: s}
}

func (d *dec) name() string {
	s := d.take(d.u32())
	if s.bad || !utf8.Valid(s.b) {
		d.bad = true
		return ""
	}
	return string(s.b)
}

func (d *dec) vals() string {
	n := d.u32()
	if uint64(n) > uint64(len(d.b)) {
		d.bad = true
	}
	var s []byte
	for k := uint32(0); k < n && !d.bad; k++ {
		c, ok := valLetter(d.byte())
		if !ok {
			d.bad = true
		}
		s = append(s, c)
	}
	return string(s)
}

// maxLocals: beyond this many locals a decoder may apply a limit of its own.
const maxLocals = 40000

// refModule decides what decoding in must do.
func refModule(in []byte) (*mod, verdict) {
	if len(in) < 8 || !bytes.Equal(in[:4], preamble[:4]) {
		return nil, reject
	}
	if in[4] == 0x0a && in[5] == 0 {
		return nil, either // component: content is not decoded
	}
	if !bytes.Equal(in[:8], preamble) {
		return nil, reject
	}
	m := &mod{}
	v := accept
	d := &dec{b: in[8:]}
	last := byte(0)
	var codes []fn
	// positions of the non-custom sections in the required order
	order := map[byte]byte{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 7, 7: 8, 8: 9, 9: 10, 12: 11, 10: 12, 11: 13}
	lastAny := byte(0)
	many := false
	for len(d.b) > 0 {
		id := d.byte()
		s := d.take(d.u32())
		if d.bad {
			return nil, reject
		}
		switch id {
		case 1, 3, 7, 10:
			if id <= last {
				return nil, reject
			}
			last = id
		}
		if id != 0 {
			o, ok := order[id]
			if !ok || o <= lastAny {
				v = either // unknown section, or a skipped section out of place
			} else {
				lastAny = o
			}
		}
		switch id {
		case 0:
			s.name()
			s.b = nil
		case 1:
			n := s.u32()
			for k := uint32(0); k < n && !s.bad; k++ {
				if s.byte() != 0x60 {
					return nil, reject
				}
				p := s.vals()
				m.types = append(m.types, ftype{p, s.vals()})
			}
		case 3:
			n := s.u32()
			for k := uint32(0); k < n && !s.bad; k++ {
				m.funcs = append(m.funcs, fn{typ: s.u32()})
			}
		case 7:
			n := s.u32()
			for k := uint32(0); k < n && !s.bad; k++ {
				name := s.name()
				if s.byte() != 0 {
					return nil, reject
				}
				m.exports = append(m.exports, export{name, s.u32()})
			}
		case 10:
			n := s.u32()
			for k := uint32(0); k < n && !s.bad; k++ {
				c := s.take(s.u32())
				f := fn{}
				total := uint64(0)
				g := c.u32()
				for j := uint32(0); j < g && !c.bad; j++ {
					cnt := c.u32()
					t, ok := valLetter(c.byte())
					if !ok {
						return nil, reject
					}
					total += uint64(cnt)
					f.groups = append(f.groups, group{cnt, t})
				}
				for !c.bad {
					op := c.byte()
					if op == opEnd {
						break
					}
					switch op {
					case opGet:
						f.body = append(f.body, ins{op, c.u32()})
					case opAdd:
						f.body = append(f.body, ins{op: op})
					default:
						return nil, reject
					}
				}
				if c.bad || len(c.b) != 0 || total >= 1<<32 {
					return nil, reject
				}
				many = many || total > maxLocals
				codes = append(codes, f)
			}
		default:
			s.b = nil
		}
		if s.bad || len(s.b) != 0 {
			return nil, reject
		}
	}
	if len(codes) != len(m.funcs) {
		return nil, reject
	}
	if many {
		return nil, either
	}
	for k := range codes {
		m.funcs[k].groups, m.funcs[k].body = codes[k].groups, codes[k].body
	}
	return m, v
}

type result struct {
	doc   *api.Document
	err   error
	panic any
}

func (r result) String() string {
	switch {
	case r.panic != nil:
		return fmt.Sprintf("panic: %v", r.panic)
	case r.err != nil:
		return "error: " + r.err.Error()
	}
	return "accepted"
}

func showTypes(ts []api.ValType) string {
	var s []byte
	for _, t := range ts {
		switch t {
		case api.I32Type:
			s = append(s, 'i')
		case api.I64Type:
			s = append(s, 'l')
		case api.F32Type:
			s = append(s, 'f')
		case api.F64Type:
			s = append(s, 'd')
		default:
			s = append(s, fmt.Sprintf("<%T %v>", t, t)...)
		}
	}
	return string(s)
}

// differ says how the document differs from the module, or "".
func differ(m *mod, doc *api.Document) string {
	if doc == nil {
		return "no document"
	}
	if doc.Preamble.Version != 1 || doc.Preamble.Layer != 0 {
		return fmt.Sprintf("preamble is %v", doc.Preamble)
	}
	g, ok := doc.Directive.(*api.Module)
	if !ok || g == nil {
		return fmt.Sprintf("directive is %T", doc.Directive)
	}
	if len(g.Types) != len(m.types) {
		return fmt.Sprintf("%d types instead of %d", len(g.Types), len(m.types))
	}
	for k, t := range m.types {
		if g.Types[k] == nil {
			return fmt.Sprintf("type %d is missing", k)
		}
		if p, r := showTypes(g.Types[k].Parameters.Types), showTypes(g.Types[k].Returns.Types); p != t.params || r != t.results {
			return fmt.Sprintf("type %d is (%s) → (%s) instead of (%s) → (%s)", k, p, r, t.params, t.results)
		}
	}
	if len(g.Funcs) != len(m.funcs) {
		return fmt.Sprintf("%d functions instead of %d", len(g.Funcs), len(m.funcs))
	}
	for k, f := range m.funcs {
		h := g.Funcs[k]
		if h == nil {
			return fmt.Sprintf("function %d is missing", k)
		}
		if uint32(h.Type) != f.typ {
			return fmt.Sprintf("function %d has type %d instead of %d", k, h.Type, f.typ)
		}
		var want []byte
		for _, g := range f.groups {
			for j := uint32(0); j < g.n; j++ {
				want = append(want, g.t)
			}
		}
		if got := showTypes(h.Locals); got != string(want) {
			return fmt.Sprintf("function %d has locals %.60q instead of %.60q", k, got, want)
		}
		if h.Body == nil {
			return fmt.Sprintf("function %d has no body", k)
		}
		is := h.Body.Instructions
		if len(is) != len(f.body)+1 {
			return fmt.Sprintf("function %d has %d instructions instead of %d", k, len(is), len(f.body)+1)
		}
		for j, x := range append(f.body[:len(f.body):len(f.body)], ins{op: opEnd}) {
			var want api.Instruction
			switch x.op {
			case opEnd:
				want = api.End{}
			case opGet:
				want = api.LocalGet{Index: api.LocalIndex(x.arg)}
			case opAdd:
				want = api.I32Add{}
			}
			if is[j] != want {
				return fmt.Sprintf("function %d instruction %d is %T%v instead of %T%v", k, j, is[j], is[j], want, want)
			}
		}
	}
	if len(g.Exports) != len(m.exports) {
		return fmt.Sprintf("%d exports instead of %d", len(g.Exports), len(m.exports))
	}
	for k, x := range m.exports {
		d, ok := g.Exports[k].Description.(*api.FuncExportDescription)
		if !ok || d == nil || g.Exports[k].Name != x.name || uint32(d.FuncIdx) != x.fn {
			return fmt.Sprintf("export %d is %q %v instead of %q %d", k, g.Exports[k].Name, g.Exports[k].Description, x.name, x.fn)
		}
	}
	if len(g.Tables)+len(g.Mems)+len(g.Globals)+len(g.Elems)+len(g.Datas)+len(g.Imports) != 0 {
		return "the module has fields that were not encoded"
	}
	return ""
}

func decode(w *mc.W, in []byte) (r result) {
	w.Step(1)
	r.panic = mc.Safe(func() { r.doc, r.err = wasm.Read(bytes.NewReader(in)) })
	return
}

// judge decodes in and compares with the strict decoder.
func judge(w *mc.W, in []byte) string {
	w.Desc(func() string { return fmt.Sprintf("% x", in) })
	m, v := refModule(in)
	r := decode(w, in)
	if r.panic != nil {
		w.Fail("panic", "%s", r)
		return "panic"
	}
	switch v {
	case reject:
		if r.err == nil {
			w.Fail("accepted", "malformed input is accepted")
		}
		return "rejected"
	case accept:
		if r.err != nil {
			w.Fail("rejected", "well-formed input: %s", r)
		} else if d := differ(m, r.doc); d != "" {
			w.Fail("misread", "%s", d)
		}
		return fmt.Sprintf("module with %d types, %d functions, %d exports", min(len(m.types), 3), min(len(m.funcs), 3), min(len(m.exports), 3))
	}
	if r.err == nil && m != nil {
		if d := differ(m, r.doc); d != "" {
			w.Fail("misread", "%s", d)
		}
	}
	return "open"
}
