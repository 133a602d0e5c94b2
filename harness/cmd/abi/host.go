package main

// Conversion between the model and the implementation's public API.

import (
	"bytes"
	"fmt"
	"math"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/mc"
)

var encodings = []encoding.Encoding{encoding.UTF8, encoding.UTF16, encoding.Latin1Utf16}

// host returns the implementation's type for t (built once).
func (t *T) host() types.ValType {
	if t.hostT == nil {
		t.hostT = t.makeHost()
	}
	return t.hostT.(types.ValType)
}

func optHost(t *T) types.ValType {
	if t == nil {
		return nil
	}
	return t.host()
}

func (t *T) makeHost() types.ValType {
	switch t.K {
	case Bool:
		return types.NewBool()
	case U8:
		return types.NewU8()
	case U16:
		return types.NewU16()
	case U32:
		return types.NewU32()
	case U64:
		return types.NewU64()
	case S8:
		return types.NewS8()
	case S16:
		return types.NewS16()
	case S32:
		return types.NewS32()
	case S64:
		return types.NewS64()
	case F32:
		return types.NewF32()
	case F64:
		return types.NewF64()
	case Char:
		return types.NewChar()
	case Str:
		return types.NewString()
	case List:
		return types.NewList(t.Sub[0].host())
	case Record:
		var fs []types.Field
		for i, s := range t.Sub {
			fs = append(fs, types.Field{Label: t.label(i), Type: s.host()})
		}
		return types.NewRecord(fs...)
	case Tuple:
		var ts []types.ValType
		for _, s := range t.Sub {
			ts = append(ts, s.host())
		}
		return types.NewTuple(ts...)
	case Variant:
		var cs []types.Case
		for i, s := range t.Sub {
			if t.Refines != nil && t.Refines[i] >= 0 {
				cs = append(cs, types.NewCaseRefines(t.label(i), optHost(s), t.label(t.Refines[i])))
			} else {
				cs = append(cs, types.NewCase(t.label(i), optHost(s)))
			}
		}
		return types.NewVariant(cs...)
	case Enum, Flags:
		ls := make([]string, t.N)
		for i := range ls {
			ls[i] = t.label(i)
		}
		if t.K == Enum {
			return types.NewEnum(ls...)
		}
		return types.NewFlags(ls...)
	case Option:
		return types.NewOption(t.Sub[0].host())
	case Result:
		return types.NewResult(optHost(t.Sub[0]), optHost(t.Sub[1]))
	case Union:
		var ts []types.ValType
		for _, s := range t.Sub {
			ts = append(ts, s.host())
		}
		return types.NewUnion(ts...)
	}
	panic("no host type for " + t.String())
}

// ready prepares all caches so that the type can be shared between workers.
func ready(ts []*T) []*T {
	for _, t := range ts {
		t.prepare()
		t.host()
		for _, s := range t.Sub {
			if s != nil {
				ready([]*T{s})
			}
		}
	}
	return ts
}

// toHost is the implementation's value for v.
func (t *T) toHost(v *V) any {
	switch t.K {
	case Bool:
		return v.B != 0
	case U8:
		return uint8(v.B)
	case U16:
		return uint16(v.B)
	case U32:
		return uint32(v.B)
	case U64:
		return v.B
	case S8:
		return int8(v.B)
	case S16:
		return int16(v.B)
	case S32:
		return int32(v.B)
	case S64:
		return int64(v.B)
	case F32:
		return math.Float32frombits(uint32(v.B))
	case F64:
		return math.Float64frombits(v.B)
	case Char:
		return rune(v.B)
	case Str:
		return v.S
	case List:
		out := make([]any, len(v.L))
		for i, x := range v.L {
			out[i] = t.Sub[0].toHost(x)
		}
		return out
	case Flags:
		m := map[string]any{}
		for i, x := range v.L {
			m[t.label(i)] = x.B != 0
		}
		return m
	}
	if t.isRecord() {
		m := map[string]any{}
		for i, x := range v.L {
			m[t.label(i)] = t.Sub[i].toHost(x)
		}
		return m
	}
	var p any
	if c := t.cases()[v.B]; c != nil {
		p = c.toHost(v.L[0])
	}
	return map[string]any{t.label(int(v.B)): p}
}

// differ explains how got differs from v ("" if it does not).
func (t *T) differ(v *V, got any) string {
	bad := func() string { return fmt.Sprintf("want %s, got %s", t.showV(v), show(got)) }
	switch t.K {
	case F32:
		f, ok := got.(float32)
		if !ok || math.Float32bits(f) != uint32(v.B) {
			if ok {
				return fmt.Sprintf("want 0x%08x, got 0x%08x", v.B, math.Float32bits(f))
			}
			return bad()
		}
		return ""
	case F64:
		f, ok := got.(float64)
		if !ok || math.Float64bits(f) != v.B {
			if ok {
				return fmt.Sprintf("want 0x%016x, got 0x%016x", v.B, math.Float64bits(f))
			}
			return bad()
		}
		return ""
	case List:
		l, ok := got.([]any)
		if !ok && got != nil {
			return bad()
		}
		if len(l) != len(v.L) {
			return bad()
		}
		for i, x := range v.L {
			if d := t.Sub[0].differ(x, l[i]); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
		return ""
	case Flags:
		m, ok := got.(map[string]any)
		if !ok || len(m) != len(v.L) {
			return bad()
		}
		for i, x := range v.L {
			if b, ok := m[t.label(i)].(bool); !ok || b != (x.B != 0) {
				return fmt.Sprintf("flag %d: want %v, got %v", i, x.B != 0, m[t.label(i)])
			}
		}
		return ""
	}
	if t.isRecord() {
		m, ok := got.(map[string]any)
		if !ok || len(m) != len(v.L) {
			return bad()
		}
		for i, x := range v.L {
			g, ok := m[t.label(i)]
			if !ok {
				return "missing field " + t.label(i)
			}
			if d := t.Sub[i].differ(x, g); d != "" {
				return fmt.Sprintf(".%s: %s", t.label(i), d)
			}
		}
		return ""
	}
	if t.isVariant() {
		m, ok := got.(map[string]any)
		if !ok || len(m) != 1 {
			return bad()
		}
		g, ok := m[t.caseLabel(int(v.B))]
		if !ok {
			return bad()
		}
		c := t.cases()[v.B]
		if c == nil {
			if g != nil {
				return bad()
			}
			return ""
		}
		if d := c.differ(v.L[0], g); d != "" {
			return fmt.Sprintf("case %d: %s", v.B, d)
		}
		return ""
	}
	if got != t.toHost(v) {
		return bad()
	}
	return ""
}

func show(x any) string {
	s := fmt.Sprintf("%T %#v", x, x)
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return s
}

// ---------------------------------------------------------------- core values

func coreOf(k kind.Kind) Core {
	switch k {
	case kind.U32:
		return CI32
	case kind.U64:
		return CI64
	case kind.Float32:
		return CF32
	case kind.Float64:
		return CF64
	}
	return -1
}

func coreValue(w Word) values.Value {
	switch w.C {
	case CI32:
		return values.U32(uint32(w.B))
	case CI64:
		return values.U64(int64(w.B))
	case CF32:
		return values.Float32(math.Float32frombits(uint32(w.B)))
	}
	return values.Float64(math.Float64frombits(w.B))
}

func coreValues(ws []Word) []values.Value {
	out := make([]values.Value, len(ws))
	for i, w := range ws {
		out[i] = coreValue(w)
	}
	return out
}

// wordOf reads a core value returned by the implementation.
func wordOf(v any) (Word, bool) {
	cv, ok := v.(values.Value)
	if !ok || cv == nil {
		return Word{}, false
	}
	switch x := cv.Value().(type) {
	case uint32:
		return Word{CI32, uint64(x)}, cv.Kind() == kind.U32
	case uint64:
		return Word{CI64, x}, cv.Kind() == kind.U64
	case float32:
		return Word{CF32, uint64(math.Float32bits(x))}, cv.Kind() == kind.Float32
	case float64:
		return Word{CF64, math.Float64bits(x)}, cv.Kind() == kind.Float64
	}
	return Word{}, false
}

func wordsOf(vs []values.Value) ([]Word, bool) {
	out := make([]Word, len(vs))
	for i, v := range vs {
		w, ok := wordOf(v)
		if !ok {
			return nil, false
		}
		out[i] = w
	}
	return out, true
}

func showWords(ws []Word) string {
	s := ""
	for _, w := range ws {
		s += fmt.Sprintf("%s:0x%x ", [...]string{"i32", "i64", "f32", "f64"}[w.C], w.B)
	}
	return s
}

// ---------------------------------------------------------------- heap

type block struct{ ptr, size, align uint32 }

// heap is a guest memory with an allocator under the explorer's control. The
// bytes beyond the memory's length belong to the explorer and are poisoned, so
// that reads and writes past the end are noticed even where the slice capacity
// would allow them.
type heap struct {
	backing []byte
	size    int
	buf     *bytes.Buffer
	next    uint32
	blocks  []block
	answer  func(align, size uint32) (uint32, error)
	grown   bool
}

const slack = 64
const poison = 0xEE

func newHeap(size int, fill byte) *heap {
	h := &heap{}
	h.reset(size, fill)
	return h
}

func (h *heap) reset(size int, fill byte) {
	if cap(h.backing) < size+slack {
		h.backing = make([]byte, size+slack)
	}
	h.backing = h.backing[:size+slack]
	for i := range h.backing {
		if i < size {
			h.backing[i] = fill
		} else {
			h.backing[i] = poison
		}
	}
	h.size = size
	h.buf = bytes.NewBuffer(h.backing[: size : size+slack])
	h.grown = false
	h.next = 0
	h.blocks = h.blocks[:0]
	h.answer = nil
}

// mem is the guest's linear memory.
func (h *heap) mem() []byte { return h.buf.Bytes() }

// grow enlarges the memory the way a guest would; the bytes move.
func (h *heap) grow(n int) {
	old := h.buf.Bytes()
	b := make([]byte, len(old)+n+slack)
	copy(b, old)
	for i := range old {
		old[i] = 0xDD // the previous location is no longer the memory
	}
	for i := len(old); i < len(old)+n; i++ {
		b[i] = 0
	}
	for i := len(old) + n; i < len(b); i++ {
		b[i] = poison
	}
	h.backing = b
	h.size = len(old) + n
	h.grown = true
	*h.buf = *bytes.NewBuffer(b[: h.size : h.size+slack])
}

func (h *heap) poisoned() bool {
	for _, b := range h.backing[h.size:] {
		if b != poison {
			return false
		}
	}
	return true
}

var errNoMem = fmt.Errorf("allocator: out of memory")

// realloc is the guest allocator.
func (h *heap) realloc(oldPtr, oldSize, align, size uint32) (uint32, error) {
	if align == 0 {
		align = 1
	}
	var p uint32
	if h.answer != nil {
		var err error
		p, err = h.answer(align, size)
		if err != nil {
			return 0, err
		}
	} else {
		p = uint32(alignUp(uint64(h.next), uint64(align)))
		if uint64(p)+uint64(size) > uint64(h.size) {
			return 0, errNoMem
		}
		h.next = p + size
	}
	if oldSize > 0 && uint64(oldPtr)+uint64(oldSize) <= uint64(h.size) && uint64(p)+uint64(size) <= uint64(h.size) {
		n := oldSize
		if size < n {
			n = size
		}
		copy(h.backing[p:p+n], h.backing[oldPtr:oldPtr+n])
	}
	h.blocks = append(h.blocks, block{p, size, align})
	return p, nil
}

// covers reports whether [p,p+n) lies in a block that was allocated with at
// least this alignment.
func (h *heap) covers(p, n, align uint32) bool {
	for _, b := range h.blocks {
		if p >= b.ptr && uint64(p)+uint64(n) <= uint64(b.ptr)+uint64(b.size) && (b.align >= align || p%align == 0) {
			return true
		}
	}
	return n == 0
}

func (h *heap) options(e Enc) *types.CanonicalOptions {
	return &types.CanonicalOptions{
		Memory:         h.buf,
		StringEncoding: encodings[e],
		Realloc:        h.realloc,
	}
}

func newInstance() *types.ComponentInstance {
	return &types.ComponentInstance{
		MayEnter: true,
		MayLeave: true,
		Handles: types.HandleTables{
			ResourceTypeToTable: map[types.ResourceType]*types.HandleTable{},
		},
	}
}

func newContext(h *heap, e Enc) *types.CallContext {
	return &types.CallContext{Options: h.options(e), Instance: newInstance()}
}

// ---------------------------------------------------------------- calls

// result of one call into the implementation
type res struct {
	v     any
	words []Word
	err   error
	panic any
	used  int
}

func (r res) refused() bool { return r.err != nil }

func (r res) String() string {
	switch {
	case r.panic != nil:
		return fmt.Sprintf("panic %v", r.panic)
	case r.err != nil:
		return fmt.Sprintf("error %q", r.err.Error())
	}
	return show(r.v) + " " + showWords(r.words)
}

func doLowerFlat(w *mc.W, cx *types.CallContext, t *T, v any) (r res) {
	w.Step(1)
	r.panic = mc.Safe(func() {
		vs, err := aio.LowerFlat(cx, v, t.host())
		if err != nil {
			r.err = err
			return
		}
		ws, ok := wordsOf(vs)
		if !ok {
			r.err = nil
			r.v = fmt.Sprintf("not core values: %v", vs)
			return
		}
		r.words = ws
	})
	return
}

func doLiftFlat(w *mc.W, cx *types.CallContext, t *T, ws []Word) (r res) {
	w.Step(1)
	r.panic = mc.Safe(func() {
		vi := values.NewIterator(coreValues(ws)...)
		r.v, r.err = aio.LiftFlat(cx, vi, t.host())
		r.used = vi.Index()
	})
	return
}

func doStore(w *mc.W, cx *types.CallContext, t *T, v any, p uint32) (r res) {
	w.Step(1)
	r.panic = mc.Safe(func() { r.err = aio.Store(cx, v, t.host(), p) })
	return
}

func doLoad(w *mc.W, cx *types.CallContext, t *T, p uint32) (r res) {
	w.Step(1)
	r.panic = mc.Safe(func() { r.v, r.err = aio.Load(cx, t.host(), p) })
	return
}
