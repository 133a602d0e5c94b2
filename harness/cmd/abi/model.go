package main

// Reference model of the Canonical ABI, written from the specification's
// definitions and independent of the implementation. Types and values are the
// model's own; conversion to and from the implementation is in host.go.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

type K int

const (
	Bool K = iota
	U8
	U16
	U32
	U64
	S8
	S16
	S32
	S64
	F32
	F64
	Char
	Str
	List
	Record
	Tuple
	Variant
	Enum
	Option
	Result
	Union
	Flags
	Own
	Borrow
)

var kNames = []string{"bool", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "f32", "f64", "char", "string", "list", "record", "tuple", "variant", "enum", "option", "result", "union", "flags", "own", "borrow"}

// T is a component value type. Sub holds element, field or payload types; a
// nil entry is a case without payload.
type T struct {
	K       K
	Sub     []*T
	Labels  []string // record fields, variant cases, enum and flag labels
	Refines []int    // per case: index of the refined case or -1
	N       int      // enum/flags: number of labels (labels are generated)
	RT      int      // own/borrow: resource type number

	// caches
	size, align uint32
	flat        []Core
	known       bool
	hostT       any
}

// Core is a core value kind.
type Core int

const (
	CI32 Core = iota
	CI64
	CF32
	CF64
)

// Word is a core value: kind and bits.
type Word struct {
	C Core
	B uint64
}

// V is a value of some T.
type V struct {
	B uint64 // integers (two's complement, truncated), bool, float bits, char, case index, handle rep
	S string
	L []*V // list elements, fields, flags (B 0/1), or single payload
}

func (t *T) String() string {
	if t == nil {
		return "_"
	}
	switch t.K {
	case Enum, Flags:
		return fmt.Sprintf("%s[%d]", kNames[t.K], t.N)
	}
	if len(t.Sub) == 0 && t.K <= Str {
		return kNames[t.K]
	}
	var parts []string
	for i, s := range t.Sub {
		p := s.String()
		if t.Refines != nil && t.Refines[i] >= 0 {
			p += fmt.Sprintf("^%d", t.Refines[i])
		}
		parts = append(parts, p)
	}
	return kNames[t.K] + "(" + strings.Join(parts, ",") + ")"
}

func label(i int) string { return "l" + strconv.Itoa(i) }

func (t *T) label(i int) string {
	switch t.K {
	case Tuple, Union:
		return strconv.Itoa(i)
	case Option:
		return [2]string{"none", "some"}[i]
	case Result:
		return [2]string{"ok", "error"}[i]
	}
	if t.Labels != nil {
		return t.Labels[i]
	}
	return label(i)
}

// cases returns the payload types of a variant-like type.
func (t *T) cases() []*T {
	switch t.K {
	case Option:
		return []*T{nil, t.Sub[0]}
	case Enum:
		return make([]*T, t.N)
	}
	return t.Sub
}

func (t *T) isRecord() bool  { return t.K == Record || t.K == Tuple }
func (t *T) isVariant() bool { return t.K >= Variant && t.K <= Union }

func alignUp(p, a uint64) uint64 { return (p + a - 1) / a * a }

func discSize(n int) uint32 {
	switch {
	case n <= 1<<8:
		return 1
	case n <= 1<<16:
		return 2
	}
	return 4
}

func (t *T) prepare() {
	if t.known {
		return
	}
	for _, s := range t.Sub {
		if s != nil {
			s.prepare()
		}
	}
	t.align = t.mAlign()
	t.size = t.mSize()
	t.flat = t.mFlat()
	t.known = true
}

func (t *T) Align() uint32 { t.prepare(); return t.align }
func (t *T) Size() uint32  { t.prepare(); return t.size }
func (t *T) Flat() []Core  { t.prepare(); return t.flat }

func (t *T) mAlign() uint32 {
	switch t.K {
	case Bool, U8, S8:
		return 1
	case U16, S16:
		return 2
	case U32, S32, F32, Char, Str, List, Own, Borrow:
		return 4
	case U64, S64, F64:
		return 8
	case Flags:
		switch {
		case t.N <= 8:
			return 1
		case t.N <= 16:
			return 2
		}
		return 4
	}
	a := uint32(1)
	if t.isVariant() {
		a = discSize(t.numCases())
	}
	for _, s := range t.Sub {
		if s != nil && s.Align() > a {
			a = s.Align()
		}
	}
	return a
}

func (t *T) numCases() int {
	switch t.K {
	case Option:
		return 2
	case Enum:
		return t.N
	}
	return len(t.Sub)
}

// payloadOffset is the offset of a variant's payload.
func (t *T) payloadOffset() uint32 {
	a := uint32(1)
	for _, s := range t.Sub {
		if s != nil && s.Align() > a {
			a = s.Align()
		}
	}
	return uint32(alignUp(uint64(discSize(t.numCases())), uint64(a)))
}

func (t *T) mSize() uint32 {
	switch t.K {
	case Bool, U8, S8:
		return 1
	case U16, S16:
		return 2
	case U32, S32, F32, Char, Own, Borrow:
		return 4
	case U64, S64, F64, Str, List:
		return 8
	case Flags:
		switch {
		case t.N == 0:
			return 0
		case t.N <= 8:
			return 1
		case t.N <= 16:
			return 2
		}
		return uint32(4 * ((t.N + 31) / 32))
	}
	if t.isRecord() {
		var s uint64
		for _, f := range t.Sub {
			s = alignUp(s, uint64(f.Align())) + uint64(f.Size())
		}
		return uint32(alignUp(s, uint64(t.align)))
	}
	m := uint32(0)
	for _, c := range t.Sub {
		if c != nil && c.Size() > m {
			m = c.Size()
		}
	}
	return uint32(alignUp(uint64(t.payloadOffset())+uint64(m), uint64(t.align)))
}

func joinCore(a, b Core) Core {
	if a == b {
		return a
	}
	if (a == CI32 && b == CF32) || (a == CF32 && b == CI32) {
		return CI32
	}
	return CI64
}

func (t *T) mFlat() []Core {
	switch t.K {
	case Bool, U8, U16, U32, S8, S16, S32, Char, Own, Borrow:
		return []Core{CI32}
	case U64, S64:
		return []Core{CI64}
	case F32:
		return []Core{CF32}
	case F64:
		return []Core{CF64}
	case Str, List:
		return []Core{CI32, CI32}
	case Flags:
		return make([]Core, (t.N+31)/32)
	}
	if t.isRecord() {
		var out []Core
		for _, f := range t.Sub {
			out = append(out, f.Flat()...)
		}
		return out
	}
	out := []Core{CI32}
	for _, c := range t.Sub {
		if c == nil {
			continue
		}
		for i, k := range c.Flat() {
			if i+1 < len(out) {
				out[i+1] = joinCore(out[i+1], k)
			} else {
				out = append(out, k)
			}
		}
	}
	return out
}

func flatAll(ts []*T) []Core {
	var out []Core
	for _, t := range ts {
		out = append(out, t.Flat()...)
	}
	return out
}

// ---------------------------------------------------------------- values

const (
	nan32 = 0x7fc00000
	nan64 = 0x7ff8000000000000
)

func canon32(b uint32) uint32 {
	if b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0 {
		return nan32
	}
	return b
}

func canon64(b uint64) uint64 {
	if b&0x7ff0000000000000 == 0x7ff0000000000000 && b&0xfffffffffffff != 0 {
		return nan64
	}
	return b
}

func intBits(k K) (bits uint, signed bool) {
	switch k {
	case U8:
		return 8, false
	case U16:
		return 16, false
	case U32:
		return 32, false
	case U64:
		return 64, false
	case S8:
		return 8, true
	case S16:
		return 16, true
	case S32:
		return 32, true
	case S64:
		return 64, true
	}
	return 0, false
}

// caseLabel is the label a lifted variant value carries: the case's label
// followed by the labels of the cases it refines.
func (t *T) caseLabel(i int) string {
	l := t.label(i)
	if t.Refines == nil {
		return l
	}
	for t.Refines[i] >= 0 {
		i = t.Refines[i]
		l += "|" + t.label(i)
	}
	return l
}

// ---------------------------------------------------------------- strings

type Enc int

const (
	EncUTF8 Enc = iota
	EncUTF16
	EncLatin1UTF16
)

var encNames = []string{"utf-8", "utf-16", "latin1+utf16"}

// decodeString interprets a guest string; ok is false when the ABI traps.
// unspec is true where the specification leaves the outcome open here.
func decodeString(e Enc, mem []byte, ptr, tagged uint32) (s string, ok, unspec bool) {
	units, utf16enc := uint64(tagged), false
	align, width := uint64(1), uint64(1)
	switch e {
	case EncUTF8:
	case EncUTF16:
		align, width, utf16enc = 2, 2, true
		if tagged>>31 != 0 {
			// the repository's own tests require the tag bit to be ignored here
			return "", false, true
		}
	case EncLatin1UTF16:
		align = 2
		if tagged>>31 != 0 {
			units = uint64(tagged &^ (1 << 31))
			width, utf16enc = 2, true
		}
	}
	if uint64(ptr)%align != 0 || uint64(ptr)+units*width > uint64(len(mem)) {
		return "", false, false
	}
	b := mem[ptr : uint64(ptr)+units*width]
	switch {
	case utf16enc:
		s, ok = decodeUTF16(b)
	case e == EncUTF8:
		s, ok = string(b), utf8.Valid(b)
	default:
		s, ok = decodeLatin1(b), true
	}
	return s, ok, false
}

func decodeLatin1(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

func decodeUTF16(b []byte) (string, bool) {
	if len(b)%2 != 0 {
		return "", false
	}
	var r []rune
	for i := 0; i < len(b); i += 2 {
		u := uint16(b[i]) | uint16(b[i+1])<<8
		switch {
		case u >= 0xd800 && u < 0xdc00:
			if i+3 >= len(b) {
				return "", false
			}
			v := uint16(b[i+2]) | uint16(b[i+3])<<8
			if v < 0xdc00 || v > 0xdfff {
				return "", false
			}
			r = append(r, (rune(u)-0xd800)<<10+(rune(v)-0xdc00)+0x10000)
			i += 2
		case u >= 0xdc00 && u <= 0xdfff:
			return "", false
		default:
			r = append(r, rune(u))
		}
	}
	return string(r), true
}

func encodeUTF16(s string) []byte {
	var out []byte
	for _, u := range utf16.Encode([]rune(s)) {
		out = append(out, byte(u), byte(u>>8))
	}
	return out
}

// encodeString is one legal guest representation of s.
func encodeString(e Enc, s string) (b []byte, tagged uint32, align uint32) {
	switch e {
	case EncUTF8:
		return []byte(s), uint32(len(s)), 1
	case EncUTF16:
		b = encodeUTF16(s)
		return b, uint32(len(b) / 2), 2
	}
	for _, r := range s {
		if r > 0xff {
			b = encodeUTF16(s)
			return b, uint32(len(b)/2) | 1<<31, 2
		}
	}
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b, uint32(len(b)), 2
}

// ---------------------------------------------------------------- lifting

// guest is the memory and encoding of one component.
type guest struct {
	mem []byte
	enc Enc
}

type trap struct{ why string }
type unspecified struct{ why string }

// words is a cursor over core values.
type words struct {
	w []Word
	i int
}

func (ws *words) next(c Core) uint64 {
	if ws.i >= len(ws.w) {
		panic(trap{"missing core value"})
	}
	x := ws.w[ws.i]
	ws.i++
	if x.C != c {
		panic(trap{"wrong core kind"})
	}
	return x.B
}

// mLift runs f and reports how lifting ends.
func mLift(f func() *V) (v *V, outcome string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case trap:
			v, outcome = nil, "trap"
		case unspecified:
			v, outcome = nil, "unspecified"
		default:
			panic(r)
		}
	}()
	return f(), "value"
}

func liftBits(t *T, b uint64) *V {
	switch t.K {
	case Bool:
		if b != 0 {
			return &V{B: 1}
		}
		return &V{}
	case Char:
		if b >= 0x110000 || (b >= 0xd800 && b <= 0xdfff) {
			panic(trap{"char"})
		}
		return &V{B: b}
	case F32:
		return &V{B: uint64(canon32(uint32(b)))}
	case F64:
		return &V{B: canon64(b)}
	}
	bits, _ := intBits(t.K)
	if bits < 64 {
		b &= 1<<bits - 1
	}
	return &V{B: b}
}

func (g *guest) liftFlat(t *T, ws *words) *V {
	switch t.K {
	case Str:
		p := uint32(ws.next(CI32))
		n := uint32(ws.next(CI32))
		return g.liftString(p, n)
	case List:
		p := uint32(ws.next(CI32))
		n := uint32(ws.next(CI32))
		return g.liftList(t.Sub[0], p, n)
	case Flags:
		v := &V{}
		var w uint32
		for i := 0; i < t.N; i++ {
			if i%32 == 0 {
				w = uint32(ws.next(CI32))
			}
			v.L = append(v.L, &V{B: uint64(w & 1)})
			w >>= 1
		}
		return v
	case Own, Borrow:
		panic("handles are modelled elsewhere")
	}
	if t.isRecord() {
		v := &V{}
		for _, f := range t.Sub {
			v.L = append(v.L, g.liftFlat(f, ws))
		}
		return v
	}
	if t.isVariant() {
		flat := t.Flat()
		ci := ws.next(CI32)
		if ci >= uint64(t.numCases()) {
			panic(trap{"case"})
		}
		v := &V{B: ci}
		c := t.cases()[ci]
		start := ws.i
		// read the joined core values, then reinterpret for the case
		var joined []Word
		for _, k := range flat[1:] {
			_ = k
			joined = append(joined, Word{})
		}
		// values are taken (and kind-checked) in order
		for i, k := range flat[1:] {
			joined[i] = Word{k, ws.next(k)}
		}
		_ = start
		if c != nil {
			var own []Word
			for i, want := range c.Flat() {
				b := joined[i].B
				if want == CI32 || want == CF32 {
					b &= 0xffffffff
				}
				own = append(own, Word{want, b})
			}
			v.L = []*V{g.liftFlat(c, &words{w: own})}
		}
		return v
	}
	return liftBits(t, ws.next(t.Flat()[0]))
}

func (g *guest) liftString(p, n uint32) *V {
	s, ok, un := decodeString(g.enc, g.mem, p, n)
	if un {
		panic(unspecified{"tag"})
	}
	if !ok {
		panic(trap{"string"})
	}
	return &V{S: s}
}

func (g *guest) liftList(e *T, p, n uint32) *V {
	if uint64(p)%uint64(e.Align()) != 0 || uint64(p)+uint64(n)*uint64(e.Size()) > uint64(len(g.mem)) {
		panic(trap{"list"})
	}
	if e.Size() == 0 && n > 1<<16 {
		panic(unspecified{"giant list of empty elements"})
	}
	v := &V{}
	for i := uint32(0); i < n; i++ {
		v.L = append(v.L, g.load(e, p+i*e.Size()))
	}
	return v
}

func (g *guest) raw(p, n uint32) uint64 {
	if uint64(p)+uint64(n) > uint64(len(g.mem)) {
		panic(trap{"memory"})
	}
	var b uint64
	for i := uint32(0); i < n; i++ {
		b |= uint64(g.mem[p+i]) << (8 * i)
	}
	return b
}

// load reads a value whose own range is known to be inside memory.
func (g *guest) load(t *T, p uint32) *V {
	switch t.K {
	case Str:
		return g.liftString(uint32(g.raw(p, 4)), uint32(g.raw(p+4, 4)))
	case List:
		return g.liftList(t.Sub[0], uint32(g.raw(p, 4)), uint32(g.raw(p+4, 4)))
	case Flags:
		v := &V{}
		for i := 0; i < t.N; i++ {
			v.L = append(v.L, &V{B: g.raw(p+uint32(i/8), 1) >> (i % 8) & 1})
		}
		return v
	}
	if t.isRecord() {
		v := &V{}
		off := uint64(p)
		for _, f := range t.Sub {
			off = alignUp(off, uint64(f.Align()))
			v.L = append(v.L, g.load(f, uint32(off)))
			off += uint64(f.Size())
		}
		return v
	}
	if t.isVariant() {
		ci := g.raw(p, discSize(t.numCases()))
		if ci >= uint64(t.numCases()) {
			panic(trap{"case"})
		}
		v := &V{B: ci}
		if c := t.cases()[ci]; c != nil {
			v.L = []*V{g.load(c, p+t.payloadOffset())}
		}
		return v
	}
	return liftBits(t, g.raw(p, t.Size()))
}

// ---------------------------------------------------------------- building

// builder lays values out in a guest memory the way another producer might.
type builder struct {
	g    *guest
	next uint32 // bump pointer
	gap  uint32 // bytes left between out-of-line blocks
	down bool   // allocate from the top of memory downwards
}

func (b *builder) alloc(size, align uint32) uint32 {
	if b.down {
		p := b.next - size
		p = p / align * align
		b.next = p - b.gap
		return p
	}
	p := uint32(alignUp(uint64(b.next), uint64(align)))
	b.next = p + size + b.gap
	if int(b.next) > len(b.g.mem) {
		panic(fmt.Sprintf("model memory too small: %d", b.next))
	}
	return p
}

func (g *guest) put(p, n uint32, v uint64) {
	for i := uint32(0); i < n; i++ {
		g.mem[p+i] = byte(v >> (8 * i))
	}
}

func (b *builder) str(s string) (uint32, uint32) {
	enc, n, a := encodeString(b.g.enc, s)
	p := b.alloc(uint32(len(enc)), a)
	copy(b.g.mem[p:], enc)
	return p, n
}

func (b *builder) list(e *T, v *V) (uint32, uint32) {
	p := b.alloc(uint32(len(v.L))*e.Size(), e.Align())
	for i, x := range v.L {
		b.store(e, x, p+uint32(i)*e.Size())
	}
	return p, uint32(len(v.L))
}

func (b *builder) store(t *T, v *V, p uint32) {
	g := b.g
	switch t.K {
	case Str:
		q, n := b.str(v.S)
		g.put(p, 4, uint64(q))
		g.put(p+4, 4, uint64(n))
		return
	case List:
		q, n := b.list(t.Sub[0], v)
		g.put(p, 4, uint64(q))
		g.put(p+4, 4, uint64(n))
		return
	case Flags:
		for i := uint32(0); i < t.Size(); i++ {
			g.mem[p+i] = 0
		}
		for i, f := range v.L {
			g.mem[p+uint32(i/8)] |= byte(f.B) << (i % 8)
		}
		return
	}
	if t.isRecord() {
		off := uint64(p)
		for i, f := range t.Sub {
			off = alignUp(off, uint64(f.Align()))
			b.store(f, v.L[i], uint32(off))
			off += uint64(f.Size())
		}
		return
	}
	if t.isVariant() {
		g.put(p, discSize(t.numCases()), v.B)
		if c := t.cases()[v.B]; c != nil {
			b.store(c, v.L[0], p+t.payloadOffset())
		}
		return
	}
	g.put(p, t.Size(), v.B)
}

// lowerFlat produces core values for v, placing out-of-line data with b.
func (b *builder) lowerFlat(t *T, v *V) []Word {
	switch t.K {
	case Str:
		p, n := b.str(v.S)
		return []Word{{CI32, uint64(p)}, {CI32, uint64(n)}}
	case List:
		p, n := b.list(t.Sub[0], v)
		return []Word{{CI32, uint64(p)}, {CI32, uint64(n)}}
	case Flags:
		out := make([]Word, len(t.Flat()))
		for i, f := range v.L {
			out[i/32].B |= f.B << (i % 32)
		}
		return out
	}
	if t.isRecord() {
		var out []Word
		for i, f := range t.Sub {
			out = append(out, b.lowerFlat(f, v.L[i])...)
		}
		return out
	}
	if t.isVariant() {
		flat := t.Flat()
		out := []Word{{CI32, v.B}}
		if c := t.cases()[v.B]; c != nil {
			for i, w := range b.lowerFlat(c, v.L[0]) {
				out = append(out, Word{flat[i+1], w.B})
			}
		}
		for i := len(out); i < len(flat); i++ {
			out = append(out, Word{flat[i], 0})
		}
		return out
	}
	return []Word{{t.Flat()[0], lowerBits(t, v.B)}}
}

// lowerBits is the core bit pattern of a scalar.
func lowerBits(t *T, b uint64) uint64 {
	bits, signed := intBits(t.K)
	if signed && bits < 32 && b>>(bits-1)&1 == 1 {
		return (b | ^uint64(0)<<bits) & 0xffffffff
	}
	return b
}

// canonV is v with NaNs made canonical (what any passage produces).
func canonV(t *T, v *V) *V {
	switch t.K {
	case F32:
		return &V{B: uint64(canon32(uint32(v.B)))}
	case F64:
		return &V{B: canon64(v.B)}
	}
	if len(v.L) == 0 {
		return v
	}
	out := &V{B: v.B, S: v.S, L: make([]*V, len(v.L))}
	for i, x := range v.L {
		switch {
		case t.K == List:
			out.L[i] = canonV(t.Sub[0], x)
		case t.K == Flags:
			out.L[i] = x
		case t.isRecord():
			out.L[i] = canonV(t.Sub[i], x)
		default:
			out.L[i] = canonV(t.cases()[v.B], x)
		}
	}
	return out
}

func equalV(t *T, a, b *V) bool {
	switch t.K {
	case Str:
		return a.S == b.S
	case List:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !equalV(t.Sub[0], a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case Flags:
		for i := range a.L {
			if a.L[i].B != b.L[i].B {
				return false
			}
		}
		return true
	}
	if t.isRecord() {
		for i, f := range t.Sub {
			if !equalV(f, a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	}
	if t.isVariant() {
		if a.B != b.B {
			return false
		}
		c := t.cases()[a.B]
		return c == nil || equalV(c, a.L[0], b.L[0])
	}
	return a.B == b.B
}

func (t *T) showV(v *V) string {
	switch t.K {
	case Bool:
		return fmt.Sprint(v.B != 0)
	case F32:
		return fmt.Sprintf("%v(0x%08x)", math.Float32frombits(uint32(v.B)), v.B)
	case F64:
		return fmt.Sprintf("%v(0x%016x)", math.Float64frombits(v.B), v.B)
	case Char:
		return fmt.Sprintf("U+%04X", v.B)
	case Str:
		return fmt.Sprintf("%q", v.S)
	case List:
		var p []string
		for _, x := range v.L {
			p = append(p, t.Sub[0].showV(x))
		}
		return "[" + strings.Join(p, ",") + "]"
	case Flags:
		s := ""
		for _, x := range v.L {
			s += fmt.Sprint(x.B)
		}
		return "flags:" + s
	}
	if t.isRecord() {
		var p []string
		for i, x := range v.L {
			p = append(p, t.Sub[i].showV(x))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	if t.isVariant() {
		if len(v.L) == 0 {
			return fmt.Sprintf("#%d", v.B)
		}
		return fmt.Sprintf("#%d(%s)", v.B, t.cases()[v.B].showV(v.L[0]))
	}
	bits, signed := intBits(t.K)
	if signed {
		return fmt.Sprint(int64(v.B<<(64-bits)) >> (64 - bits))
	}
	return fmt.Sprint(v.B)
}
