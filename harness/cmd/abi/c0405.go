package main

import (
	"fmt"
	"sort"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/mc"
)

// alphabets of untrusted core values, richest first
var wordAlpha = map[Core][]uint64{
	CI32: {0, 1, 2, 3, 4, 7, 8, 16, 63, 64, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xffffffff},
	CI64: {0, 1, 2, 8, 0xff, 0x100, 0xd800, 0x110000, 0x7f800001, 0xffffffff, 0x100000000, 0x100000001, 0x10000d800, 0x7ff0000000000001, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff},
	CF32: {0, 0x80000000, 0x3f800000, 0x7f800000, 0x7f800001, 0x7fc00000, 0xffc00000, 0xffffffff, 1},
	CF64: {0, 0x8000000000000000, 0x3ff0000000000000, 0x7ff0000000000000, 0x7ff0000000000001, 0x7ff8000000000000, 0xfff8000000000000, 0xffffffffffffffff, 1},
}

// smaller alphabets keep the boundaries
var wordAlphaSmall = map[Core][]uint64{
	CI32: {0, 1, 2, 8, 0x80, 0x101, 0xd800, 0x110000, 0x80000001, 0xffffffff},
	CI64: {0, 1, 8, 0x7f800001, 0x10000d800, 0x7ff0000000000001, 0xffffffffffffffff},
	CF32: {0x3f800000, 0x7f800001, 0xffc00000},
	CF64: {0x3ff0000000000000, 0x7ff0000000000001, 0xfff8000000000000},
}

var wordAlphaTiny = map[Core][]uint64{
	CI32: {1, 8, 0, 0xffffffff},
	CI64: {1, 8, 0xfff8000000000001},
	CF32: {0x3f800000, 0x7f800001},
	CF64: {0x3ff0000000000000, 0x7ff0000000000001},
}

func alphaFor(n int, thorough bool) map[Core][]uint64 {
	switch {
	case n <= 2, n == 3 && thorough:
		return wordAlpha
	case n <= 3, n == 4 && thorough:
		return wordAlphaSmall
	}
	return wordAlphaTiny
}

// guestMem is the memory untrusted pointers point into: text, ill-formed text,
// numbers and pointers, no two aligned words alike.
func guestMem() []byte {
	m := make([]byte, 64)
	copy(m, "\x02\x00\x00\x00\x03\x00\x00\x00ab\xc3\xa9\x00\xd8\x3d\xd8\x00\xde\x01\xff\x7f\x80\x00\x00\x08\x00\x00\x00\x02\x00\x00\x00")
	for i := 32; i < 64; i++ {
		m[i] = byte(i * 5)
	}
	return m
}

func zeroSizedList(t *T) bool {
	if t == nil {
		return false
	}
	if t.K == List && t.Sub[0].Size() == 0 {
		return true
	}
	for _, s := range t.Sub {
		if zeroSizedList(s) {
			return true
		}
	}
	return false
}

func wordCase(w *mc.W, t *T, ws []Word, enc Enc, mem []byte) {
	w.Desc(func() string { return fmt.Sprintf("%s from %s, %s", t, showWords(ws), encNames[enc]) })
	h := heapOf(w).h
	h.reset(len(mem), 0)
	copy(h.mem(), mem)
	g := &guest{h.mem(), enc}
	want, outcome := mLift(func() *V { return g.liftFlat(t, &words{w: ws}) })
	r := doLiftFlat(w, newContext(h, enc), t, ws)
	judgeLift(w, t, want, outcome, r, len(t.Flat()))
	for i, b := range mem {
		if h.mem()[i] != b {
			w.Fail("lift-writes", "lifting changed memory byte %d", i)
			break
		}
	}
	w.Trace(kNames[t.K] + " " + outcome)
}

func judgeLift(w *mc.W, t *T, want *V, outcome string, r res, flat int) {
	switch {
	case r.panic != nil:
		w.Fail("panic:"+kNames[t.K], "lifting panicked: %v", r.panic)
	case outcome == "unspecified":
	case outcome == "trap":
		if r.err == nil {
			w.Fail("accepted:"+kNames[t.K], "must be refused, got %s", show(r.v))
		}
	case r.err != nil:
		w.Fail("refused:"+kNames[t.K], "must give %s, got error %v", t.showV(want), r.err)
	default:
		if d := t.differ(want, r.v); d != "" {
			w.Fail("wrong:"+kNames[t.K], "%s", d)
		}
		if flat >= 0 && r.used != flat {
			w.Fail("consumed:"+kNames[t.K], "consumed %d core values of %d", r.used, flat)
		}
	}
}

func c04(tier string) []mc.Family {
	thorough := tier == "thorough"
	mem := guestMem()
	var ts []*T
	for _, t := range valueTypes(tier) {
		if n := len(t.Flat()); n <= 7 && !zeroSizedList(t) {
			ts = append(ts, t)
		}
	}
	// vectors of the right kinds
	type span struct {
		t     *T
		a     map[Core][]uint64
		radix []int
		start int64
	}
	var spans []span
	var n int64
	for _, t := range ts {
		s := span{t: t, a: alphaFor(len(t.Flat()), thorough), start: n}
		c := int64(1)
		for _, k := range t.Flat() {
			s.radix = append(s.radix, len(s.a[k]))
			c *= int64(len(s.a[k]))
		}
		if c == 0 {
			c = 1
		}
		spans = append(spans, s)
		n += c
	}
	find := func(i int64) span {
		k := sort.Search(len(spans), func(k int) bool { return spans[k].start > i }) - 1
		return spans[k]
	}
	fs := []mc.Family{{
		Name: "words", Bound: fmt.Sprintf("%d types of up to 7 core values × all vectors over boundary alphabets × encodings", len(ts)), N: n * 3,
		Run: func(w *mc.W, i int64) {
			e := Enc(i % 3)
			s := find(i / 3)
			if e != 0 && !needsMemory(s.t) {
				return
			}
			d := mc.Mixed(i/3-s.start, s.radix...)
			ws := make([]Word, len(d))
			for k, c := range s.t.Flat() {
				ws[k] = Word{c, s.a[c][d[k]]}
			}
			w.Distinct()
			wordCase(w, s.t, ws, e, mem)
		},
	}}
	// every 16-bit word (and its high-bit variants) for each scalar
	sc := scalars[:12]
	ready(sc)
	fs = append(fs, mc.Family{
		Name: "scalars16", Bound: "every scalar type × every 16-bit pattern in the low, middle or high part of the word", N: int64(len(sc)) * 4 << 16,
		Run: func(w *mc.W, i int64) {
			t := sc[int(i>>18)]
			hi := i >> 16 & 3
			b := uint64(i&0xffff) << (hi * 16)
			c := t.Flat()[0]
			if (c == CI32 || c == CF32) && hi >= 2 {
				b = uint64(i&0xffff) | 0xffff0000>>(hi-2)<<(hi-2)&0xffff0000
			}
			w.Distinct()
			wordCase(w, t, []Word{{c, b}}, EncUTF8, mem)
		},
	})
	fs = append(fs, mc.Family{
		Name: "codepoints", Bound: "char from every word 0..0x120000", N: 0x120000,
		Run: func(w *mc.W, i int64) {
			w.Distinct()
			wordCase(w, tChar, []Word{{CI32, uint64(i)}}, EncUTF8, mem)
		},
	})
	if thorough {
		for _, t := range []*T{tChar} {
			t := t
			fs = append(fs, mc.Family{
				Name: "all-" + kNames[t.K], Bound: "every 32-bit word in the lowest and highest 2^27", N: 1 << 28,
				Run: func(w *mc.W, i int64) {
					w.Distinct()
					if i >= 1<<27 {
						i = 1<<32 - 1 - (i - 1<<27)
					}
					wordCaseFast(w, t, uint64(i))
				},
			})
		}
	}
	// wrong kinds, missing values, extra values
	type mal struct {
		t    *T
		kind int // 0: prefix of length pos; 1: kind at pos replaced; 2: one extra
		pos  int
		with Core
		base int
	}
	var mals []mal
	for _, t := range ts {
		for base := 0; base < 2; base++ {
			for pos := range t.Flat() {
				mals = append(mals, mal{t, 0, pos, 0, base})
				for c := CI32; c <= CF64; c++ {
					if c != t.Flat()[pos] {
						mals = append(mals, mal{t, 1, pos, c, base})
					}
				}
			}
			mals = append(mals, mal{t, 2, 0, 0, base})
		}
	}
	fs = append(fs, mc.Family{
		Name: "kinds", Bound: "every type × every truncation of the core values, every position given each wrong kind, one extra value", N: int64(len(mals)),
		Run: func(w *mc.W, i int64) {
			m := mals[i]
			var ws []Word
			for k, c := range m.t.Flat() {
				x := Word{c, 0}
				if m.base == 1 && k == 0 && m.t.isVariant() {
					x.B = uint64(m.t.numCases() - 1)
				}
				ws = append(ws, x)
			}
			switch m.kind {
			case 0:
				ws = ws[:m.pos]
			case 1:
				ws[m.pos].C = m.with
			case 2:
				ws = append(ws, Word{CI32, 7})
			}
			w.State(fmt.Sprint(m.t, ws))
			wordCase(w, m.t, ws, EncUTF8, mem)
		},
	})
	// the same from memory
	var mts []*T
	for _, t := range valueTypes(tier) {
		if t.Size() > 0 && t.Size() <= 24 && !zeroSizedList(t) {
			mts = append(mts, t)
		}
	}
	alpha := []byte{0, 1, 2, 3, 0x08, 0x7f, 0x80, 0xd8, 0xff}
	type mspan struct {
		t     *T
		start int64
		full  bool
	}
	var ms []mspan
	var mn int64
	pairText := "all pairs of byte positions"
	if !thorough {
		pairText = "the first byte with every other and all neighbouring pairs"
	}
	for _, t := range mts {
		s := mspan{t: t, start: mn}
		if t.Size() <= 4 {
			s.full = true
			mn += mc.Pow(len(alpha), int(t.Size()))
		} else {
			mn += int64(t.Size()) * int64(t.Size()) * int64(len(alpha)*len(alpha)) * 2
		}
		ms = append(ms, s)
	}
	fs = append(fs, mc.Family{
		Name: "memory", Bound: fmt.Sprintf("%d types loaded from memory: all byte strings over a 9-byte alphabet up to 4 bytes, %s × alphabet above", len(mts), pairText), N: mn,
		Run: func(w *mc.W, i int64) {
			k := sort.Search(len(ms), func(k int) bool { return ms[k].start > i }) - 1
			s := ms[k]
			j := i - s.start
			img := make([]byte, s.t.Size())
			if s.full {
				for p := range img {
					img[p] = alpha[j%int64(len(alpha))]
					j /= int64(len(alpha))
				}
			} else {
				d := mc.Mixed(j, len(alpha), len(alpha), len(img), len(img), 2)
				if d[2] >= d[3] && !(d[2] == 0 && d[3] == 0 && d[1] == 0) {
					return
				}
				if !thorough && d[2] > 0 && d[3]-d[2] > 1 {
					return // quick: the first byte with any other, and neighbours
				}
				for p := range img {
					img[p] = byte(d[4])
				}
				img[d[2]] = alpha[d[0]]
				img[d[3]] = alpha[d[1]]
			}
			h := heapOf(w).h
			const base = 64
			h.reset(base+len(img), 0)
			copy(h.mem(), mem)
			copy(h.mem()[base:], img)
			for e := Enc(0); e < 3; e++ {
				if e != 0 && !needsMemory(s.t) {
					break
				}
				e := e
				w.Desc(func() string { return fmt.Sprintf("%s loaded from % x, %s", s.t, img, encNames[e]) })
				g := &guest{h.mem(), e}
				want, outcome := mLift(func() *V { return g.load(s.t, base) })
				r := doLoad(w, newContext(h, e), s.t, base)
				judgeLift(w, s.t, want, outcome, r, -1)
				w.Trace("mem " + kNames[s.t.K] + " " + outcome)
			}
			w.Distinct()
		},
	})
	return fs
}

// wordCaseFast is wordCase for scalars without touching memory.
func wordCaseFast(w *mc.W, t *T, b uint64) {
	w.Desc(func() string { return fmt.Sprintf("%s from 0x%x", t, b) })
	if w.Local == nil {
		heapOf(w)
	}
	cx := fastCx
	ws := []Word{{t.Flat()[0], b}}
	want, outcome := mLift(func() *V { return (&guest{}).liftFlat(t, &words{w: ws}) })
	r := doLiftFlat(w, cx, t, ws)
	judgeLift(w, t, want, outcome, r, 1)
	w.Trace(kNames[t.K] + " " + outcome)
}

var fastCx = newContext(newHeap(0, 0), EncUTF8)

// ---------------------------------------------------------------- C05

func interesting(m int) []uint32 {
	set := map[uint32]bool{}
	for i := 0; i <= m+10; i++ {
		set[uint32(i)] = true
	}
	for _, b := range []uint64{1 << 16, 1 << 28, 1 << 29, 1 << 30, 0x2aaaaaab, 0x55555555, 0x15555556, 1 << 31, 0xaaaaaaab, 3 << 30, 1<<32 - 8, 1<<32 - 16, 1<<32 - 32} {
		for d := -9; d <= 9; d++ {
			set[uint32(int64(b)+int64(d))] = true
		}
	}
	for i := 1; i <= m+9; i++ {
		set[uint32(-i)] = true // ends that wrap around
		set[uint32(-i)/2+1] = true
		set[uint32(1<<31-i)] = true
		set[uint32(1<<31)|uint32(i)] = true // tagged lengths
	}
	var out []uint32
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

func rangeMem(n int) []byte {
	m := make([]byte, n)
	for i := range m {
		// valid in every encoding: ASCII pairs
		m[i] = byte('a' + i%20)
		if i%2 == 1 {
			m[i] = 0
		}
	}
	return m
}

func c05(tier string) []mc.Family {
	thorough := tier == "thorough"
	sizes := []int{0, 1, 2, 7, 8, 9, 16, 24}
	if thorough {
		sizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 25, 31, 32, 33, 40}
	}
	elems := ready([]*T{tU8, tU16, tU32, tU64, tF64, tBool, record(tU8, tU16), record(tU16, tU8, tU16), record(tU32, tU8), record(tU64, tU32, tU64), option(tU64), tuple(tU8, tU8, tU8), enum(1), flags(40), record(tU8, tU8, tU8, tU8, tU8)})
	lists := make([]*T, len(elems))
	for i, e := range elems {
		lists[i] = list(e)
	}
	ready(lists)
	var fs []mc.Family
	for _, m := range sizes {
		m := m
		xs := interesting(m)
		mem := rangeMem(m)
		n := int64(len(xs))
		run := func(w *mc.W, t *T, enc Enc, p, l uint32) {
			w.Desc(func() string {
				return fmt.Sprintf("%s with pointer 0x%x length 0x%x, memory of %d bytes, %s", t, p, l, m, encNames[enc])
			})
			w.Distinct()
			lo := heapOf(w)
			if lo.h.size != m {
				lo.h.reset(m, 0)
			}
			copy(lo.h.mem(), mem)
			g := &guest{lo.h.mem(), enc}
			ws := []Word{{CI32, uint64(p)}, {CI32, uint64(l)}}
			want, outcome := mLift(func() *V { return g.liftFlat(t, &words{w: ws}) })
			r := doLiftFlat(w, newContext(lo.h, enc), t, ws)
			judgeLift(w, t, want, outcome, r, 2)
			w.Trace(kNames[t.K] + " " + outcome)
		}
		fs = append(fs, mc.Family{
			Name: fmt.Sprintf("strings-%d", m), Bound: fmt.Sprintf("memory of %d bytes × %d pointers × %d lengths × 3 encodings", m, n, n), N: n * n * 3,
			Run: func(w *mc.W, i int64) {
				d := mc.Mixed(i, 3, int(n), int(n))
				run(w, tStr, Enc(d[0]), xs[d[1]], xs[d[2]])
			},
		})
		fs = append(fs, mc.Family{
			Name: fmt.Sprintf("lists-%d", m), Bound: fmt.Sprintf("memory of %d bytes × %d pointers × %d lengths × %d element types", m, n, n, len(lists)), N: n * n * int64(len(lists)),
			Run: func(w *mc.W, i int64) {
				d := mc.Mixed(i, len(lists), int(n), int(n))
				run(w, lists[d[0]], EncUTF8, xs[d[1]], xs[d[2]])
			},
		})
		// pointers stored in memory, and tuples spilled to memory
		inner := ready([]*T{tStr, list(tU16), list(tU64), record(tU8, tStr)})
		fs = append(fs, mc.Family{
			Name: fmt.Sprintf("nested-%d", m), Bound: fmt.Sprintf("list of %d pointer-carrying types, pointer and length stored in a memory of 16+%d bytes", len(inner), m), N: n * n * int64(len(inner)),
			Run: func(w *mc.W, i int64) {
				d := mc.Mixed(i, len(inner), int(n), int(n))
				t := inner[d[0]]
				p, l := xs[d[1]], xs[d[2]]
				w.Desc(func() string {
					return fmt.Sprintf("list of one %s holding pointer 0x%x length 0x%x, memory of %d bytes", t, p, l, 16+m)
				})
				w.Distinct()
				lo := heapOf(w)
				lo.h2.reset(16+m, 0)
				copy(lo.h2.mem()[16:], mem)
				g := &guest{lo.h2.mem(), EncUTF8}
				off := uint32(0)
				if t.K == Record {
					off = 4
				}
				g.put(off, 4, uint64(p))
				g.put(off+4, 4, uint64(l))
				lt := innerLists[t]
				ws := []Word{{CI32, 0}, {CI32, 1}}
				want, outcome := mLift(func() *V { return g.liftFlat(lt, &words{w: ws}) })
				r := doLiftFlat(w, newContext(lo.h2, EncUTF8), lt, ws)
				judgeLift(w, lt, want, outcome, r, 2)
				w.Trace("nested " + outcome)
			},
		})
		for _, t := range inner {
			innerLists[t] = ready([]*T{list(t)})[0]
		}
		// spilled parameters
		sp := ready([]*T{tU8, tU16, tU32, tU64, record(tU8, tU32), tuple(tU64, tU64)})
		fs = append(fs, mc.Family{
			Name: fmt.Sprintf("spilled-%d", m), Bound: fmt.Sprintf("call with parameters spilled to memory: %d pointers × %d×%d parameter types, and results spilled by the callee", n, len(sp), len(sp)), N: n * int64(len(sp)*len(sp)) * 2,
			Run: func(w *mc.W, i int64) {
				d := mc.Mixed(i, len(sp), len(sp), int(n), 2)
				a, b, p := sp[d[0]], sp[d[1]], xs[d[2]]
				tt := tuple(a, b)
				w.Desc(func() string {
					return fmt.Sprintf("%s spilled at 0x%x, memory of %d bytes, as %s", tt, p, m, []string{"parameters", "results"}[d[3]])
				})
				w.Distinct()
				lo := heapOf(w)
				if lo.h.size != m {
					lo.h.reset(m, 0)
				}
				copy(lo.h.mem(), mem)
				g := &guest{lo.h.mem(), EncUTF8}
				ok := uint64(p)%uint64(tt.Align()) == 0 && uint64(p)+uint64(tt.Size()) <= uint64(m)
				var want *V
				if ok {
					want = g.load(tt, p)
				}
				var got []any
				called := false
				w.Step(1)
				var err error
				pn := mc.Safe(func() {
					if d[3] == 0 {
						_, err = aio.CanonLower(lo.h.options(EncUTF8), newInstance(), func(args []any) ([]any, types.PostReturnFunc, error) {
							called = true
							got = args
							return nil, func() {}, nil
						}, true, funcType([]*T{a, b}, nil), []any{coreValue(Word{CI32, uint64(p)})}, 1, 1)
						return
					}
					got, _, err = aio.CanonLift(lo.h.options(EncUTF8), newInstance(), func(any) (any, error) {
						return []any{coreValue(Word{CI32, uint64(p)})}, nil
					}, funcType(nil, []*T{a, b}), nil, 1, 1)
					called = err == nil
				})
				switch {
				case pn != nil:
					w.Fail("panic:spill", "panicked: %v", pn)
				case !ok:
					if called || err == nil {
						w.Fail("accepted:spill", "must be refused, got %v", got)
					}
					w.Trace("spill trap")
				case err != nil:
					w.Fail("refused:spill", "must be accepted: %v", err)
				default:
					if len(got) != 2 {
						w.Fail("wrong:spill", "%d values", len(got))
					} else if df := a.differ(want.L[0], got[0]) + b.differ(want.L[1], got[1]); df != "" {
						w.Fail("wrong:spill", "%s", df)
					}
					w.Trace("spill value")
				}
			},
		})
	}
	return append(fs, pages(tier))
}

var innerLists = map[*T]*T{}
