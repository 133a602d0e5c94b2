package main

import (
	"fmt"

	"verif/harness/mc"
)

// caseIndex maps a flat index to (type, value) pairs.
type pairs struct {
	ts    []*T
	vs    [][]*V
	start []int64
	n     int64
}

func newPairs(ts []*T, level int) *pairs {
	p := &pairs{ts: ready(ts)}
	for _, t := range p.ts {
		v := vals(t, level)
		p.vs = append(p.vs, v)
		p.start = append(p.start, p.n)
		p.n += int64(len(v))
	}
	return p
}

func (p *pairs) at(i int64) (*T, *V) {
	lo, hi := 0, len(p.start)-1
	for lo < hi {
		m := (lo + hi + 1) / 2
		if p.start[m] <= i {
			lo = m
		} else {
			hi = m - 1
		}
	}
	return p.ts[lo], p.vs[lo][i-p.start[lo]]
}

type local struct {
	h, h2 *heap
}

func heapOf(w *mc.W) *local {
	if w.Local == nil {
		w.Local = &local{newHeap(4096, 0), newHeap(4096, 0)}
	}
	return w.Local.(*local)
}

// flatCase lowers v, compares with the reference, lifts it back.
func flatCase(w *mc.W, t *T, v *V, enc Enc) {
	w.Desc(func() string { return fmt.Sprintf("%s = %s, %s", t, t.showV(v), encNames[enc]) })
	h := heapOf(w).h
	h.reset(1024, 0x5a)
	cx := newContext(h, enc)
	r := doLowerFlat(w, cx, t, t.toHost(v))
	if r.panic != nil || r.err != nil || r.v != nil {
		w.Fail("lower", "lowering %s of %s: %s", t.showV(v), t, r)
		w.Trace("failed")
		return
	}
	m := &matcher{&guest{h.mem(), enc}, h}
	if d := m.flat(t, v, r.words); d != "" {
		w.Fail("lowered", "lowering %s of %s gave %s: %s", t.showV(v), t, showWords(r.words), d)
	}
	if !h.poisoned() {
		w.Fail("overrun", "lowering wrote past the end of memory")
	}
	back := doLiftFlat(w, cx, t, r.words)
	if back.panic != nil || back.err != nil {
		w.Fail("lift", "lifting %s back: %s", showWords(r.words), back)
		return
	}
	if d := t.differ(canonV(t, v), back.v); d != "" {
		w.Fail("roundtrip", "%s of %s came back different: %s", t.showV(v), t, d)
	}
	if back.used != len(r.words) {
		w.Fail("consumed", "lifting consumed %d of %d core values", back.used, len(r.words))
	}
	// lift core values produced by the model with its own placement
	h.reset(1024, 0xa5)
	b := &builder{g: &guest{h.mem(), enc}, next: 8, gap: 3}
	ws := b.lowerFlat(t, canonV(t, v))
	back = doLiftFlat(w, newContext(h, enc), t, ws)
	if back.panic != nil || back.err != nil {
		w.Fail("lift-model", "lifting %s: %s", showWords(ws), back)
	} else if d := t.differ(canonV(t, v), back.v); d != "" {
		w.Fail("lifted-model", "lifting %s of %s: %s", showWords(ws), t, d)
	} else if back.used != len(ws) {
		w.Fail("consumed-model", "lifting consumed %d of %d core values", back.used, len(ws))
	}
	w.Trace(fmt.Sprintf("%s/%d words", kNames[t.K], min(len(r.words), 20)))
}

func needsMemory(t *T) bool {
	if t == nil {
		return false
	}
	if t.K == Str || t.K == List {
		return true
	}
	for _, s := range t.Sub {
		if needsMemory(s) {
			return true
		}
	}
	return false
}

func c02(tier string) []mc.Family {
	p := newPairs(valueTypes(tier), 0)
	fs := []mc.Family{{
		Name: "values", Bound: fmt.Sprintf("%d types × their enumerated values × string encodings", len(p.ts)), N: p.n * 3,
		Run: func(w *mc.W, i int64) {
			t, v := p.at(i / 3)
			e := Enc(i % 3)
			if e != 0 && !needsMemory(t) {
				return
			}
			w.State(t.String() + t.showV(v) + encNames[e])
			flatCase(w, t, v, e)
		},
	}}
	// every code point
	opts := []*T{tChar, variant(tChar, tU64), option(tChar)}
	ready(opts)
	fs = append(fs, mc.Family{Name: "chars", Bound: "every Unicode scalar value as char, as payload joined with i64, and in an option", N: 0x110000,
		Run: func(w *mc.W, i int64) {
			if i >= 0xd800 && i <= 0xdfff {
				return
			}
			w.Distinct()
			flatCase(w, tChar, &V{B: uint64(i)}, EncUTF8)
			flatCase(w, opts[1], &V{B: 0, L: []*V{{B: uint64(i)}}}, EncUTF8)
			flatCase(w, opts[2], &V{B: 1, L: []*V{{B: uint64(i)}}}, EncUTF8)
		}})
	// 16-bit integers joined with every other kind
	joins := []*T{variant(tU16, tU64), variant(tS16, tU64), variant(tS16, tF32), variant(tS16, tF64), variant(tS8, tU64), variant(tS8, tF32), variant(tF32, tS16)}
	ready(joins)
	fs = append(fs, mc.Family{Name: "joined16", Bound: "every 16-bit value as payload of variants whose core value is joined with i64, f32, f64", N: int64(len(joins)) << 16,
		Run: func(w *mc.W, i int64) {
			t := joins[i>>16]
			x := uint64(i & 0xffff)
			ci := uint64(0)
			if t.Sub[0].K == F32 {
				ci = 1
			}
			if bits, _ := intBits(t.Sub[ci].K); bits == 8 {
				x &= 0xff
			}
			w.State(fmt.Sprint(t, x))
			flatCase(w, t, &V{B: ci, L: []*V{{B: x}}}, EncUTF8)
		}})
	return fs
}

// memCase stores v, compares the image, checks nothing else changed, loads it.
func memCase(w *mc.W, t *T, v *V, enc Enc, base uint32, fill byte) {
	w.Desc(func() string {
		return fmt.Sprintf("%s = %s at %d, %s, memory filled with 0x%02x", t, t.showV(v), base, encNames[enc], fill)
	})
	l := heapOf(w)
	h := l.h
	const size = 1024
	h.reset(size, fill)
	// a pattern that differs from byte to byte shows moved bytes too
	if fill == 0x5a {
		for i := range h.mem() {
			h.mem()[i] = byte(i*7 + 3)
		}
	}
	l.h2.reset(size, 0)
	before := l.h2.mem()
	copy(before, h.mem())
	h.next = base + t.Size() + 5
	cx := newContext(h, enc)
	r := doStore(w, cx, t, t.toHost(v), base)
	if r.panic != nil || r.err != nil {
		w.Fail("store", "storing %s of %s at %d: %s", t.showV(v), t, base, r)
		w.Trace("failed")
		return
	}
	m := &matcher{&guest{h.mem(), enc}, h}
	if d := m.image(t, v, base); d != "" {
		w.Fail("image", "image of %s of %s: %s", t.showV(v), t, d)
	}
	own := []block{{base, t.Size(), 1}}
	own = append(own, h.blocks...)
	for i, b := range h.mem() {
		if b == before[i] {
			continue
		}
		inside := false
		for _, o := range own {
			if uint32(i) >= o.ptr && uint32(i) < o.ptr+o.size {
				inside = true
				break
			}
		}
		if !inside {
			w.Fail("stray", "storing %s of %s at %d changed byte %d", t.showV(v), t, base, i)
			break
		}
	}
	if !h.poisoned() {
		w.Fail("overrun", "storing wrote past the end of memory")
	}
	back := doLoad(w, cx, t, base)
	if back.panic != nil || back.err != nil {
		w.Fail("load", "loading %s back: %s", t, back)
	} else if d := t.differ(canonV(t, v), back.v); d != "" {
		w.Fail("roundtrip", "%s of %s came back different: %s", t.showV(v), t, d)
	}
	// images laid out by the model
	for mode := 0; mode < 3; mode++ {
		h.reset(size, fill)
		b := &builder{g: &guest{h.mem(), enc}, next: base + t.Size(), gap: 0}
		switch mode {
		case 1:
			b = &builder{g: b.g, next: size, gap: 1, down: true}
		case 2:
			b.gap = 5
			b.next += 3
		}
		b.store(t, canonV(t, v), base)
		if mode == 1 && b.next < base+t.Size() {
			continue
		}
		back := doLoad(w, newContext(h, enc), t, base)
		if back.panic != nil || back.err != nil {
			w.Fail("load-model", "loading a model image of %s of %s (placement %d): %s", t.showV(v), t, mode, back)
		} else if d := t.differ(canonV(t, v), back.v); d != "" {
			w.Fail("loaded-model", "loading a model image of %s of %s (placement %d): %s", t.showV(v), t, mode, d)
		}
		if !needsMemory(t) {
			break
		}
	}
	w.Trace(fmt.Sprintf("%s/%d bytes", kNames[t.K], min(int(t.Size()), 64)))
}

func c03(tier string) []mc.Family {
	p := newPairs(valueTypes(tier), 0)
	var fs []mc.Family
	bases := []uint32{0, 1}
	fills := []byte{0x5a, 0xff}
	if tier == "thorough" {
		bases = []uint32{0, 1, 2, 5}
		fills = []byte{0x5a, 0xff, 0}
	}
	n := int64(3 * len(bases) * len(fills))
	fs = append(fs, mc.Family{
		Name: "values", Bound: fmt.Sprintf("%d types × values × 3 encodings × %d base addresses × %d memory contents, plus 3 foreign placements each", len(p.ts), len(bases), len(fills)), N: p.n * n,
		Run: func(w *mc.W, i int64) {
			t, v := p.at(i / n)
			d := mc.Mixed(i%n, 3, len(bases), len(fills))
			e := Enc(d[0])
			if e != 0 && !needsMemory(t) {
				return
			}
			base := bases[d[1]] * t.Align()
			if d[1] > 0 && fills[d[2]] == 0xff && tier != "thorough" {
				return
			}
			w.State(t.String() + t.showV(v) + fmt.Sprint(d))
			memCase(w, t, v, e, base, fills[d[2]])
		},
	})
	fs = append(fs, mc.Family{Name: "chars", Bound: "every Unicode scalar value in a record with a leading byte", N: 0x110000,
		Run: func(w *mc.W, i int64) {
			if i >= 0xd800 && i <= 0xdfff {
				return
			}
			w.Distinct()
			memCase(w, charRec, &V{L: []*V{{B: 7}, {B: uint64(i)}}}, EncUTF8, 4, 0xff)
		}})
	return append(fs, longLists())
}

var charRec = ready([]*T{record(tU8, tChar)})[0]
