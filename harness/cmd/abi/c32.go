package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/mc"
)

// targets are the addresses a value may be told to go to in a memory of m
// bytes: all of it and a little more, and the corners of the address space.
func targets(m int) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	add := func(p uint32) {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	around := func(c uint32, below, above int) {
		for d := -below; d <= above; d++ {
			add(c + uint32(d))
		}
	}
	if m <= 256 {
		for p := 0; p <= m+24; p++ {
			add(uint32(p))
		}
	} else {
		around(uint32(m)/2, 9, 9)
		around(uint32(m), 72, 24)
	}
	around(0, 72, 9)
	for k := 8; k < 32; k++ {
		around(1<<k, 9, 9)
		around(1<<k+uint32(m), 9, 1)
	}
	return out
}

var toNames = []string{"stored", "results of a call", "results of a call with parameters", "results of a host call with a spilled parameter list"}

type targetCase struct {
	t *T
	v *V
}

func targetCases(tier string) []targetCase {
	ts := []*T{
		tBool, tU8, tS8, tU16, tS16, tU32, tS32, tU64, tS64, tF32, tF64, tChar, tStr,
		list(tU8), list(tU64), list(tStr), record(tU8, tU64), record(tU64, tU8), record(tU8, tU8, tU8), record(tU16, tU8),
		tuple(tU8, tU32, tU8), variant(tU8, tU64), variant(tU64, nil), variant(nil, tU16), option(tU32), option(tStr), flags(1), flags(9), flags(17), flags(33), flags(70),
		enum(3), enum(257), record(option(tU8), tU16), record(tStr, tU8),
		record(tU32, variant(tU64, tU8)), tuple(record(tU8, tU16), tU8),
	}
	level := 0
	if tier == "thorough" {
		level = 1
	}
	var out []targetCase
	for _, t := range ready(ts) {
		vs := vals(t, level)
		n := 2
		if tier == "thorough" {
			n = 6
		}
		// the first and the last value, and some between
		if len(vs) < n {
			n = len(vs)
		}
		for k := 0; k < n; k++ {
			j := 0
			if n > 1 {
				j = k * (len(vs) - 1) / (n - 1)
			}
			out = append(out, targetCase{t, vs[j]})
		}
	}
	return out
}

// c32: a value goes to an address given from outside, directly or as the place
// for a call's results.
func c32(tier string) []mc.Family {
	cases := targetCases(tier)
	pairsOf := make([]*T, len(cases))
	for i, c := range cases {
		pairsOf[i] = tuple(c.t, tU16)
	}
	ready(pairsOf)
	sizes := []int{0, 1, 2, 8, 9, 31, 64, 200}
	if tier == "thorough" {
		sizes = []int{0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200, 255, 256, 4096, 65536}
	} else {
		sizes = append(sizes, 65536)
	}
	var fs []mc.Family
	for _, m := range sizes {
		ps := targets(m)
		fs = append(fs, mc.Family{
			Name:  fmt.Sprintf("memory-%d", m),
			Bound: fmt.Sprintf("memory of %d bytes × %d addresses × %d values × %d ways of passing × out-of-line data from below or above", m, len(ps), len(cases), len(toNames)),
			N:     int64(len(cases) * len(ps) * len(toNames) * 2),
			Run: func(w *mc.W, i int64) {
				d := mc.Mixed(i, 2, len(toNames), len(cases), len(ps))
				c := cases[d[2]]
				toTarget(w, m, c.t, c.v, pairsOf[d[2]], ps[d[3]], d[1], d[0] == 1)
			},
		})
	}
	return fs
}

func toTarget(w *mc.W, m int, t *T, v *V, pair *T, p uint32, how int, top bool) {
	w.Desc(func() string {
		return fmt.Sprintf("%s = %s to 0x%x, %s, memory of %d bytes, data from above: %v", t, t.showV(v), p, toNames[how], m, top)
	})
	w.Distinct()
	h := heapOf(w).h
	if h.size == m && m > 256 {
		// put back only what the previous case can have changed
		restore(h, 0x5a)
	} else {
		h.reset(m, 0x5a)
	}
	outOfMem := false
	end := uint64(m)
	h.answer = func(align, size uint32) (uint32, error) {
		if top {
			if uint64(size) > end {
				outOfMem = true
				return 0, errNoMem
			}
			end = (end - uint64(size)) / uint64(align) * uint64(align)
			return uint32(end), nil
		}
		q := alignUp(uint64(h.next), uint64(align))
		if q+uint64(size) > uint64(m) {
			outOfMem = true
			return 0, errNoMem
		}
		h.next = uint32(q) + size
		return uint32(q), nil
	}
	what, val := t, v
	var r res
	switch how {
	case 0:
		r = doStore(w, newContext(h, EncUTF8), t, t.toHost(v), p)
	default:
		what, val = pair, vlist(v, num(0xa55a))
		var params []*T
		var args []any
		maxParams := 16
		switch how {
		case 2:
			params = []*T{tU32, tU64}
			args = []any{coreValue(Word{CI32, 7}), coreValue(Word{CI64, 9})}
		case 3:
			if m < 16 {
				w.Trace("no room for parameters")
				return
			}
			params = []*T{tU32, tU64}
			args = []any{coreValue(Word{CI32, 0})}
			maxParams = 1
		}
		args = append(args, coreValue(Word{CI32, uint64(p)}))
		w.Step(1)
		r.panic = mc.Safe(func() {
			_, r.err = aio.CanonLower(h.options(EncUTF8), newInstance(), func([]any) ([]any, types.PostReturnFunc, error) {
				return []any{t.toHost(v), tU16.toHost(num(0xa55a))}, func() {}, nil
			}, true, funcType(params, []*T{t, tU16}), args, maxParams, 1)
		})
	}
	size, align := uint64(what.Size()), uint64(what.Align())
	ok := uint64(p)%align == 0 && uint64(p)+size <= uint64(m)
	if r.panic != nil {
		w.Fail("panic", "panicked: %v", r.panic)
		return
	}
	if !h.poisoned() {
		w.Fail("beyond", "bytes beyond the end of memory changed")
		h.reset(m, 0x5a)
		return
	}
	check := func(from, to int) bool {
		for k := from; k < to && k < m; k++ {
			if h.backing[k] == 0x5a || uint64(k) >= uint64(p) && uint64(k) < uint64(p)+size {
				continue
			}
			in := false
			for _, b := range h.blocks {
				in = in || uint32(k) >= b.ptr && uint64(k) < uint64(b.ptr)+uint64(b.size)
			}
			if !in {
				w.Fail("stray", "byte %d changed, outside the place given and everything allocated", k)
				return false
			}
		}
		return true
	}
	if !check(0, m) {
		return
	}
	switch {
	case !ok && r.err == nil:
		w.Fail("accepted", "%d bytes aligned to %d at 0x%x in a memory of %d bytes must be refused", size, align, p, m)
	case !ok:
		w.Trace("refused")
	case outOfMem:
		if r.err == nil {
			w.Fail("failed allocation", "succeeded although the allocator failed")
		}
		w.Trace("no memory")
	case r.err != nil:
		w.Fail("refused", "the place is usable but the operation failed: %v", r.err)
	default:
		for _, b := range h.blocks {
			if b.size > 0 && uint64(b.ptr) < uint64(p)+size && uint64(p) < uint64(b.ptr)+uint64(b.size) {
				w.Trace("overlapping")
				return
			}
		}
		mt := &matcher{&guest{h.mem(), EncUTF8}, h}
		if d := mt.image(what, val, p); d != "" {
			w.Fail("contents", "%s", d)
		}
		w.Trace("stored")
	}
}

// restore brings a heap back to its fill without touching what still has it.
func restore(h *heap, fill byte) {
	for i, b := range h.backing[:h.size] {
		if b != fill {
			h.backing[i] = fill
		}
	}
	h.next = 0
	h.blocks = h.blocks[:0]
	h.answer = nil
}
