package main

import (
	"fmt"

	"verif/harness/mc"
)

// valueNo is a value of t that differs from its neighbours.
func valueNo(t *T, i int) *V {
	switch {
	case t.K == Bool:
		return num(uint64(i>>1&1 ^ i&1))
	case t.K == Char:
		return num(uint64('a' + i%26000))
	case t.K == F32:
		return num(uint64(0x3f800000 + i))
	case t.K == F64:
		return num(uint64(0x3ff0000000000000 + i))
	case t.K == Str:
		return str([]string{"", "x", "é", "long", "日本"}[i%5] + fmt.Sprint(i%7))
	case t.K == List:
		v := &V{}
		for k := 0; k < i%4; k++ {
			v.L = append(v.L, valueNo(t.Sub[0], i+k))
		}
		return v
	case t.K == Flags:
		v := &V{}
		for k := 0; k < t.N; k++ {
			v.L = append(v.L, num(uint64(i>>k&1)))
		}
		return v
	case t.K == Enum:
		return num(uint64(i % t.N))
	case t.isRecord():
		v := &V{}
		for k, s := range t.Sub {
			v.L = append(v.L, valueNo(s, i*len(t.Sub)+k))
		}
		return v
	case t.isVariant():
		cs := t.cases()
		c := i % len(cs)
		if cs[c] == nil {
			return num(uint64(c))
		}
		return cased(c, valueNo(cs[c], i))
	}
	bits, _ := intBits(t.K)
	x := uint64(i)*0x9E3779B97F4A7C15 + uint64(i)
	if bits < 64 {
		x &= 1<<bits - 1
	}
	return num(x)
}

// longLists: lists long enough that every count and offset needs more than one
// and more than two bytes.
func longLists() mc.Family {
	elems := ready([]*T{tU8, tU16, tU32, tU64, tS16, tF32, tF64, tBool, tChar, record(tU8, tU32), record(tU64, tU8), tuple(tU8, tU8, tU8), option(tU16), variant(nil, tF64, tU8), enum(3), flags(9), flags(65), tStr, list(tU8), record(tU8, tStr)})
	lists := make([]*T, len(elems))
	for i, e := range elems {
		lists[i] = list(e)
	}
	ready(lists)
	sizes := []int{100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000}
	return mc.Family{
		Name: "long-lists", Bound: fmt.Sprintf("lists of %v elements of %d types, all elements different from their neighbours (strings up to 4,200, flags up to 17,000), stored and passed as core values", sizes, len(elems)), N: int64(2 * len(sizes) * len(lists)), Heavy: true,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, 2, len(sizes), len(lists))
			t, n := lists[d[2]], sizes[d[1]]
			if needsMemory(t.Sub[0]) && n > 4200 || t.Sub[0].K == Flags && n > 17000 {
				return
			}
			w.Desc(func() string {
				return fmt.Sprintf("%s of %d elements %s", t, n, []string{"stored", "as core values"}[d[0]])
			})
			w.Distinct()
			v := &V{}
			for k := 0; k < n; k++ {
				v.L = append(v.L, valueNo(t.Sub[0], k))
			}
			h := newHeap(n*int(t.Sub[0].Size())*2+4096, 0x5a)
			if needsMemory(t.Sub[0]) {
				h = newHeap(n*64+4096, 0x5a)
			}
			base := uint32(8)
			h.next = 16
			cx := newContext(h, EncUTF8)
			m := func() *matcher { return &matcher{&guest{h.mem(), EncUTF8}, h} }
			var r, back res
			diff := ""
			if d[0] == 0 {
				if r = doStore(w, cx, t, t.toHost(v), base); r.panic == nil && r.err == nil {
					diff = m().image(t, v, base)
					back = doLoad(w, cx, t, base)
				}
			} else if r = doLowerFlat(w, cx, t, t.toHost(v)); r.panic == nil && r.err == nil {
				diff = m().flat(t, v, r.words)
				if diff == "" {
					back = doLiftFlat(w, cx, t, r.words)
				}
			}
			switch {
			case r.panic != nil || r.err != nil:
				w.Fail("store", "storing: %s", r)
			case diff != "":
				w.Fail("image", "image: %s", diff)
			case back.panic != nil || back.err != nil:
				w.Fail("load", "loading back: %s", back)
			default:
				if df := t.differ(canonV(t, v), back.v); df != "" {
					w.Fail("roundtrip", "came back different: %s", df)
				}
			}
			w.Trace("long list")
		},
	}
}

// pages: memories of one and two WebAssembly pages, with pointers and lengths
// around every end.
func pages(tier string) mc.Family {
	elems := []*T{nil, tU8, tU16, tU32, tU64, tF64, tBool, record(tU8, tU16), record(tU64, tU32, tU64), option(tU64), tuple(tU8, tU8, tU8), flags(40)}
	for i, e := range elems[1:] {
		elems[i+1] = list(e)
	}
	elems[0] = tStr
	ready(elems)
	const page = 65536
	sizes := []int{page, page + 8}
	if tier == "thorough" {
		sizes = []int{page - 8, page, page + 8, page + 256, 2 * page, 2*page + 16}
	}
	rel := []int{-4096, -264, -256, -130, -128, -66, -64, -33, -32, -24, -17, -16, -12, -9, -8, -7, -6, -4, -3, -2, -1, 0, 1, 2, 4, 8, 16, 256}
	mems := map[int][]byte{}
	for _, m := range sizes {
		mems[m] = rangeMem(m)
	}
	// the length is chosen so that the end lies at the pointer plus this many
	// elements, or relative to the end of memory
	lens := []int64{0, 1, 2, 3, 8, 16, 255, 256, 257}
	over := []int64{-2, -1, 0, 1, 2, 256, page, 1 << 28, 1 << 29, 1 << 31}
	nl := len(lens) + len(over)
	return mc.Family{
		Name: "pages", Bound: fmt.Sprintf("memories of %v bytes: %d pointers around 0, one page and the end × %d lengths around the end × strings in 3 encodings and %d list types", sizes, 3*len(rel), nl, len(elems)-1), N: int64(len(sizes) * 3 * len(rel) * nl * (len(elems) + 2)), Heavy: true,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, len(elems)+2, nl, len(rel), 3, len(sizes))
			m := sizes[d[4]]
			p := uint32([]int{4096, page, m}[d[3]] + rel[d[2]])
			e := Enc(0)
			ti := d[0]
			if ti >= len(elems) {
				ti, e = 0, Enc(ti-len(elems)+1)
			}
			t := elems[ti]
			size := int64(1)
			if t.K == List {
				size = int64(t.Sub[0].Size())
			} else if e == EncUTF16 {
				size = 2
			}
			var l uint32
			if d[1] < len(lens) {
				l = uint32(lens[d[1]])
			} else {
				l = uint32((int64(m)-int64(p))/size + over[d[1]-len(lens)])
			}
			w.Desc(func() string {
				return fmt.Sprintf("%s with pointer 0x%x length 0x%x, memory of %d bytes, %s", t, p, l, m, encNames[e])
			})
			w.Distinct()
			lo := heapOf(w)
			if lo.h.size != m {
				lo.h.reset(m, 0)
				copy(lo.h.mem(), mems[m])
			}
			g := &guest{lo.h.mem(), e}
			ws := []Word{{CI32, uint64(p)}, {CI32, uint64(l)}}
			want, outcome := mLift(func() *V { return g.liftFlat(t, &words{w: ws}) })
			r := doLiftFlat(w, newContext(lo.h, e), t, ws)
			judgeLift(w, t, want, outcome, r, 2)
			w.Trace("page " + kNames[t.K] + " " + outcome)
		},
	}
}
