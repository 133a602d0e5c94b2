package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/mc"
)

const numAnswers = 12

var answerNames = []string{"bump", "top", "odd", "past end", "at end", "last unit", "wraps to 0", "0xffffffff", "error", "zero", "grow", "2^31"}

// allocAnswer is the guest allocator's answer number a to a request.
func allocAnswer(h *heap, a int, align, size uint32) (p uint32, err error) {
	m := uint64(h.size)
	switch a {
	case 0:
		p = uint32(alignUp(uint64(h.next), uint64(align)))
		h.next = p + size
		return p, nil
	case 1:
		if uint64(size) > m {
			return 0, nil
		}
		return uint32((m - uint64(size)) / uint64(align) * uint64(align)), nil
	case 2:
		p = uint32(alignUp(uint64(h.next), uint64(align))) + 1
		h.next = p + size
		return p, nil
	case 3:
		if uint64(size) > m {
			return 0, nil
		}
		return uint32(alignUp(m-uint64(size)+1, uint64(align))), nil
	case 4:
		return uint32(alignUp(m, uint64(align))), nil
	case 5:
		return -align, nil
	case 6:
		return uint32(-int64(size)) / align * align, nil
	case 7:
		return 0xffffffff, nil
	case 8:
		return 0, errNoMem
	case 9:
		return 0, nil
	case 10:
		h.grow(int(size) + 16)
		return uint32(alignUp(m, uint64(align))), nil
	}
	return 0x80000000, nil
}

type allocOp struct {
	t    *T
	v    *V
	enc  Enc
	how  int // 0 flat, 1 store, 2 as spilled parameters, 3 as spilled results, 4 as flat parameters, 5 as flat results
	name string
	reqs int
}

func allocRequests(t *T, v *V) int {
	switch t.K {
	case Str:
		return 1
	case List:
		n := 1
		for _, x := range v.L {
			n += allocRequests(t.Sub[0], x)
		}
		return n
	}
	n := 0
	if t.isRecord() {
		for i, x := range v.L {
			n += allocRequests(t.Sub[i], x)
		}
	} else if t.isVariant() && len(v.L) > 0 {
		n = allocRequests(t.cases()[v.B], v.L[0])
	}
	return n
}

func str(s string) *V      { return &V{S: s} }
func vlist(vs ...*V) *V    { return &V{L: vs} }
func num(b uint64) *V      { return &V{B: b} }
func cased(i int, v *V) *V { return &V{B: uint64(i), L: []*V{v}} }

func allocOps() []allocOp {
	type tv struct {
		t *T
		v *V
	}
	set := []tv{
		{tStr, str("abc")}, {tStr, str("é😀x")}, {tStr, str("")}, {tStr, str("a")},
		{list(tU8), vlist(num(1), num(2), num(3))}, {list(tU16), vlist(num(0x1234))}, {list(tU64), vlist(num(1<<40), num(2))}, {list(tU8), vlist()},
		{list(record(tU8, tU32)), vlist(vlist(num(1), num(2)), vlist(num(3), num(4)))},
		{list(tStr), vlist(str("xy"), str("é"))}, {list(list(tU16)), vlist(vlist(num(1), num(2)))},
		{record(tStr, list(tU32)), vlist(str("hey"), vlist(num(7), num(8)))},
		{variant(tU8, tStr), cased(1, str("pay"))}, {option(list(tU64)), cased(1, vlist(num(3)))},
		{tuple(tU8, tStr, tU16), vlist(num(1), str("q"), num(2))},
	}
	var out []allocOp
	for _, s := range set {
		ready([]*T{s.t})
		for e := Enc(0); e < 3; e++ {
			for how := 0; how < 6; how++ {
				n := allocRequests(s.t, s.v)
				if how == 2 || how == 3 {
					n++
				}
				out = append(out, allocOp{s.t, s.v, e, how, "", n})
			}
		}
	}
	return out
}

func c06(tier string) []mc.Family {
	ops := allocOps()
	var fs []mc.Family
	sizes := []int{64, 40}
	if tier == "thorough" {
		sizes = []int{64, 48, 40, 33, 24, 17, 128}
	}
	for _, m := range sizes {
		m := m
		for depth := 1; depth <= 4; depth++ {
			var sel []allocOp
			for _, o := range ops {
				if o.reqs == depth {
					sel = append(sel, o)
				}
			}
			if len(sel) == 0 {
				continue
			}
			depth := depth
			n := mc.Pow(numAnswers, depth)
			fs = append(fs, mc.Family{
				Name: fmt.Sprintf("answers%d-mem%d", depth, m), Bound: fmt.Sprintf("%d lowering operations needing %d allocations in a %d-byte memory × all sequences of %d allocator answers", len(sel), depth, m, numAnswers), N: int64(len(sel)) * n,
				Run: func(w *mc.W, i int64) {
					op := sel[i/n]
					seq := make([]int, depth)
					for k, j := 0, i%n; k < depth; k++ {
						seq[k] = int(j % numAnswers)
						j /= numAnswers
					}
					allocCase(w, op, seq, m)
				},
			})
		}
	}
	return append(append(fs, hugeLists()), extraC06(sizes)...)
}

func allocCase(w *mc.W, op allocOp, seq []int, m int) {
	w.Desc(func() string {
		s := ""
		for _, a := range seq {
			s += answerNames[a] + "; "
		}
		return fmt.Sprintf("%s %s = %s (%s) in %d bytes, allocator answers: %s", []string{"lower", "store", "pass", "return", "pass flat", "return flat"}[op.how], op.t, op.t.showV(op.v), encNames[op.enc], m, s)
	})
	w.Distinct()
	h := newHeap(m, 0x33)
	h.next = 16
	base := uint32(0)
	var before []byte
	used, bad, failed, zeroOdd := 0, "", false, false
	h.answer = func(align, size uint32) (uint32, error) {
		a := 0
		if used < len(seq) {
			a = seq[used]
		}
		used++
		p, err := allocAnswer(h, a, align, size)
		if err != nil {
			failed = true
			return 0, err
		}
		in := uint64(p)+uint64(size) <= uint64(h.size) && p%align == 0
		if !in {
			if size == 0 {
				zeroOdd = true
			} else if bad == "" {
				bad = fmt.Sprintf("request %d (align %d, size %d) answered 0x%x with %d bytes of memory", used, align, size, p, h.size)
			}
		}
		return p, nil
	}
	before = append([]byte{}, h.mem()...)
	opts := h.options(op.enc)
	cx := &types.CallContext{Options: opts, Instance: newInstance()}
	hv := op.t.toHost(op.v)
	var r res
	var own block
	outPtr := uint32(0)
	switch op.how {
	case 0:
		r = doLowerFlat(w, cx, op.t, hv)
	case 1:
		own = block{base, op.t.Size(), 1}
		r = doStore(w, cx, op.t, hv, base)
	case 2:
		w.Step(1)
		r.panic = mc.Safe(func() {
			_, _, r.err = aio.CanonLift(opts, newInstance(), func(flat any) (any, error) {
				if fl, ok := flat.([]any); ok && len(fl) == 1 {
					if x, ok := wordOf(fl[0]); ok {
						r.words = []Word{x}
					}
				}
				return []any{}, nil
			}, funcType([]*T{op.t, tU64}, nil), []any{hv, uint64(0x1122334455667788)}, 0, 0)
		})
	case 3:
		// the guest chooses the return area; its choice is the first answer
		w.Step(1)
		tt := tuple(op.t, tU64)
		p, err := h.answer(tt.Align(), tt.Size())
		if err != nil {
			return
		}
		outPtr = p
		own = block{p, tt.Size(), tt.Align()}
		before = append([]byte{}, h.mem()...)
		r.panic = mc.Safe(func() {
			_, r.err = aio.CanonLower(opts, newInstance(), func([]any) ([]any, types.PostReturnFunc, error) {
				return []any{hv, uint64(0x1122334455667788)}, func() {}, nil
			}, true, funcType(nil, []*T{op.t, tU64}), []any{coreValue(Word{CI32, uint64(p)})}, 0, 0)
		})
	}
	if op.how == 4 || op.how == 5 {
		// one more value follows, so that a dropped one is noticed
		w.Step(1)
		var flat []any
		ts, vs := []*T{op.t, tU64}, []any{hv, uint64(0x1122334455667788)}
		r.panic = mc.Safe(func() {
			if op.how == 4 {
				_, _, r.err = aio.CanonLift(opts, newInstance(), func(x any) (any, error) {
					flat, _ = x.([]any)
					return []any{}, nil
				}, funcType(ts, nil), vs, 16, 16)
				return
			}
			flat, r.err = aio.CanonLower(opts, newInstance(), func([]any) ([]any, types.PostReturnFunc, error) {
				return vs, func() {}, nil
			}, true, funcType(nil, ts), []any{}, 16, 16)
		})
		if ws, ok := anyWords(flat); ok {
			r.words = ws
		}
	}
	if r.panic != nil {
		w.Fail("panic", "panicked: %v", r.panic)
		w.Trace("panic")
		return
	}
	// which bytes may have changed
	after := h.mem()
	for i, b := range after {
		var was byte
		if i < len(before) {
			was = before[i]
		}
		if b == was {
			continue
		}
		inside := uint64(i) >= uint64(own.ptr) && uint64(i) < uint64(own.ptr)+uint64(own.size)
		for _, blk := range h.blocks {
			if uint64(i) >= uint64(blk.ptr) && uint64(i) < uint64(blk.ptr)+uint64(blk.size) {
				inside = true
			}
		}
		if !inside {
			w.Fail("stray", "byte %d changed outside every allocation", i)
			break
		}
	}
	if !h.poisoned() {
		w.Fail("overrun", "wrote past the end of memory")
	}
	switch {
	case failed:
		if r.err == nil {
			w.Fail("ignored-failure", "the allocator failed but the operation succeeded")
		}
		w.Trace("allocator failed")
		return
	case bad != "":
		if r.err == nil {
			w.Fail("accepted", "must be refused: %s", bad)
		}
		w.Trace("bad answer")
		return
	case zeroOdd:
		w.Trace("odd address for an empty block")
		return
	case r.err != nil:
		w.Fail("refused", "all answers are usable but the operation failed: %v", r.err)
		return
	}
	// ranges overlapping by the allocator's choice spoil the contents
	all := append([]block{}, h.blocks...)
	if own.size > 0 {
		all = append(all, own)
	}
	for i, a := range all {
		for _, b := range all[:i] {
			if a.size > 0 && b.size > 0 && a.ptr < b.ptr+b.size && b.ptr < a.ptr+a.size {
				w.Trace("overlapping")
				return
			}
		}
	}
	mt := &matcher{&guest{h.mem(), op.enc}, h}
	d := ""
	switch op.how {
	case 0:
		d = mt.flat(op.t, op.v, r.words)
	case 1:
		d = mt.image(op.t, op.v, base)
	case 2:
		if len(r.words) != 1 {
			d = "the spilled parameters were not passed as one pointer"
		} else {
			tt := tuple(op.t, tU64)
			p := uint32(r.words[0].B)
			if !h.covers(p, tt.Size(), tt.Align()) {
				d = "the spilled parameters are not in an allocated block"
			} else {
				d = mt.image(tt, vlist(op.v, num(0x1122334455667788)), p)
			}
		}
	case 4, 5:
		d = mt.flat(tuple(op.t, tU64), vlist(op.v, num(0x1122334455667788)), r.words)
	case 3:
		d = mt.image(tuple(op.t, tU64), vlist(op.v, num(0x1122334455667788)), outPtr)
	}
	if d != "" {
		w.Fail("contents", "%s", d)
	}
	w.Trace("stored")
}

// hugeLists: lists whose byte size does not fit 32 bits.
func hugeLists() mc.Family {
	fields := []int{512, 1024, 8192}
	var ts []*T
	for _, n := range fields {
		ts = append(ts, list(record(repeat(tU64, n)...)))
	}
	ready(ts)
	extra := []int{-1, 0, 1, 2, 3}
	return mc.Family{
		Name: "huge", Bound: fmt.Sprintf("lists of records of %v 64-bit fields, %v elements more than fill the address space, lowered flat and into memory", fields, extra), N: int64(len(ts) * len(extra) * 2), Heavy: true,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, 2, len(extra), len(ts))
			t := ts[d[2]]
			size := int(t.Sub[0].Size())
			n := 1<<32/size + extra[d[1]]
			w.Desc(func() string {
				return fmt.Sprintf("%d elements of %d bytes %s", n, size, []string{"lowered", "stored"}[d[0]])
			})
			w.Distinct()
			one := t.Sub[0].toHost(valueNo(t.Sub[0], 1))
			all := make([]any, n)
			for k := range all {
				all[k] = one
			}
			h := newHeap(4*size, 0x33)
			h.next = 16
			cx := newContext(h, EncUTF8)
			var r res
			if d[0] == 0 {
				r = doLowerFlat(w, cx, t, all)
			} else {
				r = doStore(w, cx, t, all, 0)
			}
			switch {
			case r.panic != nil:
				w.Fail("panic", "panicked: %v", r.panic)
			case r.err == nil:
				w.Fail("accepted", "a list larger than memory was lowered")
			}
			for k, b := range h.mem() {
				inside := b == 0x33 || d[0] == 1 && k < 8
				for _, blk := range h.blocks {
					inside = inside || uint32(k) >= blk.ptr && uint32(k) < blk.ptr+blk.size
				}
				if !inside {
					w.Fail("stray", "byte %d changed outside every allocation", k)
					break
				}
			}
			w.Trace("huge")
		},
	}
}
