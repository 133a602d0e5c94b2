package main

import (
	"bytes"
	"fmt"
	"math"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/mc"
)

// C29: what the host holds and what the guest holds have nothing in common.

type junk struct{}

// ruin overwrites everything reachable in a host value.
func ruin(x any) {
	switch x := x.(type) {
	case map[string]any:
		for k, v := range x {
			ruin(v)
			x[k] = junk{}
		}
		x["junk"] = junk{}
	case []any:
		for i, v := range x {
			ruin(v)
			x[i] = junk{}
		}
		if cap(x) > len(x) {
			x = append(x, junk{})
		}
	}
}

// equalHost compares host values, floats by their bits.
func equalHost(a, b any) bool {
	switch a := a.(type) {
	case map[string]any:
		m, ok := b.(map[string]any)
		if !ok || len(a) != len(m) {
			return false
		}
		for k, v := range a {
			if x, ok := m[k]; !ok || !equalHost(v, x) {
				return false
			}
		}
		return true
	case []any:
		l, ok := b.([]any)
		if !ok || len(a) != len(l) {
			return false
		}
		for i, v := range a {
			if !equalHost(v, l[i]) {
				return false
			}
		}
		return true
	case float32:
		f, ok := b.(float32)
		return ok && math.Float32bits(a) == math.Float32bits(f)
	case float64:
		f, ok := b.(float64)
		return ok && math.Float64bits(a) == math.Float64bits(f)
	}
	return a == b
}

func scribble(h *heap, b byte) {
	m := h.mem()
	for i := range m {
		m[i] = b
	}
}

type copies struct {
	w   *mc.W
	t   *T
	enc Enc
}

func (c *copies) same(sig, what string, v *V, got any) {
	if d := c.t.differ(v, got); d != "" {
		c.w.Fail(sig, "%s changed %s of %s: %s", what, c.t.showV(v), c.t, d)
	}
}

// lowered performs one lowering of v in one of four ways, with an allocator
// that fails at call number fails (never if negative).
func (c *copies) lowered(v *V, how, fails int) (calls int, ok bool) {
	h := heapOf(c.w).h
	h.reset(1024, 0x5a)
	cx := newContext(h, c.enc)
	in := c.t.host()
	re := cx.Options.Realloc
	cx.Options.Realloc = func(a, b, al, s uint32) (uint32, error) {
		calls++
		if calls-1 == fails {
			return 0, errNoMem
		}
		return re(a, b, al, s)
	}
	hv := c.t.toHost(v)
	var err error
	args := []any{hv}
	c.w.Step(1)
	pan := mc.Safe(func() {
		switch how {
		case 0:
			_, err = aio.LowerFlat(cx, hv, in)
		case 1:
			h.next = 8 + c.t.Size()
			err = aio.Store(cx, hv, in, 8/c.t.Align()*c.t.Align())
		case 2, 3:
			ft := types.NewFuncType([]types.Parameter{{Type: in}}, nil)
			max := 1 << 20
			if how == 3 {
				max = 0
			}
			var post types.PostReturnFunc
			_, post, err = aio.CanonLift(cx.Options, cx.Instance, func(a any) (any, error) {
				scribble(h, 0xaa)
				ruin(a)
				return []any{}, nil
			}, ft, args, max, max)
			if err == nil {
				post()
			}
		}
	})
	if pan != nil {
		c.w.Fail("panic", "lowering %s of %s panicked: %v", c.t.showV(v), c.t, pan)
		return calls, false
	}
	if err != nil && fails < 0 {
		c.w.Fail("lower", "lowering %s of %s failed: %v", c.t.showV(v), c.t, err)
		return calls, false
	}
	if len(args) != 1 {
		c.w.Fail("arguments", "the arguments changed")
		return calls, false
	}
	if want := c.t.toHost(v); !equalHost(want, hv) || !equalHost(want, args[0]) {
		c.w.Fail("lower-changes", "lowering changed %s of %s to %s", c.t.showV(v), c.t, show(hv))
	}
	return calls, err == nil
}

// lift obtains v from the guest in one of four ways.
func (c *copies) lift(h *heap, v *V, how int) (got any, ok bool) {
	h.reset(1024, 0xa5)
	b := &builder{g: &guest{h.mem(), c.enc}, next: 16, gap: 1}
	in := c.t.host()
	cx := newContext(h, c.enc)
	var err error
	var ws []values.Value
	if how == 0 || how == 2 {
		ws = coreValues(b.lowerFlat(c.t, v))
	} else {
		p := b.alloc(c.t.Size(), c.t.Align())
		b.store(c.t, v, p)
		ws = []values.Value{values.U32(p)}
	}
	max := 0
	if how == 2 {
		max = 1 << 20
	}
	c.w.Step(1)
	pan := mc.Safe(func() {
		switch how {
		case 0:
			got, err = aio.LiftFlat(cx, values.NewIterator(ws...), in)
			for i := range ws {
				ws[i] = values.U32(0xdead)
			}
		case 1:
			got, err = aio.Load(cx, in, ws[0].Value().(uint32))
		case 2, 3: // results of a guest, whose memory is gone afterwards
			ft := types.NewFuncType(nil, []types.Parameter{{Type: in}})
			var res []any
			var post types.PostReturnFunc
			flat := make([]any, len(ws))
			for i, x := range ws {
				flat[i] = x
			}
			cx.Options.PostReturn = func() { scribble(h, 0xbb) }
			res, post, err = aio.CanonLift(cx.Options, cx.Instance, func(any) (any, error) { return flat, nil }, ft, nil, max, max)
			if err == nil {
				post()
				for i := range flat {
					flat[i] = junk{}
				}
				if len(res) != 1 {
					err = fmt.Errorf("%d results", len(res))
				} else {
					got = res[0]
				}
			}
		case 4: // arguments of a guest
			ft := types.NewFuncType([]types.Parameter{{Type: in}}, nil)
			_, err = aio.CanonLower(cx.Options, cx.Instance, func(lifted []any) ([]any, types.PostReturnFunc, error) {
				if len(lifted) == 1 {
					got = lifted[0]
				}
				return []any{}, func() {}, nil
			}, true, ft, []any{ws[0]}, 0, 16)
		}
	})
	if pan != nil || err != nil {
		c.w.Fail("lift", "lifting %s of %s failed: %v %v", c.t.showV(v), c.t, pan, err)
		return nil, false
	}
	return got, true
}

// lifted obtains v and then other, and looks at what either does to the rest.
func (c *copies) lifted(v, other *V, how int) {
	l := heapOf(c.w)
	v, other = canonV(c.t, v), canonV(c.t, other)
	a, ok := c.lift(l.h, v, how)
	if !ok {
		return
	}
	c.same("lifted", "lifting", v, a)
	if c.w.Failed() {
		return
	}
	scribble(l.h, 0xcc)
	c.same("memory", "overwriting the guest's memory", v, a)
	b, ok := c.lift(l.h2, other, how)
	if !ok {
		return
	}
	c.same("lifted", "lifting", other, b)
	c.same("another", "lifting another value", v, a)
	if c.w.Failed() {
		return
	}
	before := append([]byte(nil), l.h2.mem()...)
	ruin(a)
	if !bytes.Equal(before, l.h2.mem()) {
		c.w.Fail("write-through", "changing a lifted %s changed the guest's memory", c.t)
	}
	c.same("shared", "changing what was lifted before", other, b)
	ruin(b)
	if !bytes.Equal(before, l.h2.mem()) {
		c.w.Fail("write-through", "changing a lifted %s changed the guest's memory", c.t)
	}
	for _, x := range []*V{v, other} {
		if again, ok := c.lift(l.h, x, how); ok {
			c.same("remembered", "changing what was lifted before", x, again)
		}
	}
}

func c29(tier string) []mc.Family {
	p := newPairs(valueTypes(tier), 0)
	fs := []mc.Family{}
	fs = append(fs, mc.Family{
		Name: "host values", Bound: fmt.Sprintf("%d types × values × 3 encodings, lowered as core values, into memory and as arguments in both ways, the allocator failing at every call or never", len(p.ts)), N: p.n * 3 * 4,
		Run: func(w *mc.W, i int64) {
			t, v := p.at(i / 12)
			d := mc.Mixed(i%12, 3, 4)
			c := &copies{w, t, Enc(d[0])}
			if d[0] != 0 && !needsMemory(t) {
				return
			}
			w.Desc(func() string {
				return fmt.Sprintf("%s = %s, %s, lowered in way %d", t, t.showV(v), encNames[c.enc], d[1])
			})
			w.Distinct()
			n, _ := c.lowered(v, d[1], -1)
			for k := 0; k < n && !w.Failed(); k++ {
				c.lowered(v, d[1], k)
			}
			w.Trace(fmt.Sprintf("%s in way %d", kNames[t.K], d[1]))
		},
	})
	// pairs of values of one type
	var start []int64
	n := int64(0)
	reach := 3
	if tier == "thorough" {
		reach = 8
	}
	for k := range p.ts {
		start = append(start, n)
		n += int64(len(p.vs[k]) * min(len(p.vs[k]), reach))
	}
	fs = append(fs, mc.Family{
		Name: "lifted values", Bound: fmt.Sprintf("%d types × values × the value itself and up to %d following ones × 3 encodings, lifted from core values, memory, results in both ways and arguments, the memory and the values overwritten", len(p.ts), reach-1), N: n * 3 * 5,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i%15, 3, 5)
			i /= 15
			lo, hi := 0, len(start)-1
			for lo < hi {
				m := (lo + hi + 1) / 2
				if start[m] <= i {
					lo = m
				} else {
					hi = m - 1
				}
			}
			t, vs := p.ts[lo], p.vs[lo]
			i -= start[lo]
			r := int64(min(len(vs), reach))
			v, other := vs[i/r], vs[(i/r+i%r)%int64(len(vs))]
			if d[0] != 0 && !needsMemory(t) {
				return
			}
			c := &copies{w, t, Enc(d[0])}
			w.Desc(func() string {
				return fmt.Sprintf("%s = %s, then %s, %s, lifted in way %d", t, t.showV(v), t.showV(other), encNames[c.enc], d[1])
			})
			w.Distinct()
			c.lifted(v, other, d[1])
			w.Trace(fmt.Sprintf("%s in way %d", kNames[t.K], d[1]))
		},
	})
	return fs
}
