package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/mc"
)

type limits struct{ p, r int }

// sig is a function signature with the values passed through it.
type sig struct {
	ps, rs []*T
	ft     types.FuncType
	ptt    *T
	rtt    *T
}

func newSig(ps, rs []*T) *sig {
	s := &sig{ps: ps, rs: rs}
	ready(ps)
	ready(rs)
	s.ft = funcType(ps, rs)
	s.ptt = ready([]*T{tuple(ps...)})[0]
	s.rtt = ready([]*T{tuple(rs...)})[0]
	return s
}

func (s *sig) String() string { return fmt.Sprintf("func%v -> %v", s.ps, s.rs) }

// comp is one component: a memory, an encoding, an instance.
type comp struct {
	h    *heap
	enc  Enc
	inst *types.ComponentInstance
	opts *types.CanonicalOptions
	post int
}

// callCase sends values through a chain of components.
type callCase struct {
	w     *mc.W
	s     *sig
	args  []*V
	res   []*V
	lim   limits
	comps []*comp
	ran   int
}

func newComp(enc Enc, grow bool) *comp { return newCompOf(1536, enc, grow) }

func newCompOf(size int, enc Enc, grow bool) *comp {
	c := &comp{h: newHeap(size, 0x77), enc: enc, inst: newInstance()}
	c.h.next = 8
	c.opts = c.h.options(enc)
	if grow {
		h := c.h
		h.answer = func(align, size uint32) (uint32, error) {
			m := uint64(h.size)
			h.grow(int(size) + 16)
			return uint32(alignUp(m, uint64(align))), nil
		}
	}
	c.opts.PostReturn = func() {
		c.post++
		// the guest reuses its memory
		m := c.h.mem()
		for i := range m {
			m[i] = 0xC3
		}
	}
	return c
}

func anyWords(vs []any) ([]Word, bool) {
	out := make([]Word, len(vs))
	for i, v := range vs {
		w, ok := wordOf(v)
		if !ok {
			return nil, false
		}
		out[i] = w
	}
	return out, true
}

func asAny(ws []Word) []any {
	out := make([]any, len(ws))
	for i, w := range ws {
		out[i] = coreValue(w)
	}
	return out
}

// matchAll compares core values against a list of typed values.
func matchAll(h *heap, enc Enc, ts []*T, tt *T, vs []*V, ws []Word, limit int) string {
	m := &matcher{&guest{h.mem(), enc}, h}
	if len(flatAll(ts)) > limit {
		if len(ws) != 1 || ws[0].C != CI32 {
			return fmt.Sprintf("expected one pointer to spilled values, got %s", showWords(ws))
		}
		p := uint32(ws[0].B)
		if !h.covers(p, tt.Size(), tt.Align()) {
			return fmt.Sprintf("spilled values at %d are not in a block allocated for them", p)
		}
		return m.image(tt, &V{L: vs}, p)
	}
	if len(ws) != len(flatAll(ts)) {
		return fmt.Sprintf("expected %d core values, got %d", len(flatAll(ts)), len(ws))
	}
	for i, t := range ts {
		n := len(t.Flat())
		if d := m.flat(t, vs[i], ws[:n]); d != "" {
			return fmt.Sprintf("value %d: %s", i, d)
		}
		ws = ws[n:]
	}
	return ""
}

func (c *callCase) builder(k *comp) *builder {
	k.h.next += 5
	// room for what the guest itself stores
	if k.h.grown || k.h.answer != nil {
		k.h.next = uint32(k.h.size)
		k.h.grow(1536)
	}
	return &builder{g: &guest{k.h.mem(), k.enc}, next: k.h.next, gap: 1}
}

// core is the guest function of component i.
func (c *callCase) core(i int) func(any) (any, error) {
	return func(flat any) (any, error) {
		k := c.comps[i]
		fl, ok := flat.([]any)
		if !ok {
			c.w.Fail("args-kind", "the guest function received %s", show(flat))
			return nil, errNoMem
		}
		ws, ok := anyWords(fl)
		if !ok {
			c.w.Fail("args-kind", "the guest function received values that are not core values: %s", show(fl))
			return nil, errNoMem
		}
		if d := matchAll(k.h, k.enc, c.s.ps, c.s.ptt, c.args, ws, c.lim.p); d != "" {
			c.w.Fail("args", "component %d received wrong arguments: %s", i, d)
		}
		spilled := len(flatAll(c.s.rs)) > c.lim.r
		if i == len(c.comps)-1 {
			c.ran++
			b := c.builder(k)
			if spilled {
				p := b.alloc(c.s.rtt.Size(), c.s.rtt.Align())
				b.store(c.s.rtt, &V{L: c.res}, p)
				return []any{values.U32(p)}, nil
			}
			var out []Word
			for j, t := range c.s.rs {
				out = append(out, b.lowerFlat(t, c.res[j])...)
			}
			return asAny(out), nil
		}
		return c.importCall(i, fl)
	}
}

// importCall is component i calling the function of component i+1 with the
// given core arguments; it returns the core results.
func (c *callCase) importCall(i int, flat []any) ([]any, error) {
	k := c.comps[i]
	spilled := len(flatAll(c.s.rs)) > c.lim.r
	var out uint32
	if spilled {
		b := c.builder(k)
		out = b.alloc(c.s.rtt.Size(), c.s.rtt.Align())
		k.h.next = b.next
		k.h.blocks = append(k.h.blocks, block{out, c.s.rtt.Size(), c.s.rtt.Align()})
		flat = append(append([]any{}, flat...), values.U32(out))
	}
	c.w.Step(1)
	res, err := aio.CanonLower(k.opts, k.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
		if d := c.same(c.s.ps, c.args, lifted); d != "" {
			c.w.Fail("lifted-args", "component %d's arguments were lifted wrongly: %s", i, d)
		}
		r, pr, err := c.enter(i+1, lifted)
		if err == nil && pr == nil {
			c.w.Fail("no-post", "no post-return function was returned")
			pr = func() {}
		}
		return r, pr, err
	}, true, c.s.ft, flat, c.lim.p, c.lim.r)
	if err != nil {
		return nil, err
	}
	if spilled {
		res = []any{values.U32(out)}
	}
	ws, ok := anyWords(res)
	if !ok {
		c.w.Fail("res-kind", "component %d received results that are not core values: %s", i, show(res))
		return nil, errNoMem
	}
	if d := matchAll(k.h, k.enc, c.s.rs, c.s.rtt, c.res, ws, c.lim.r); d != "" {
		c.w.Fail("results", "component %d received wrong results: %s", i, d)
	}
	if c.comps[i+1].post != 1 {
		c.w.Fail("post", "post-return of component %d ran %d times", i+1, c.comps[i+1].post)
	}
	return res, nil
}

func (c *callCase) same(ts []*T, vs []*V, got []any) string {
	if len(got) != len(ts) {
		return fmt.Sprintf("%d values instead of %d", len(got), len(ts))
	}
	for j, t := range ts {
		if d := t.differ(canonV(t, vs[j]), got[j]); d != "" {
			return fmt.Sprintf("value %d: %s", j, d)
		}
	}
	return ""
}

// enter calls the exported function of component i with host values.
func (c *callCase) enter(i int, args []any) ([]any, types.PostReturnFunc, error) {
	k := c.comps[i]
	c.w.Step(1)
	res, pr, err := aio.CanonLift(k.opts, k.inst, c.core(i), c.s.ft, args, c.lim.p, c.lim.r)
	if err != nil {
		return nil, nil, err
	}
	if k.post != 0 {
		c.w.Fail("early-post", "post-return of component %d ran before its results were taken", i)
	}
	if d := c.same(c.s.rs, c.res, res); d != "" {
		c.w.Fail("lifted-results", "component %d's results were lifted wrongly: %s", i, d)
	}
	return res, pr, err
}

// run drives the chain; direct: the host calls component 0's export.
func (c *callCase) run(direct bool) {
	var err error
	p := mc.Safe(func() {
		if direct {
			var pr types.PostReturnFunc
			var hv []any
			for j, t := range c.s.ps {
				hv = append(hv, t.toHost(c.args[j]))
			}
			_, pr, err = c.enter(0, hv)
			if err == nil {
				if pr == nil {
					c.w.Fail("no-post", "no post-return function was returned")
				} else {
					pr()
				}
				if c.comps[0].post != 1 {
					c.w.Fail("post", "post-return of component 0 ran %d times", c.comps[0].post)
				}
			}
			return
		}
		k := c.comps[0]
		b := c.builder(k)
		var ws []Word
		if len(flatAll(c.s.ps)) > c.lim.p {
			q := b.alloc(c.s.ptt.Size(), c.s.ptt.Align())
			b.store(c.s.ptt, &V{L: c.args}, q)
			ws = []Word{{CI32, uint64(q)}}
		} else {
			for j, t := range c.s.ps {
				ws = append(ws, b.lowerFlat(t, c.args[j])...)
			}
		}
		k.h.next = b.next
		_, err = c.importCall(0, asAny(ws))
	})
	if p != nil {
		c.w.Fail("panic", "panicked: %v", p)
		return
	}
	if err != nil {
		c.w.Fail("failed", "the call failed: %v", err)
		return
	}
	if c.ran != 1 {
		c.w.Fail("ran", "the callee ran %d times", c.ran)
	}
	for i, k := range c.comps {
		if !k.h.poisoned() {
			c.w.Fail("overrun", "memory of component %d was written past its end", i)
		}
	}
}

func pick(t *T, k, pos int) *V {
	vs := vals(t, 1)
	return vs[(k*5+pos*3+k*pos)%len(vs)]
}

func c09(tier string) []mc.Family {
	thorough := tier == "thorough"
	al := []*T{tU8, tS16, tU64, tF32, tF64, tBool, tChar, tStr, list(tU16), record(tU8, tU64), variant(tF32, tU64), option(tStr), flags(33), tuple(tU8, tStr), list(tStr), result(tStr, tF64)}
	small := []*T{tU8, tF64, tStr, record(tU8, tU64), list(tU8), variant(tF32, tU64)}
	lims := []limits{{16, 1}, {16, 16}, {0, 0}, {1, 1}, {2, 1}, {3, 2}}
	var sigs []*sig
	p2 := append(append([][]*T{nil}, vectors(al, 1)...), vectors(al, 2)...)
	p1 := append([][]*T{nil}, vectors(al, 1)...)
	for _, ps := range p2 {
		for _, rs := range p1 {
			sigs = append(sigs, newSig(ps, rs))
		}
	}
	for _, ps := range append([][]*T{nil}, vectors(small, 1)...) {
		for _, rs := range vectors(al, 2) {
			sigs = append(sigs, newSig(ps, rs))
		}
	}
	for _, ps := range vectors(small, 3) {
		for _, rs := range [][]*T{nil, {tStr}, {tU8, tF64}, {tStr, tU8, list(tU16)}} {
			sigs = append(sigs, newSig(ps, rs))
		}
	}
	for n := 4; n <= 18; n++ {
		for _, t := range al {
			sigs = append(sigs, newSig(repeat(t, n), []*T{t}), newSig([]*T{t}, repeat(t, n)))
		}
		mixed := make([]*T, n)
		for i := range mixed {
			mixed[i] = al[(i*5+n)%len(al)]
		}
		sigs = append(sigs, newSig(mixed, nil), newSig(nil, mixed), newSig(mixed, mixed))
	}
	if thorough {
		for _, ps := range vectors(al, 2) {
			for _, rs := range vectors(al, 2) {
				sigs = append(sigs, newSig(ps, rs))
			}
		}
		for _, ps := range vectors(al, 3) {
			sigs = append(sigs, newSig(ps, nil), newSig(nil, ps))
		}
	}
	const ks = 2
	mk := func(name, bound string, ncomp int, direct bool, grow bool) mc.Family {
		lims := lims
		if ncomp > 2 {
			lims = lims[:2]
		}
		encs := int(mc.Pow(3, ncomp))
		return mc.Family{
			Name: name, Bound: fmt.Sprintf("%s: %d signatures × %d flat limits × %d encodings × %d value choices", bound, len(sigs), len(lims), encs, ks),
			N: int64(len(sigs)) * int64(len(lims)) * int64(encs) * int64(ks),
			Run: func(w *mc.W, i int64) {
				d := mc.Mixed(i, ks, encs, len(lims), len(sigs))
				s, lim := sigs[d[3]], lims[d[2]]
				c := &callCase{w: w, s: s, lim: lim}
				for j, t := range s.ps {
					c.args = append(c.args, canonV(t, pick(t, d[0], j)))
				}
				for j, t := range s.rs {
					c.res = append(c.res, canonV(t, pick(t, d[0]+1, j)))
				}
				for j, e := 0, d[1]; j < ncomp; j++ {
					c.comps = append(c.comps, newComp(Enc(e%3), grow))
					e /= 3
				}
				w.Desc(func() string {
					return fmt.Sprintf("%s, limits %v, encodings %d, args %s, results %s", s, lim, d[1], s.ptt.showV(&V{L: c.args}), s.rtt.showV(&V{L: c.res}))
				})
				w.Distinct()
				c.run(direct)
				w.Trace(fmt.Sprintf("%s spill=%v,%v", name, len(flatAll(s.ps)) > lim.p, len(flatAll(s.rs)) > lim.r))
			},
		}
	}
	fs := []mc.Family{
		mk("host-call", "host calls an export", 1, true, false),
		mk("import-call", "component calls another's export", 2, false, false),
		mk("host-call-growing", "host calls an export whose allocator grows memory", 1, true, true),
	}
	if thorough {
		fs = append(fs, mk("import-call-growing", "component calls another's export, allocators grow memory", 2, false, true))
		fs = append(fs, mk("chain", "host calls an export which forwards to another component, which forwards to a third", 3, true, false))
	}
	return append(fs, manyArguments(al))
}

// manyArguments: signatures so long that the numbers of parameters and results need more digits or bytes.
func manyArguments(al []*T) mc.Family {
	counts := []int{19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 4097}
	lims := []limits{{16, 1}, {1 << 20, 1 << 20}, {255, 256}}
	kinds := []*T{tU8, tU64, tF32, tStr, record(tU8, tU64), variant(tF32, tU64), nil}
	type job struct{ n, k, side int }
	var sigs []*sig
	var jobs []job
	for _, n := range counts {
		for k, t := range kinds {
			ts := make([]*T, n)
			for i := range ts {
				ts[i] = t
				if t == nil {
					ts[i] = al[(i*5+n)%len(al)]
				}
			}
			for side, g := range []*sig{newSig(ts, nil), newSig(nil, ts), newSig(ts, ts)} {
				sigs = append(sigs, g)
				jobs = append(jobs, job{n, k, side})
			}
		}
	}
	return mc.Family{Name: "many", Bound: fmt.Sprintf("%v parameters, results or both of one of %d types or of %d in turn, all different from their neighbours, %d limits, 3 encodings of the caller and of the callee, called by the host and by a component", counts, len(kinds)-1, len(al), len(lims)), N: int64(len(sigs) * len(lims) * 9 * 2), Heavy: true,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, 2, 9, len(lims), len(sigs))
			s, j := sigs[d[3]], jobs[d[3]]
			if j.n > 600 && d[1] != 0 && d[1] != 5 || d[0] == 0 && d[1] > 2 {
				return
			}
			c := &callCase{w: w, s: s, lim: lims[d[2]]}
			for k, t := range s.ps {
				c.args = append(c.args, canonV(t, valueNo(t, k)))
			}
			for k, t := range s.rs {
				c.res = append(c.res, canonV(t, valueNo(t, k+1)))
			}
			c.comps = []*comp{newCompOf(600*j.n, Enc(d[1]%3), false)}
			if d[0] == 1 {
				c.comps = append(c.comps, newCompOf(600*j.n, Enc(d[1]/3), false))
			}
			w.Desc(func() string {
				return fmt.Sprintf("%d parameters, %d results of kind %d, limits %v, encodings %d", len(s.ps), len(s.rs), j.k, c.lim, d[1])
			})
			w.Distinct()
			c.run(d[0] == 0)
			w.Trace(fmt.Sprintf("many spill=%v,%v", len(flatAll(s.ps)) > c.lim.p, len(flatAll(s.rs)) > c.lim.r))
		}}
}
