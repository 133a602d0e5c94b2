package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/mc"
)

// Calls that pass several handles at once: in every order, of two resource
// types, wrapped in other types, with several results.

// bitem is one handle argument: how it is declared and which of the caller's
// handles is given.
type bitem struct {
	borrow bool
	h      int // 0, 1: first resource type; 2: second
}

func (b bitem) rt() int { return b.h / 2 }

type bhandle struct {
	rt       int
	idx, rep uint32
	own      bool
	lends    int
	gone     bool
}

type bundle struct {
	w     *mc.W
	comps []*comp
	rts   []types.ResourceType
	impl  int
	lim   limits
	live  [3][]*bhandle
	next  uint32
	want  map[uint32]int
	ran   map[uint32]int
	stop  bool
	trap  string
}

func (b *bundle) fail(sig, f string, a ...any) error {
	b.w.Fail(sig, f, a...)
	b.stop = true
	return errStop
}

func (b *bundle) trapped(what string, err error, pan any) error {
	switch {
	case pan != nil:
		return b.fail("panic", "%s panicked: %v", what, pan)
	case err == nil:
		return b.fail("accepted", "%s must fail but succeeded", what)
	}
	b.stop = true
	b.trap = what
	return errStop
}

// bundle shapes, as a model type in which u32 stands for a handle, and as the
// same type with handles.
var bundleShapes = []string{"parameters", "tuple", "list", "pairs", "options", "list of a tuple", "variant"}

func bundleTypes(shape int, hs []types.ValType) (ts []*T, vts []types.ValType) {
	switch shape {
	case 0:
		return repeat(tU32, len(hs)), hs
	case 1:
		return []*T{tuple(repeat(tU32, len(hs))...)}, []types.ValType{types.NewTuple(hs...)}
	case 2:
		return []*T{list(tU32)}, []types.ValType{types.NewList(hs[0])}
	case 3:
		for _, h := range hs {
			ts = append(ts, tuple(tU8, tU32))
			vts = append(vts, types.NewTuple(types.NewU8(), h))
		}
	case 4:
		for _, h := range hs {
			ts = append(ts, option(tU32))
			vts = append(vts, types.NewOption(h))
		}
	case 5:
		return []*T{list(tuple(repeat(tU32, len(hs))...))}, []types.ValType{types.NewList(types.NewTuple(hs...))}
	case 6:
		for _, h := range hs {
			ts = append(ts, variant(tF64, tU32))
			vts = append(vts, types.NewVariant(types.NewCase("l0", types.NewF64()), types.NewCase("l1", h)))
		}
	}
	return ts, vts
}

func bundleValues(shape int, idx []uint32) []*V {
	var all []*V
	for _, x := range idx {
		all = append(all, num(uint64(x)))
	}
	switch shape {
	case 0:
		return all
	case 1, 2:
		return []*V{vlist(all...)}
	case 5:
		return []*V{vlist(vlist(all...))}
	}
	for i, x := range all {
		switch shape {
		case 3:
			all[i] = vlist(num(uint64(i)), x)
		default:
			all[i] = cased(1, x)
		}
	}
	return all
}

func bundleLeaves(t *T, v *V, out []uint32) []uint32 {
	switch {
	case t.K == U32:
		return append(out, uint32(v.B))
	case t.K == List:
		for _, x := range v.L {
			out = bundleLeaves(t.Sub[0], x, out)
		}
	case t.isRecord():
		for i, x := range v.L {
			out = bundleLeaves(t.Sub[i], x, out)
		}
	case t.isVariant() && len(v.L) > 0:
		return bundleLeaves(t.cases()[v.B], v.L[0], out)
	}
	return out
}

// give lays the values out as core values of component c.
func (b *bundle) give(c *comp, ts []*T, vs []*V, limit int) []any {
	bl := &builder{g: &guest{c.h.mem(), EncUTF8}, next: c.h.next, gap: 0}
	var ws []Word
	if len(flatAll(ts)) > limit {
		tt := ready([]*T{tuple(ts...)})[0]
		p := bl.alloc(tt.Size(), tt.Align())
		bl.store(tt, vlist(vs...), p)
		ws = []Word{{CI32, uint64(p)}}
	} else {
		for i, t := range ts {
			ws = append(ws, bl.lowerFlat(t, vs[i])...)
		}
	}
	c.h.next = bl.next
	return asAny(ws)
}

// take reads handle indices out of core values of component c.
func (b *bundle) take(c *comp, ts []*T, flat any, limit int) ([]uint32, bool) {
	fl, _ := flat.([]any)
	ws, ok := anyWords(fl)
	if !ok {
		return nil, false
	}
	g := &guest{c.h.mem(), EncUTF8}
	var out []uint32
	if pan := mc.Safe(func() {
		tt := ready([]*T{tuple(ts...)})[0]
		if len(flatAll(ts)) > limit {
			out = bundleLeaves(tt, g.load(tt, uint32(ws[0].B)), nil)
			return
		}
		if len(ws) != len(flatAll(ts)) {
			panic("number of core values")
		}
		out = bundleLeaves(tt, g.liftFlat(tt, &words{w: ws}), nil)
	}); pan != nil {
		return nil, false
	}
	return out, true
}

func (b *bundle) handleType(rt int, borrow bool) types.ValType {
	if borrow {
		return types.NewBorrow(b.rts[rt])
	}
	return types.NewOwn(b.rts[rt])
}

func (b *bundle) create(c, rt int) (*bhandle, error) {
	b.next++
	rep := b.next
	v, err := aio.CanonResourceNew(b.comps[c].inst, b.rts[rt], rep)
	idx, ok := v.(uint32)
	b.w.Step(1)
	if err != nil || !ok {
		return nil, b.fail("new", "creating a resource failed: %v %v", v, err)
	}
	return b.arrive(c, rt, idx, rep, true)
}

func (b *bundle) arrive(c, rt int, idx, rep uint32, own bool) (*bhandle, error) {
	for _, x := range b.live[c] {
		if !x.gone && x.rt == rt && x.idx == idx {
			return nil, b.fail("reissued", "index %d was handed out while still live", idx)
		}
	}
	x := &bhandle{rt: rt, idx: idx, rep: rep, own: own}
	b.live[c] = append(b.live[c], x)
	return x, nil
}

// drop drops handle x of component c; waiting tells whether component 0 is
// waiting for an import.
func (b *bundle) drop(c int, x *bhandle, waiting bool) error {
	var err error
	b.w.Step(1)
	pan := mc.Safe(func() { err = aio.CanonResourceDrop(b.comps[c].inst, b.rts[x.rt], x.idx) })
	if waiting && x.own && b.impl == 0 && c != 0 {
		return b.trapped("dropping a resource whose component waits for an import", err, pan)
	}
	if pan != nil || err != nil {
		return b.fail("drop", "component %d cannot drop handle %d (own=%v): %v %v", c, x.idx, x.own, pan, err)
	}
	x.gone = true
	if x.own {
		b.want[x.rep]++
	}
	return nil
}

func (b *bundle) observe(when string) error {
	for c := range b.live {
		for _, x := range b.live[c] {
			taken := false
			for _, y := range b.live[c] {
				taken = taken || !y.gone && y.rt == x.rt && y.idx == x.idx
			}
			rep, err := aio.CanonResourceRep(b.comps[c].inst, b.rts[x.rt], x.idx)
			switch {
			case !x.gone && (err != nil || rep != x.rep):
				return b.fail("table", "%s: component %d index %d must denote %d, got %d %v", when, c, x.idx, x.rep, rep, err)
			case x.gone && !taken && err == nil:
				return b.fail("table", "%s: component %d index %d is gone but denotes %d", when, c, x.idx, rep)
			}
		}
	}
	for rep := uint32(901); rep <= b.next; rep++ {
		if b.want[rep] != b.ran[rep] {
			return b.fail("dtor", "%s: the destructor of %d ran %d times instead of %d", when, rep, b.ran[rep], b.want[rep])
		}
	}
	return nil
}

type bundleCase struct {
	items   []bitem
	shape   int
	keep    int // which received handles the callee does not drop
	forward bool
	results []int // 0, 1: new resource of that type; 2: first argument as owned
	touch   int   // 1+handle of the caller dropped meanwhile if it is lent
	impl    int
	lim     limits
}

func (bc *bundleCase) String() string {
	s := ""
	for i, it := range bc.items {
		if it.borrow {
			s += "borrow "
		} else {
			s += "own "
		}
		s += fmt.Sprint(it.h)
		if bc.keep>>i&1 == 1 {
			s += " (kept)"
		}
		s += ", "
	}
	return fmt.Sprintf("%sas %s, limits %v, lent on: %v, results %v, intrusion %d, implemented by %d", s, bundleShapes[bc.shape], bc.lim, bc.forward, bc.results, bc.touch, bc.impl)
}

func (b *bundle) run(bc *bundleCase) {
	for i := 0; i < 3; i++ {
		c := &comp{h: newHeap(512, 0x11), inst: newInstance()}
		c.h.next = 16
		c.opts = c.h.options(EncUTF8)
		b.comps = append(b.comps, c)
	}
	var in *types.ComponentInstance
	switch {
	case bc.impl == 9:
		in = newInstance()
	case bc.impl >= 0:
		in = b.comps[bc.impl].inst
	}
	for r := 0; r < 2; r++ {
		b.rts = append(b.rts, types.NewResourceType(func(rep uint32) { b.ran[rep]++ }, in))
	}
	for _, rt := range []int{0, 0, 1} {
		if _, err := b.create(0, rt); err != nil {
			return
		}
	}
	mine := b.live[0][:3:3]
	hs := []types.ValType{}
	idx := []uint32{}
	bad := ""
	var given [3]bool
	var lent [3]int
	for _, it := range bc.items {
		hs = append(hs, b.handleType(it.rt(), it.borrow))
		idx = append(idx, mine[it.h].idx)
		switch {
		case given[it.h] && bad == "":
			bad = "passing a handle after it was given away"
		case !it.borrow && lent[it.h] > 0 && bad == "":
			bad = "giving a handle away that is lent"
		case !it.borrow:
			given[it.h] = true
		default:
			lent[it.h]++
		}
	}
	ts, vts := bundleTypes(bc.shape, hs)
	ready(ts)
	var rvts []types.ValType
	rts := repeat(tU32, len(bc.results))
	for _, r := range bc.results {
		if r == 2 {
			r = bc.items[0].rt()
		}
		rvts = append(rvts, b.handleType(r, false))
	}
	conv := func(ts []types.ValType) []types.Parameter {
		var out []types.Parameter
		for _, t := range ts {
			out = append(out, types.Parameter{Type: t})
		}
		return out
	}
	ft := types.NewFuncType(conv(vts), conv(rvts))
	args := b.give(b.comps[0], ts, bundleValues(bc.shape, idx), b.lim.p)
	out := uint32(0)
	if len(rts) > b.lim.r {
		out = b.comps[0].h.next
		out = uint32(alignUp(uint64(out), 4))
		b.comps[0].h.next = out + uint32(4*len(rts))
		args = append(args, coreValue(Word{CI32, uint64(out)}))
	}
	ran, leak, refused := false, false, ""
	var returned []uint32 // representations
	core := func(flat any) (any, error) {
		ran = true
		if bad != "" {
			return nil, b.fail("bundle", "%s was possible", bad)
		}
		for i, g := range given {
			if g {
				mine[i].gone = true
			}
			mine[i].lends = lent[i]
		}
		got, ok := b.take(b.comps[1], ts, flat, b.lim.p)
		if !ok || len(got) != len(bc.items) {
			return nil, b.fail("arg", "the callee received %s", show(flat))
		}
		var recv []*bhandle
		for i, it := range bc.items {
			rep := mine[it.h].rep
			if it.borrow && b.impl == 1 {
				if got[i] != rep {
					return nil, b.fail("borrow-rep", "the implementing component must receive the representation %d, got %d", rep, got[i])
				}
				recv = append(recv, nil)
				continue
			}
			x, err := b.arrive(1, it.rt(), got[i], rep, !it.borrow)
			if err != nil {
				return nil, err
			}
			recv = append(recv, x)
		}
		if err := b.observe("in the call"); err != nil {
			return nil, err
		}
		if bc.touch > 0 {
			x := mine[bc.touch-1]
			if x.lends > 0 && !x.gone {
				var err error
				pan := mc.Safe(func() { err = aio.CanonResourceDrop(b.comps[0].inst, b.rts[x.rt], x.idx) })
				return nil, b.trapped("dropping a handle that is lent", err, pan)
			}
		}
		if bc.forward {
			if err := b.forward(recv); err != nil {
				return nil, err
			}
		}
		for i, x := range recv {
			if x == nil {
				continue
			}
			if bc.keep>>i&1 == 1 {
				leak = leak || !x.own
				continue
			}
			if err := b.drop(1, x, true); err != nil {
				return nil, err
			}
		}
		if err := b.observe("after the callee dropped its handles"); err != nil {
			return nil, err
		}
		var res []*V
		for _, r := range bc.results {
			if r == 2 {
				x := recv[0]
				switch {
				case x == nil:
					// the representation is not a handle: nothing to return
					return nil, b.skip()
				case x.gone:
					refused = "returning a handle that is gone"
				case !x.own:
					refused = "returning a borrowed handle as owned"
				default:
					x.gone = true
					returned = append(returned, x.rep)
				}
				res = append(res, num(uint64(x.idx)))
				continue
			}
			x, err := b.create(1, r)
			if err != nil {
				return nil, err
			}
			x.gone = true // on return
			returned = append(returned, x.rep)
			res = append(res, num(uint64(x.idx)))
		}
		return b.give(b.comps[1], rts, res, b.lim.r), nil
	}
	var err error
	var res []any
	b.w.Step(1)
	pan := mc.Safe(func() {
		res, err = aio.CanonLower(b.comps[0].opts, b.comps[0].inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
			return aio.CanonLift(b.comps[1].opts, b.comps[1].inst, core, ft, lifted, b.lim.p, b.lim.r)
		}, true, ft, args, b.lim.p, b.lim.r)
	})
	if b.stop {
		return
	}
	switch {
	case bad != "":
		b.trapped(bad, err, pan)
		return
	case leak:
		b.trapped("ending a call that still holds a borrowed handle", err, pan)
		return
	case refused != "":
		b.trapped(refused, err, pan)
		return
	case pan != nil || err != nil:
		b.fail("call", "the call failed: %v %v", pan, err)
		return
	case !ran:
		b.fail("call", "the callee did not run")
		return
	}
	for i := range mine {
		mine[i].lends = 0
	}
	got := res
	if len(rts) > b.lim.r {
		got = []any{coreValue(Word{CI32, uint64(out)})}
	}
	back, ok := b.take(b.comps[0], rts, got, b.lim.r)
	if !ok || len(back) != len(returned) {
		b.fail("results", "the caller received %s", show(res))
		return
	}
	for i, rep := range returned {
		r := bc.results[i]
		if r == 2 {
			r = bc.items[0].rt()
		}
		if _, err := b.arrive(0, r, back[i], rep, true); err != nil {
			return
		}
	}
	if b.observe("after the call") != nil {
		return
	}
	for c := range b.live {
		for _, x := range b.live[c] {
			if x.gone {
				continue
			}
			if b.drop(c, x, false) != nil {
				return
			}
		}
	}
	b.observe("after dropping everything")
}

// skip ends a case that cannot go on.
func (b *bundle) skip() error {
	b.stop = true
	b.trap = "nothing to return"
	return errStop
}

// forward lends everything the callee holds to a third component at once.
func (b *bundle) forward(recv []*bhandle) error {
	var hs []types.ValType
	var idx []uint32
	var which []*bhandle
	for _, x := range recv {
		if x != nil {
			hs = append(hs, b.handleType(x.rt, true))
			idx = append(idx, x.idx)
			which = append(which, x)
		}
	}
	if len(hs) == 0 {
		return nil
	}
	var ps []types.Parameter
	for _, t := range hs {
		ps = append(ps, types.Parameter{Type: t})
	}
	ft := types.NewFuncType(ps, nil)
	ts := repeat(tU32, len(hs))
	var err error
	b.w.Step(1)
	pan := mc.Safe(func() {
		_, err = aio.CanonLower(b.comps[1].opts, b.comps[1].inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
			return aio.CanonLift(b.comps[2].opts, b.comps[2].inst, func(flat any) (any, error) {
				got, ok := b.take(b.comps[2], ts, flat, b.lim.p)
				if !ok || len(got) != len(which) {
					return nil, b.fail("arg", "the third component received %s", show(flat))
				}
				for i, x := range which {
					if _, err := b.arrive(2, x.rt, got[i], x.rep, false); err != nil {
						return nil, err
					}
				}
				if err := b.observe("in the inner call"); err != nil {
					return nil, err
				}
				for _, y := range b.live[2] {
					if err := b.drop(2, y, true); err != nil {
						return nil, err
					}
				}
				return []any{}, nil
			}, ft, lifted, b.lim.p, b.lim.r)
		}, true, ft, b.give(b.comps[1], ts, bundleValues(0, idx), b.lim.p), b.lim.p, b.lim.r)
	})
	if b.stop {
		return errStop
	}
	if pan != nil || err != nil {
		return b.fail("lend-on", "lending the received handles on failed: %v %v", pan, err)
	}
	return nil
}

func c11bundles(tier string) []mc.Family {
	most := 3
	if tier == "thorough" {
		most = 4
	}
	kinds := []bitem{{false, 0}, {false, 1}, {false, 2}, {true, 0}, {true, 1}, {true, 2}}
	var lists [][]bitem
	for i := int64(1); i < mc.SeqCount(len(kinds), most); i++ {
		seq := mc.Seq(i, len(kinds), most, nil)
		var l []bitem
		for _, k := range seq {
			l = append(l, kinds[k])
		}
		lists = append(lists, l)
	}
	resultSets := [][]int{nil, {0}, {1}, {2}, {0, 1}, {2, 0}, {0, 2}, {1, 1}}
	impls := []int{9, 1, 0, -1}
	lims := []limits{{16, 16}, {0, 0}}
	dims := []int{1 << most, 2, len(resultSets), 4, len(impls), len(lims), len(bundleShapes), len(lists)}
	n := int64(1)
	for _, d := range dims {
		n *= int64(d)
	}
	return []mc.Family{{
		Name: "bundles", Bound: fmt.Sprintf("calls passing up to %d handles out of 3 of two resource types, owned or borrowed in every order, in %d shapes, the callee keeping any of them, lending them on, returning %d kinds of results, the caller's handles dropped meanwhile, %d implementers, core values and memory", most, len(bundleShapes), len(resultSets), len(impls)), N: n,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, dims...)
			bc := &bundleCase{items: lists[d[7]], shape: d[6], lim: lims[d[5]], impl: impls[d[4]], touch: d[3], results: resultSets[d[2]], forward: d[1] == 1, keep: d[0]}
			if bc.keep >= 1<<len(bc.items) || bc.touch > 0 && (bc.keep > 0 || bc.forward || len(bc.results) > 0) {
				return
			}
			if bc.forward && len(bc.results) > 1 {
				return
			}
			if bc.shape == 2 {
				for _, it := range bc.items {
					if it.borrow != bc.items[0].borrow || it.rt() != bc.items[0].rt() {
						return
					}
				}
			}
			w.Desc(bc.String)
			w.Distinct()
			b := &bundle{w: w, impl: bc.impl, lim: bc.lim, next: 900, want: map[uint32]int{}, ran: map[uint32]int{}}
			b.run(bc)
			if b.trap != "" {
				w.Trace("trap: " + b.trap)
			} else {
				w.Trace("bundle completed")
			}
		},
	}}
}
