package main

import (
	"errors"
	"fmt"
	"sort"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/mc"
)

// A history is a sequence of operations performed by the guest code currently
// running. "lend" opens a call into the next component, whose code then
// performs the following operations until "end".
const (
	hNew = iota
	hDrop0
	hDrop1
	hDrop2
	hGive0
	hGive1
	hTake
	hLend0
	hLend1
	hEnd
	hDropLent // the host tries to drop the handle lent by the waiting caller
	hGiveLent // … or to give it away
	hDropStale
	hLendStale
	numHist
)

var histNames = []string{"new", "drop 0", "drop 1", "drop 2", "give 0", "give 1", "take", "lend 0", "lend 1", "end", "drop the lent handle", "give the lent handle away", "drop stale", "lend stale"}

type handle struct {
	idx   uint32
	rep   uint32
	own   bool
	lends int
	frame int // call in which a borrowed handle was received
}

type party struct {
	*comp
	live    []*handle
	stale   []uint32
	waiting bool
}

var errStop = errors.New("history ends here")

type history struct {
	w      *mc.W
	seq    []int
	pos    int
	ps     []*party
	rt     types.ResourceType
	own    types.Own
	borrow types.Borrow
	impl   int // index of the implementing party, -1 none, 9 a party outside
	lim    limits
	next   uint32
	frames int
	dtors  map[uint32]int // expected
	ran    map[uint32]int // observed
	stop   bool
	trap   string
	key    string
	lent   []lentTo
}

// lentTo names a handle lent by a waiting party.
type lentTo struct {
	p *party
	h *handle
}

func newHistory(w *mc.W, seq []int, impl int, lim limits) *history {
	h := &history{w: w, seq: seq, impl: impl, lim: lim, next: 500, dtors: map[uint32]int{}, ran: map[uint32]int{}}
	for i := 0; i < 3; i++ {
		c := &comp{h: newHeap(256, 0x11), inst: newInstance()}
		c.h.next = 16
		c.opts = c.h.options(EncUTF8)
		h.ps = append(h.ps, &party{comp: c})
	}
	var in *types.ComponentInstance
	switch {
	case impl == 9:
		in = newInstance()
	case impl >= 0:
		in = h.ps[impl].inst
	}
	h.rt = types.NewResourceType(func(rep uint32) { h.ran[rep]++ }, in)
	h.own, h.borrow = types.NewOwn(h.rt), types.NewBorrow(h.rt)
	return h
}

func (h *history) fail(sig, f string, a ...any) error {
	h.w.Fail(sig, f, a...)
	h.stop = true
	return errStop
}

// trapped: the operation had to fail and did; what follows is not judged.
func (h *history) trapped(what string, err error, panicked any) error {
	if panicked != nil {
		return h.fail("panic", "%s panicked: %v", what, panicked)
	}
	if err == nil {
		return h.fail("accepted", "%s must fail but succeeded", what)
	}
	h.stop = true
	h.trap = what
	return errStop
}

func (p *party) add(h *handle) {
	var left []uint32
	for _, s := range p.stale {
		if s != h.idx {
			left = append(left, s)
		}
	}
	p.stale = left
	p.live = append(p.live, h)
}

func (p *party) find(idx uint32) *handle {
	for _, x := range p.live {
		if x.idx == idx {
			return x
		}
	}
	return nil
}

func (p *party) drop(h *handle) {
	for i, x := range p.live {
		if x == h {
			p.live = append(p.live[:i:i], p.live[i+1:]...)
			break
		}
	}
	p.stale = append(p.stale, h.idx)
}

// observe compares every table and the destructor log with the reference.
func (h *history) observe(after string) {
	h.key += after
	for i, p := range h.ps {
		for _, x := range p.live {
			rep, err := aio.CanonResourceRep(p.inst, h.rt, x.idx)
			if err != nil || rep != x.rep {
				h.fail("table", "after %s: component %d index %d must denote %d, got %d %v", after, i, x.idx, x.rep, rep, err)
			}
			h.key += fmt.Sprintf("%d:%v%d ", i, x.own, x.lends)
		}
		for _, s := range p.stale {
			if rep, err := aio.CanonResourceRep(p.inst, h.rt, s); err == nil {
				h.fail("table", "after %s: component %d index %d is gone but denotes %d", after, i, s, rep)
			}
		}
	}
	for rep := uint32(500); rep < h.next; rep++ {
		if h.dtors[rep] != h.ran[rep] {
			h.fail("dtor", "after %s: the destructor of %d ran %d times instead of %d", after, rep, h.ran[rep], h.dtors[rep])
		}
	}
	h.w.State(h.key)
}

func (h *history) fresh() uint32 { h.next++; return h.next - 1 }

func (h *history) ft(params, results []types.ValType) types.FuncType {
	conv := func(ts []types.ValType) []types.Parameter {
		var out []types.Parameter
		for _, t := range ts {
			out = append(out, types.Parameter{Type: t})
		}
		return out
	}
	return types.NewFuncType(conv(params), conv(results))
}

// coreArg reads the single handle argument a guest function received.
func (h *history) coreArg(p *party, flat any) (uint32, error) {
	fl, _ := flat.([]any)
	ws, ok := anyWords(fl)
	if !ok || len(ws) != 1 || ws[0].C != CI32 {
		return 0, h.fail("arg", "the guest function received %s", show(flat))
	}
	x := uint32(ws[0].B)
	if h.lim.p == 0 {
		if uint64(x)+4 > uint64(len(p.h.mem())) {
			return 0, h.fail("arg", "spilled argument at %d", x)
		}
		x = uint32((&guest{p.h.mem(), EncUTF8}).raw(x, 4))
	}
	return x, nil
}

// flatHandle passes a handle index as the only core argument.
func (h *history) flatHandle(p *party, idx uint32) []any {
	if h.lim.p == 0 {
		at := uint32(alignUp(uint64(p.h.next), 4))
		p.h.next = at + 4
		(&guest{p.h.mem(), EncUTF8}).put(at, 4, uint64(idx))
		idx = at
	}
	return []any{values.U32(idx)}
}

// pass calls the function of party `to` with one host argument.
func (h *history) pass(to *party, t types.ValType, rep any, core func(idx uint32) error) ([]any, types.PostReturnFunc, error) {
	h.w.Step(1)
	return aio.CanonLift(to.opts, to.inst, func(flat any) (any, error) {
		idx, err := h.coreArg(to, flat)
		if err != nil {
			return nil, err
		}
		if err := core(idx); err != nil {
			return nil, err
		}
		return []any{}, nil
	}, h.ft([]types.ValType{t}, nil), []any{rep}, h.lim.p, h.lim.r)
}

// received notes the handle a party got as an argument.
func (h *history) received(to *party, idx, rep uint32, own bool, frame int) error {
	if h.ps[0].find(idx) != nil && to == h.ps[0] || to.find(idx) != nil {
		return h.fail("reissued", "index %d was handed out while still live", idx)
	}
	to.add(&handle{idx: idx, rep: rep, own: own, frame: frame})
	return nil
}

// run performs operations as party c until its function ends.
func (h *history) run(c, frame int) error {
	p := h.ps[c]
	to := h.ps[(c+1)%3]
	for h.pos < len(h.seq) && !h.stop {
		op := h.seq[h.pos]
		h.pos++
		name := histNames[op]
		var err error
		switch op {
		case hNew:
			rep := h.fresh()
			var v any
			h.w.Step(1)
			v, err = aio.CanonResourceNew(p.inst, h.rt, rep)
			idx, ok := v.(uint32)
			if err != nil || !ok {
				return h.fail("new", "creating a resource failed: %v %v", v, err)
			}
			if err := h.received(p, idx, rep, true, 0); err != nil {
				return err
			}
		case hDrop0, hDrop1, hDrop2:
			k := op - hDrop0
			if k >= len(p.live) {
				return nil // not enabled: same as a shorter history
			}
			x := p.live[k]
			blocked := x.own && h.impl >= 0 && h.impl != 9 && h.impl != c && h.ps[h.impl].waiting
			h.w.Step(1)
			pan := mc.Safe(func() { err = aio.CanonResourceDrop(p.inst, h.rt, x.idx) })
			if blocked {
				return h.trapped("dropping a resource whose component waits for an import", err, pan)
			}
			if pan != nil || err != nil {
				return h.fail("drop", "dropping handle %d (own=%v) failed: %v %v", x.idx, x.own, pan, err)
			}
			p.drop(x)
			if x.own {
				h.dtors[x.rep]++
			}
		case hDropStale:
			if len(p.stale) == 0 {
				return nil
			}
			h.w.Step(1)
			pan := mc.Safe(func() { err = aio.CanonResourceDrop(p.inst, h.rt, p.stale[len(p.stale)-1]) })
			return h.trapped("dropping a handle that is gone", err, pan)
		case hLendStale:
			if len(p.stale) == 0 || to.waiting {
				return nil
			}
			ran := false
			h.w.Step(1)
			pan := mc.Safe(func() {
				_, err = aio.CanonLower(p.opts, p.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
					ran = true
					return []any{}, func() {}, nil
				}, true, h.ft([]types.ValType{h.borrow}, nil), h.flatHandle(p, p.stale[len(p.stale)-1]), h.lim.p, h.lim.r)
			})
			if ran {
				return h.fail("lent-stale", "a handle that is gone was lent")
			}
			return h.trapped("lending a handle that is gone", err, pan)
		case hGive0, hGive1:
			k := op - hGive0
			if k >= len(p.live) || to.waiting {
				return nil
			}
			x := p.live[k]
			ran := false
			h.w.Step(1)
			pan := mc.Safe(func() {
				_, err = aio.CanonLower(p.opts, p.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
					ran = true
					if len(lifted) != 1 || lifted[0] != x.rep {
						return nil, nil, h.fail("given", "giving handle of %d away passed %v", x.rep, lifted)
					}
					if x.own {
						p.drop(x) // it has left the table already
						h.observe("lifting it")
					}
					return h.pass(to, h.own, lifted[0], func(idx uint32) error {
						return h.received(to, idx, x.rep, true, 0)
					})
				}, true, h.ft([]types.ValType{h.own}, nil), h.flatHandle(p, x.idx), h.lim.p, h.lim.r)
			})
			if !x.own {
				if ran {
					return h.fail("borrow-as-own", "a borrowed handle was passed on as owned")
				}
				return h.trapped("passing a borrowed handle on as owned", err, pan)
			}
			if h.stop {
				return errStop
			}
			if pan != nil || err != nil {
				return h.fail("give", "giving handle %d away failed: %v %v", x.idx, pan, err)
			}
		case hTake:
			if to.waiting {
				return nil
			}
			rep := h.fresh()
			var res []any
			var flat []any
			var at uint32
			if h.lim.r == 0 {
				at = uint32(alignUp(uint64(p.h.next), 4))
				p.h.next = at + 4
				flat = []any{values.U32(at)}
			}
			h.w.Step(2)
			pan := mc.Safe(func() {
				res, err = aio.CanonLower(p.opts, p.inst, func([]any) ([]any, types.PostReturnFunc, error) {
					return aio.CanonLift(to.opts, to.inst, func(any) (any, error) {
						v, err := aio.CanonResourceNew(to.inst, h.rt, rep)
						idx, ok := v.(uint32)
						if err != nil || !ok {
							return nil, h.fail("new", "creating a resource failed: %v %v", v, err)
						}
						if to.find(idx) != nil {
							return nil, h.fail("reissued", "index %d was handed out while still live", idx)
						}
						to.stale = append(to.stale, idx) // returned right away
						return h.flatHandle(to, idx), nil
					}, h.ft(nil, []types.ValType{h.own}), nil, h.lim.p, h.lim.r)
				}, true, h.ft(nil, []types.ValType{h.own}), flat, h.lim.p, h.lim.r)
			})
			if h.stop {
				return errStop
			}
			if pan != nil || err != nil {
				return h.fail("take", "taking a resource failed: %v %v", pan, err)
			}
			var idx uint32
			if h.lim.r == 0 {
				idx = uint32((&guest{p.h.mem(), EncUTF8}).raw(at, 4))
			} else if ws, ok := anyWords(res); ok && len(ws) == 1 {
				idx = uint32(ws[0].B)
			} else {
				return h.fail("take", "the result is %s", show(res))
			}
			if err := h.received(p, idx, rep, true, 0); err != nil {
				return err
			}
		case hLend0, hLend1:
			k := op - hLend0
			if k >= len(p.live) || to.waiting {
				return nil
			}
			x := p.live[k]
			h.frames++
			f := h.frames
			leaked := false
			h.w.Step(1)
			pan := mc.Safe(func() {
				_, err = aio.CanonLower(p.opts, p.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
					if len(lifted) != 1 || lifted[0] != x.rep {
						return nil, nil, h.fail("lent", "lending the handle of %d passed %v", x.rep, lifted)
					}
					x.lends++
					p.waiting = true
					h.lent = append(h.lent, lentTo{p, x})
					res, pr, err := h.pass(to, h.borrow, lifted[0], func(idx uint32) error {
						if h.impl == (c+1)%3 {
							if idx != x.rep {
								return h.fail("borrow-rep", "the implementing component must receive the representation %d, got %d", x.rep, idx)
							}
						} else if err := h.received(to, idx, x.rep, false, f); err != nil {
							return err
						}
						h.observe("receiving a borrowed handle")
						if err := h.run((c+1)%3, f); err != nil {
							return err
						}
						for _, y := range to.live {
							if !y.own && y.frame == f {
								leaked = true
							}
						}
						return nil
					})
					return res, pr, err
				}, true, h.ft([]types.ValType{h.borrow}, nil), h.flatHandle(p, x.idx), h.lim.p, h.lim.r)
			})
			if h.stop {
				return errStop
			}
			if leaked {
				return h.trapped("ending a call that still holds a borrowed handle", err, pan)
			}
			if pan != nil || err != nil {
				return h.fail("lend", "lending handle %d failed: %v %v", x.idx, pan, err)
			}
			x.lends--
			p.waiting = false
			h.lent = h.lent[:len(h.lent)-1]
		case hEnd:
			if frame != 0 {
				h.observe("end")
				return nil
			}
			h.pos = len(h.seq)
			return nil
		case hDropLent, hGiveLent:
			if len(h.lent) == 0 {
				return nil
			}
			l := h.lent[len(h.lent)-1]
			h.w.Step(1)
			pan := mc.Safe(func() {
				if op == hDropLent {
					err = aio.CanonResourceDrop(l.p.inst, h.rt, l.h.idx)
				} else {
					_, err = aio.LiftFlat(&types.CallContext{Instance: l.p.inst, Options: l.p.opts}, values.NewIterator(values.U32(l.h.idx)), h.own)
				}
			})
			return h.trapped(name, err, pan)
		}
		if h.stop {
			return errStop
		}
		h.observe(name)
	}
	if h.stop {
		return errStop
	}
	return nil
}

// finish drops everything that is left.
func (h *history) finish() {
	if h.stop {
		return
	}
	for i, p := range h.ps {
		all := append([]*handle{}, p.live...)
		sort.Slice(all, func(a, b int) bool { return all[a].idx < all[b].idx })
		for _, x := range all {
			if !x.own {
				h.fail("left", "a borrowed handle is left in component %d", i)
				return
			}
			h.w.Step(1)
			var err error
			if pan := mc.Safe(func() { err = aio.CanonResourceDrop(p.inst, h.rt, x.idx) }); pan != nil || err != nil {
				h.fail("drop-after", "component %d cannot drop handle %d after all calls ended: %v %v", i, x.idx, pan, err)
				return
			}
			p.drop(x)
			h.dtors[x.rep]++
		}
	}
	h.observe("dropping everything")
}

func c11(tier string) []mc.Family {
	depths := map[int]int{9: 5, 1: 5, -1: 5}
	lims := []limits{{16, 16}, {0, 0}}
	if tier == "thorough" {
		depths = map[int]int{9: 7, 1: 6, -1: 6}
	}
	var fs []mc.Family
	for _, impl := range []int{9, 1, -1} {
		for _, lim := range lims {
			impl, lim := impl, lim
			depth := depths[impl]
			if lim.p == 0 && depth == 7 {
				depth = 6
			}
			fs = append(fs, mc.Family{
				Name: fmt.Sprintf("impl%d-limit%d", impl, lim.p), Bound: fmt.Sprintf("3 components, resource implemented by %s, handles passed %s, all histories of up to %d operations out of %d after creating a resource", map[int]string{9: "a fourth", 1: "the second", -1: "the host"}[impl], map[int]string{0: "in memory", 16: "as core values"}[lim.p], depth+1, numHist),
				N: mc.Pow(numHist, depth+1), // the first operation is always "new"
				Run: func(w *mc.W, i int64) {
					seq := make([]int, depth+2)
					seq[0] = hNew
					for j := 1; j < len(seq); j++ {
						seq[j] = int(i % numHist)
						i /= numHist
					}
					// canonical form: a history that ends early is explored once
					w.Desc(func() string {
						s := ""
						for _, o := range seq {
							s += histNames[o] + "; "
						}
						return s
					})
					if !plausible(seq) {
						return
					}
					h := newHistory(w, seq, impl, lim)
					h.run(0, 0)
					h.finish()
					if h.trap != "" {
						w.Trace("trap: " + h.trap)
					} else {
						w.Trace(fmt.Sprintf("completed %d calls", h.frames))
					}
				},
			})
		}
	}
	return append(append(fs, c11many()), c11bundles(tier)...)
}

// plausible prunes histories whose tail can never run, so that each is
// explored once: it tracks an upper bound of the handles that can exist.
func plausible(seq []int) bool {
	depth, handles := 0, 0
	for i, op := range seq {
		switch op {
		case hNew, hTake:
			handles++
		case hDrop1, hLend1, hGive1:
			if handles < 2 {
				return false
			}
		case hDrop2:
			if handles < 3 {
				return false
			}
		case hDropLent, hGiveLent:
			if depth == 0 {
				return false
			}
			return i == len(seq)-1 || allNew(seq[i+1:])
		case hEnd:
			if depth == 0 {
				return allNew(seq[i+1:])
			}
			depth--
		}
		if op == hLend0 || op == hLend1 {
			depth++
			handles++
		}
		if op == hDropStale || op == hLendStale {
			return allNew(seq[i+1:])
		}
	}
	return true
}

func allNew(seq []int) bool {
	for _, o := range seq {
		if o != hNew {
			return false
		}
	}
	return true
}
