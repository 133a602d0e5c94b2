package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/mc"
)

// htable is the reference for one handle table.
type htable struct {
	inst  *types.ComponentInstance
	rt    types.ResourceType
	own   types.Own
	plain bool              // no destructor
	live  []uint32          // indices, oldest first
	rep   map[uint32]uint32 // live index -> representation
	stale []uint32          // dropped indices, latest last
}

type handleWorld struct {
	w      *mc.W
	tabs   []*htable
	issued map[uint32]bool
	next   uint32
	cx     *types.CallContext
	log    string
	dtor   map[uint32]int
}

func newHandleWorld(w *mc.W, insts, rts int) *handleWorld {
	hw := &handleWorld{w: w, issued: map[uint32]bool{}, next: 1000, dtor: map[uint32]int{}}
	impl := newInstance()
	var is []*types.ComponentInstance
	for i := 0; i < insts; i++ {
		is = append(is, newInstance())
	}
	for r := 0; r < rts; r++ {
		// every second resource type has no destructor
		plain := r%2 == 1
		rt := types.NewResourceType(func(rep uint32) { hw.dtor[rep]++ }, impl)
		if plain {
			rt = types.NewResourceType(nil, impl)
		}
		for _, in := range is {
			hw.tabs = append(hw.tabs, &htable{inst: in, rt: rt, own: types.NewOwn(rt), plain: plain, rep: map[uint32]uint32{}})
		}
	}
	return hw
}

func (hw *handleWorld) idx(v any) (uint32, bool) {
	switch x := v.(type) {
	case uint32:
		return x, true
	case values.Value:
		u, ok := x.Value().(uint32)
		return u, ok
	}
	return 0, false
}

func (hw *handleWorld) add(t *htable, lower bool) {
	rep := hw.next
	hw.next++
	var i uint32
	var ok bool
	var err error
	p := mc.Safe(func() {
		if lower {
			var vs []values.Value
			vs, err = aio.LowerFlat(&types.CallContext{Instance: t.inst}, rep, t.own)
			if err == nil && len(vs) == 1 {
				i, ok = hw.idx(vs[0])
			}
			return
		}
		var v any
		v, err = aio.CanonResourceNew(t.inst, t.rt, rep)
		i, ok = hw.idx(v)
	})
	hw.w.Step(1)
	if p != nil || err != nil || !ok {
		hw.w.Fail("create", "creating a handle failed: panic=%v err=%v", p, err)
		return
	}
	if _, live := t.rep[i]; live {
		hw.w.Fail("reissued", "index %d was handed out while still live", i)
		return
	}
	for k, s := range t.stale {
		if s == i {
			t.stale = append(t.stale[:k:k], t.stale[k+1:]...)
			break
		}
	}
	t.live = append(t.live, i)
	t.rep[i] = rep
	hw.issued[i] = true
}

// remove drops or gives away index i; ok tells whether that must work.
func (hw *handleWorld) remove(t *htable, i uint32, lift bool) {
	rep, live := t.rep[i]
	before := hw.dtor[rep]
	var got any
	var err error
	p := mc.Safe(func() {
		if lift {
			got, err = aio.LiftFlat(&types.CallContext{Instance: t.inst}, values.NewIterator(values.U32(i)), t.own)
		} else {
			err = aio.CanonResourceDrop(t.inst, t.rt, i)
		}
	})
	hw.w.Step(1)
	switch {
	case p != nil:
		hw.w.Fail("panic", "panicked: %v", p)
		return
	case !live:
		if err == nil {
			hw.w.Fail("resurrected", "index %d is not live but could be used", i)
		}
		return
	case err != nil:
		hw.w.Fail("remove", "index %d is live but could not be removed: %v", i, err)
		return
	}
	if lift {
		if r, ok := hw.idx(got); !ok || r != rep {
			hw.w.Fail("lifted", "index %d gave %v instead of %d", i, got, rep)
		}
	} else if !t.plain && hw.dtor[rep] != before+1 {
		hw.w.Fail("dtor", "dropping the handle of %d did not run its destructor", rep)
	}
	delete(t.rep, i)
	for k, x := range t.live {
		if x == i {
			t.live = append(t.live[:k:k], t.live[k+1:]...)
		}
	}
	t.stale = append(t.stale, i)
}

// observe reads every index in every table.
func (hw *handleWorld) observe() {
	var hi uint32
	for i := range hw.issued {
		if i > hi {
			hi = i
		}
	}
	probe := func(t *htable, i uint32) {
		var got uint32
		var err error
		p := mc.Safe(func() { got, err = aio.CanonResourceRep(t.inst, t.rt, i) })
		rep, live := t.rep[i]
		switch {
		case p != nil:
			hw.w.Fail("panic", "reading index %d panicked: %v", i, p)
		case live && err != nil:
			hw.w.Fail("lost", "index %d is live but cannot be read: %v", i, err)
		case live && got != rep:
			hw.w.Fail("confused", "index %d denotes %d instead of %d", i, got, rep)
		case !live && err == nil:
			hw.w.Fail("resurrected", "index %d is not live but denotes %d", i, got)
		}
	}
	for _, t := range hw.tabs {
		for i := range hw.issued {
			probe(t, i)
		}
		for _, i := range []uint32{hi + 1, hi + 2, 0x7fffffff, 0x80000000, 0xffffffff} {
			if !hw.issued[i] {
				probe(t, i)
			}
		}
	}
	hw.w.Step(1)
}

func (hw *handleWorld) key() string {
	s := ""
	for _, t := range hw.tabs {
		s += fmt.Sprint(t.live, t.stale, ";")
	}
	return s
}

var handleOps = []string{"new", "lower own", "drop oldest", "drop 2nd", "drop newest", "give oldest", "give 2nd", "drop stale", "give stale", "drop unknown"}

func c10(tier string) []mc.Family {
	thorough := tier == "thorough"
	run := func(name string, insts, rts, depth int, ops []int) mc.Family {
		nt := insts * rts
		k := nt * len(ops)
		return mc.Family{
			Name: name, Bound: fmt.Sprintf("%d instances × %d resource types, all histories of up to %d operations out of %d, every index read after every operation", insts, rts, depth, k),
			N: mc.SeqCount(k, depth) - mc.SeqCount(k, depth-1),
			Run: func(w *mc.W, i int64) {
				seq := make([]int, depth)
				for j := range seq {
					seq[j] = int(i % int64(k))
					i /= int64(k)
				}
				w.Desc(func() string {
					s := ""
					for _, o := range seq {
						s += fmt.Sprintf("%s@%d; ", handleOps[ops[o%len(ops)]], o/len(ops))
					}
					return s
				})
				hw := newHandleWorld(w, insts, rts)
				for _, o := range seq {
					t := hw.tabs[o/len(ops)]
					switch ops[o%len(ops)] {
					case 0:
						hw.add(t, false)
					case 1:
						hw.add(t, true)
					case 2, 5:
						if len(t.live) > 0 {
							hw.remove(t, t.live[0], ops[o%len(ops)] == 5)
						}
					case 3, 6:
						if len(t.live) > 1 {
							hw.remove(t, t.live[1], ops[o%len(ops)] == 6)
						}
					case 4:
						if len(t.live) > 2 {
							hw.remove(t, t.live[len(t.live)-1], false)
						}
					case 7, 8:
						if len(t.stale) > 0 {
							hw.remove(t, t.stale[len(t.stale)-1], ops[o%len(ops)] == 8)
						}
					case 9:
						hw.remove(t, 77, false)
					}
					hw.observe()
					w.State(hw.key())
					if w.Failed() {
						break
					}
				}
				w.Trace(fmt.Sprintf("%d live", len(hw.tabs[0].live)))
			},
		}
	}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	few := []int{0, 2, 3, 4}
	cross := []int{0, 2, 4, 7}
	var fs []mc.Family
	if thorough {
		fs = append(fs, run("one-table", 1, 1, 7, all), run("one-table-deep", 1, 1, 11, few), run("two-instances", 2, 1, 7, cross), run("two-types", 1, 2, 7, cross), run("four-tables", 2, 2, 5, cross))
	} else {
		fs = append(fs, run("one-table", 1, 1, 5, all), run("one-table-deep", 1, 1, 9, few), run("two-instances", 2, 1, 5, cross), run("two-types", 1, 2, 5, cross), run("four-tables", 2, 2, 4, cross))
	}
	// long runs: indices are reused rather than leaked
	fs = append(fs, mc.Family{Name: "cycles", Bound: "5000 create/drop cycles with 0..7 handles kept live, dropped oldest- or newest-first", N: 16, Heavy: true, Run: func(w *mc.W, i int64) {
		keep := int(i / 2)
		w.Desc(func() string { return fmt.Sprintf("cycles with %d live, newest first=%v", keep, i%2 == 1) })
		w.Distinct()
		hw := newHandleWorld(w, 1, 1)
		t := hw.tabs[0]
		var hi uint32
		for n := 0; n < 5000 && !w.Failed(); n++ {
			hw.add(t, n%2 == 1)
			if x := t.live[len(t.live)-1]; x > hi {
				hi = x
			}
			if len(t.live) > keep {
				k := 0
				if i%2 == 1 {
					k = len(t.live) - 1
				}
				hw.remove(t, t.live[k], n%3 == 2)
			}
			if n%500 == 0 {
				hw.observe()
			}
			if len(t.stale) > 64 {
				t.stale = t.stale[32:]
			}
		}
		hw.observe()
		if hi > 1000 {
			w.Fail("leak", "with at most %d live handles the table grew to index %d", keep+1, hi)
		}
		w.Trace("cycles")
	}})
	// many handles live at once, some dropped, as many created again
	sizes := []int{127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000}
	picks := []struct {
		name string
		f    func(i, n int) bool
	}{
		{"none", func(i, n int) bool { return false }}, {"all", func(i, n int) bool { return true }},
		{"every second", func(i, n int) bool { return i%2 == 0 }}, {"all but every second", func(i, n int) bool { return i%2 == 1 }},
		{"the first half", func(i, n int) bool { return i < n/2 }}, {"the second half", func(i, n int) bool { return i >= n/2 }},
		{"the first", func(i, n int) bool { return i == 0 }}, {"the last", func(i, n int) bool { return i == n-1 }},
		{"all but every hundredth", func(i, n int) bool { return i%100 != 0 }},
	}
	fs = append(fs, mc.Family{Name: "many", Bound: fmt.Sprintf("%v handles live at once, %d choices of which to drop, oldest or newest first, and created again, twice over", sizes, len(picks)), N: int64(len(sizes) * len(picks) * 2), Heavy: true, Run: func(w *mc.W, i int64) {
		d := mc.Mixed(i, 2, len(picks), len(sizes))
		n, pick := sizes[d[2]], picks[d[1]]
		w.Desc(func() string { return fmt.Sprintf("%d handles, dropping %s, backwards=%v", n, pick.name, d[0] == 1) })
		w.Distinct()
		manyHandles(w, n, pick.f, d[0] == 1)
		w.Trace("many")
	}})
	return fs
}

func manyHandles(w *mc.W, n int, pick func(i, n int) bool, backwards bool) {
	inst := newInstance()
	ran := map[uint32]int{}
	rt := types.NewResourceType(func(rep uint32) { ran[rep]++ }, newInstance())
	rep := map[uint32]uint32{}
	var order []uint32
	next := uint32(1 << 20)
	add := func() bool {
		next++
		v, err := aio.CanonResourceNew(inst, rt, next)
		idx, ok := v.(uint32)
		if err != nil || !ok {
			w.Fail("create", "creating a handle failed: %v", err)
			return false
		}
		if _, live := rep[idx]; live {
			w.Fail("reissued", "index %d was handed out while still live", idx)
			return false
		}
		rep[idx] = next
		order = append(order, idx)
		return true
	}
	check := func(gone []uint32) bool {
		for idx, r := range rep {
			got, err := aio.CanonResourceRep(inst, rt, idx)
			if err != nil || got != r {
				w.Fail("confused", "index %d denotes %d (%v) instead of %d", idx, got, err, r)
				return false
			}
		}
		for _, idx := range gone {
			if got, err := aio.CanonResourceRep(inst, rt, idx); err == nil {
				w.Fail("resurrected", "index %d was dropped but denotes %d", idx, got)
				return false
			}
		}
		w.Step(len(rep) + len(gone))
		return true
	}
	if p := mc.Safe(func() {
		for len(order) < n {
			if !add() {
				return
			}
		}
		for round := 0; round < 2; round++ {
			var gone, kept []uint32
			for k := range order {
				idx := order[k]
				if backwards {
					idx = order[n-1-k]
				}
				if !pick(k, n) {
					kept = append(kept, idx)
					continue
				}
				r := rep[idx]
				if err := aio.CanonResourceDrop(inst, rt, idx); err != nil || ran[r] != 1 {
					w.Fail("remove", "index %d could not be dropped: %v, destructor ran %d times", idx, err, ran[r])
					return
				}
				gone = append(gone, idx)
				delete(rep, idx)
			}
			w.Step(len(gone))
			if !check(gone) {
				return
			}
			order = kept
			for len(order) < n {
				if !add() {
					return
				}
			}
			if !check(nil) {
				return
			}
			var hi uint32
			for _, idx := range order {
				hi = max(hi, idx)
			}
			if hi > uint32(2*n+16) {
				w.Fail("leak", "with at most %d live handles the table grew to index %d", n, hi)
				return
			}
		}
	}); p != nil {
		w.Fail("panic", "panicked: %v", p)
	}
}
