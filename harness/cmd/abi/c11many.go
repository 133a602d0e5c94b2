package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/mc"
)

// Calls that pass so many handles that a counter of one or two bytes runs over.

// manyBorrows lends handles n times in one call; all is how many different
// handles these are, left how many of them the callee does not drop.
func manyBorrows(w *mc.W, n, all, left int, touch bool) {
	host := newInstance()
	ran := map[uint32]int{}
	rt := types.NewResourceType(func(rep uint32) { ran[rep]++ }, host)
	a := &comp{h: newHeap(8*n+256, 0x11), inst: newInstance()}
	b := &comp{h: newHeap(8*n+256, 0x11), inst: newInstance()}
	for _, c := range []*comp{a, b} {
		c.h.next = 16
		c.opts = c.h.options(EncUTF8)
	}
	mine := make([]uint32, all)
	for i := range mine {
		w.Step(1)
		v, err := aio.CanonResourceNew(a.inst, rt, uint32(1000+i))
		x, ok := v.(uint32)
		if err != nil || !ok {
			w.Fail("new", "creating resource %d failed: %v %v", i, v, err)
			return
		}
		mine[i] = x
	}
	vs := &V{}
	for i := 0; i < n; i++ {
		vs.L = append(vs.L, num(uint64(mine[i%all])))
	}
	ft := types.NewFuncType([]types.Parameter{{Type: types.NewList(types.NewBorrow(rt))}}, nil)
	t := ready([]*T{list(tU32)})[0]
	bd := &bundle{w: w}
	args := bd.give(a, []*T{t}, []*V{vs}, 16)
	entered := false
	core := func(flat any) (any, error) {
		entered = true
		got, ok := bd.take(b, []*T{t}, flat, 16)
		if !ok || len(got) != n {
			w.Fail("arg", "the callee received %d handles instead of %d", len(got), n)
			return nil, errStop
		}
		seen := map[uint32]bool{}
		for i, x := range got {
			if seen[x] {
				w.Fail("reissued", "index %d was handed out while still live", x)
				return nil, errStop
			}
			seen[x] = true
			rep, err := aio.CanonResourceRep(b.inst, rt, x)
			if err != nil || rep != uint32(1000+i%all) {
				w.Fail("table", "handle %d must denote %d, got %d %v", i, 1000+i%all, rep, err)
				return nil, errStop
			}
		}
		if touch {
			// attempts to drop are independent of each other only up to the first success
			for i, x := range mine {
				if err := aio.CanonResourceDrop(a.inst, rt, x); err == nil {
					w.Fail("lent", "handle %d could be dropped although it is lent %d times", i, (n-i+all-1)/all)
					return nil, errStop
				}
			}
		}
		for _, x := range got[left:] {
			w.Step(1)
			if err := aio.CanonResourceDrop(b.inst, rt, x); err != nil {
				w.Fail("drop", "the callee cannot drop a borrowed handle: %v", err)
				return nil, errStop
			}
		}
		return []any{}, nil
	}
	var err error
	w.Step(1)
	pan := mc.Safe(func() {
		_, err = aio.CanonLower(a.opts, a.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
			return aio.CanonLift(b.opts, b.inst, core, ft, lifted, 16, 1)
		}, true, ft, args, 16, 1)
	})
	switch {
	case w.Failed():
		return
	case pan != nil:
		w.Fail("panic", "the call panicked: %v", pan)
		return
	case !entered:
		w.Fail("call", "the callee did not run: %v", err)
		return
	case left > 0:
		if err == nil {
			w.Fail("accepted", "the call ended although the callee holds %d of %d borrowed handles", left, n)
		}
		w.Trace("held")
		return
	case err != nil:
		w.Fail("call", "the call failed: %v", err)
		return
	}
	for i, x := range mine {
		w.Step(1)
		if err := aio.CanonResourceDrop(a.inst, rt, x); err != nil {
			w.Fail("drop-after", "handle %d cannot be dropped after the call ended: %v", i, err)
			return
		}
		if ran[uint32(1000+i)] != 1 {
			w.Fail("dtor", "the destructor of %d ran %d times", 1000+i, ran[uint32(1000+i)])
			return
		}
	}
	w.Trace("returned")
}

func c11many() mc.Family {
	sizes := []int{1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131072}
	type job struct {
		n, all, left int
		touch        bool
	}
	var jobs []job
	for _, n := range sizes {
		for _, all := range []int{1, 2, n} {
			if all > n {
				continue
			}
			jobs = append(jobs, job{n, all, 0, false})
			if n <= 513 || all < 3 {
				jobs = append(jobs, job{n, all, 0, true})
			}
			for _, left := range sizes {
				if left <= n {
					jobs = append(jobs, job{n, all, left, false})
				}
			}
		}
	}
	return mc.Family{Name: "many", Bound: fmt.Sprintf("calls lending one, two or all different handles %v times, the callee dropping all of them or all but as many, the caller trying to drop them meanwhile", sizes), N: int64(len(jobs)),
		Run: func(w *mc.W, i int64) {
			j := jobs[i]
			w.Desc(func() string {
				return fmt.Sprintf("%d handles lent %d times, %d kept, dropped meanwhile: %v", j.all, j.n, j.left, j.touch)
			})
			w.Distinct()
			manyBorrows(w, j.n, j.all, j.left, j.touch)
		}}
}
