package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/mc"
)

// A call script: "call k" makes the running component call component k's
// function through an import; the following operations are k's until "return".
// The other operations plan an intrusion into the next call that is opened:
// while its arguments are lowered into the callee, in the host between the
// two, while results are lowered into the caller, in the callee's post-return,
// or perform one now (dropping a resource of component k, entering k from a
// nested host call).
const (
	xCall     = iota // +k
	xReturn   = 3
	xArgAlloc = 4  // +k: while arguments are lowered
	xHost     = 7  // +k: in the host, before the callee is entered
	xResAlloc = 10 // +k: while results are lowered
	xPost     = 13 // +k: in post-return
	xDrop     = 16 // +k: drop a resource implemented by k
	numX      = 19
)

func xName(op int) string {
	switch {
	case op < 3:
		return fmt.Sprintf("call %d", op)
	case op == xReturn:
		return "return"
	case op < xHost:
		return fmt.Sprintf("use %d while arguments are lowered", op-xArgAlloc)
	case op < xResAlloc:
		return fmt.Sprintf("use %d from the import", op-xHost)
	case op < xPost:
		return fmt.Sprintf("use %d while results are lowered", op-xResAlloc)
	case op < xDrop:
		return fmt.Sprintf("use %d from post-return", op-xPost)
	}
	return fmt.Sprintf("drop a resource of %d", op-xDrop)
}

type xparty struct {
	*comp
	waiting  int // import calls in progress
	lowering int // values are being lowered into it
	running  int // its code is on the stack
	rt       types.ResourceType
	dtors    int
}

type xrun struct {
	w       *mc.W
	seq     []int
	pos     int
	ps      []*xparty
	plan    map[int][]int // kind of point -> components to attack
	ft      types.FuncType
	stop    bool
	imp     bool
	key     string
	outcome string
}

func newXrun(w *mc.W, seq []int, imp bool) *xrun {
	x := &xrun{w: w, seq: seq, plan: map[int][]int{}, imp: imp, ft: funcType([]*T{tStr}, []*T{tStr})}
	for i := 0; i < 3; i++ {
		c := &comp{h: newHeap(256, 0), inst: newInstance()}
		c.h.next = 16
		c.opts = c.h.options(EncUTF8)
		p := &xparty{comp: c}
		p.rt = types.NewResourceType(func(uint32) { p.dtors++ }, c.inst)
		x.ps = append(x.ps, p)
	}
	return x
}

func (x *xrun) fail(sig, f string, a ...any) {
	x.w.Fail(sig, f, a...)
	x.stop = true
}

// use tries to enter component k and to call out from it.
func (x *xrun) use(k int, where string) {
	if x.stop {
		return
	}
	p := x.ps[k]
	ran := false
	var err error
	x.w.Step(1)
	enter := func() {
		ran = false
		err = nil
		if pan := mc.Safe(func() {
			_, _, err = aio.CanonLift(p.opts, p.inst, func(any) (any, error) { ran = true; return []any{}, nil }, funcType(nil, nil), nil, 16, 16)
		}); pan != nil {
			x.fail("panic", "entering component %d from %s panicked: %v", k, where, pan)
		}
	}
	leave := func() {
		ran = false
		err = nil
		if pan := mc.Safe(func() {
			_, err = aio.CanonLower(p.opts, p.inst, func([]any) ([]any, types.PostReturnFunc, error) {
				ran = true
				return []any{}, func() {}, nil
			}, true, funcType(nil, nil), []any{}, 16, 16)
		}); pan != nil {
			x.fail("panic", "calling out of component %d from %s panicked: %v", k, where, pan)
		}
	}
	switch {
	case p.lowering > 0:
		enter()
		if ran || err == nil {
			x.fail("enter-lowering", "component %d was entered from %s while values were being lowered into it", k, where)
		}
		leave()
		if ran || err == nil {
			x.fail("leave-lowering", "component %d called out from %s while values were being lowered into it", k, where)
		}
		x.outcome += "L"
	case p.waiting > 0:
		enter()
		if ran || err == nil {
			x.fail("reentered", "component %d was entered from %s while waiting for an import", k, where)
		}
		x.outcome += "W"
	case p.running > 0:
		// its own code is on the stack without waiting: not a situation a host can produce
	default:
		enter()
		if !ran || err != nil {
			x.fail("locked", "component %d is idle but could not be entered from %s: %v", k, where, err)
		}
		leave()
		if !ran || err != nil {
			x.fail("locked", "component %d is idle but could not call out from %s: %v", k, where, err)
		}
		x.outcome += "."
	}
}

func (x *xrun) attack(plan map[int][]int, point int, where string) {
	for _, k := range plan[point] {
		x.use(k, where)
	}
}

// text builds a string argument in a component's memory.
func (p *xparty) text(s string) []any {
	at := p.h.next
	copy(p.h.mem()[at:], s)
	p.h.next += uint32(len(s))
	return []any{values.U32(at), values.U32(uint32(len(s)))}
}

// call: component c calls component k through an import.
func (x *xrun) call(c, k int) {
	caller, callee := x.ps[c], x.ps[k]
	plan := x.plan
	x.plan = map[int][]int{}
	refused := callee.waiting > 0 || callee.lowering > 0 || c == k && x.imp
	entered := false
	var err error
	// the allocators attack once, when the planned lowering happens
	hook := func(p *xparty, point int, where string) func() {
		done := false
		p.lowering++
		p.h.answer = func(align, size uint32) (uint32, error) {
			at := uint32(alignUp(uint64(p.h.next), uint64(align)))
			p.h.next = at + size
			if !done {
				done = true
				x.attack(plan, point, where)
			}
			return at, nil
		}
		return func() {
			p.lowering--
			p.h.answer = nil
			if !done && !x.stop && !refused {
				x.fail("no-alloc", "a string was lowered into component without its allocator")
			}
		}
	}
	res := ""
	x.w.Step(2)
	pan := mc.Safe(func() {
		_, err = aio.CanonLower(caller.opts, caller.inst, func(lifted []any) ([]any, types.PostReturnFunc, error) {
			if x.imp {
				caller.waiting++
			}
			x.attack(plan, xHost, "the import")
			if x.stop {
				return nil, nil, errStop
			}
			release := hook(callee, xArgAlloc, "its allocator (arguments)")
			out, pr, err := aio.CanonLift(callee.opts, callee.inst, func(any) (any, error) {
				entered = true
				release()
				release = func() {}
				callee.running++
				x.body(k)
				callee.running--
				if x.stop {
					return nil, errStop
				}
				return callee.text("res"), nil
			}, x.ft, lifted, 16, 16)
			release()
			if err != nil {
				return nil, nil, err
			}
			if len(out) == 1 {
				res, _ = out[0].(string)
			}
			done := hook(caller, xResAlloc, "its allocator (results)")
			return out, func() {
				done()
				x.attack(plan, xPost, "post-return")
				pr()
			}, nil
		}, x.imp, x.ft, caller.text("arg"), 16, 16)
	})
	if x.stop {
		return
	}
	if pan != nil {
		x.fail("panic", "the call panicked: %v", pan)
		return
	}
	if refused {
		if err == nil || entered {
			x.fail("reentered", "component %d was entered by a call while it could not be", k)
		}
		x.stop = true // the failed call propagates; nothing more is judged
		x.outcome += "R"
		return
	}
	if err != nil {
		x.fail("failed", "the call of component %d by %d failed: %v", k, c, err)
		return
	}
	if res != "res" {
		x.fail("result", "result %q", res)
	}
	if x.imp {
		caller.waiting--
	}
}

// body performs the script as component c until it returns.
func (x *xrun) body(c int) {
	for x.pos < len(x.seq) && !x.stop {
		op := x.seq[x.pos]
		x.pos++
		switch {
		case op < 3:
			x.call(c, op)
		case op == xReturn:
			return
		case op < xHost:
			x.plan[xArgAlloc] = append(x.plan[xArgAlloc], op-xArgAlloc)
		case op < xResAlloc:
			x.plan[xHost] = append(x.plan[xHost], op-xHost)
		case op < xPost:
			x.plan[xResAlloc] = append(x.plan[xResAlloc], op-xResAlloc)
		case op < xDrop:
			x.plan[xPost] = append(x.plan[xPost], op-xPost)
		default:
			k := op - xDrop
			p, impl := x.ps[c], x.ps[k]
			before := impl.dtors
			x.w.Step(1)
			var err error
			pan := mc.Safe(func() {
				var v any
				v, err = aio.CanonResourceNew(p.inst, impl.rt, 7)
				if err == nil {
					err = aio.CanonResourceDrop(p.inst, impl.rt, v.(uint32))
				}
			})
			if pan != nil {
				x.fail("panic", "dropping a resource panicked: %v", pan)
				return
			}
			if k != c && impl.waiting > 0 {
				if err == nil || impl.dtors != before {
					x.fail("dtor-reentered", "the destructor of waiting component %d was run", k)
				}
				x.stop = true
				x.outcome += "D"
				return
			}
			if err != nil || impl.dtors != before+1 {
				x.fail("dtor", "dropping a resource of component %d: %v, destructor ran %d times", k, err, impl.dtors-before)
			}
		}
	}
}

func c12(tier string) []mc.Family {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	var fs []mc.Family
	for _, imp := range []bool{true, false} {
		imp := imp
		name := "imports"
		if !imp {
			name = "children"
		}
		d := depth
		fs = append(fs, mc.Family{
			Name: name, Bound: fmt.Sprintf("3 components, all scripts of %d operations out of %d (calls, returns, intrusions from allocators, imports, post-returns and destructors)", d+1, numX), N: mc.Pow(numX, d+1),
			Run: func(w *mc.W, i int64) { xCase(w, seqOf(i, numX, d+1), imp) },
		})
	}
	// deeper nesting with fewer kinds of intrusion
	few := []int{0, 1, 2, xReturn, xHost, xHost + 1, xArgAlloc + 1, xResAlloc, xDrop}
	n := 6
	if tier == "thorough" {
		n = 8
	}
	fs = append(fs, mc.Family{
		Name: "deep", Bound: fmt.Sprintf("3 components, all scripts of %d operations out of %d", n, len(few)), N: mc.Pow(len(few), n),
		Run: func(w *mc.W, i int64) {
			seq := seqOf(i, len(few), n)
			for j := range seq {
				seq[j] = few[seq[j]]
			}
			xCase(w, seq, true)
		},
	})
	return fs
}

func seqOf(i int64, k, n int) []int {
	seq := make([]int, n)
	for j := range seq {
		seq[j] = int(i % int64(k))
		i /= int64(k)
	}
	return seq
}

func xCase(w *mc.W, seq []int, imp bool) {
	// intrusions planned with no call after them never happen
	calls, open := 0, 0
	last := -1
	for j, op := range seq {
		if op < 3 {
			calls++
			open++
			last = j
		}
		if op == xReturn {
			if open == 0 {
				return
			}
			open--
		}
	}
	if calls == 0 {
		return
	}
	for _, op := range seq[last+1:] {
		if op >= xArgAlloc && op < xDrop {
			return
		}
	}
	w.Desc(func() string {
		s := ""
		for _, op := range seq {
			s += xName(op) + "; "
		}
		return s
	})
	if !imp && selfCall(seq) {
		return
	}
	x := newXrun(w, seq, imp)
	// the host enters component 0, whose code runs the script
	var err error
	p := x.ps[0]
	pan := mc.Safe(func() {
		_, _, err = aio.CanonLift(p.opts, p.inst, func(any) (any, error) {
			p.running++
			for x.pos < len(x.seq) && !x.stop {
				x.body(0)
			}
			p.running--
			if x.stop {
				return nil, errStop
			}
			return []any{}, nil
		}, funcType(nil, nil), nil, 16, 16)
	})
	w.State(fmt.Sprint(seq, imp))
	if pan != nil {
		x.fail("panic", "panicked: %v", pan)
	}
	if !x.stop {
		if err != nil {
			x.fail("failed", "the outer call failed: %v", err)
		}
		for k := range x.ps {
			x.use(k, "the host afterwards")
		}
	}
	w.Trace(x.outcome)
}

// selfCall: without import marking, a component entering itself again is not judged.
func selfCall(seq []int) bool {
	stack := []int{0}
	for _, op := range seq {
		if op < 3 {
			for _, s := range stack {
				if s == op {
					return true
				}
			}
			stack = append(stack, op)
		}
		if op == xReturn && len(stack) > 1 {
			stack = stack[:len(stack)-1]
		}
	}
	return false
}
