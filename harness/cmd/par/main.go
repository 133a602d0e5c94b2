// Command par explores operations on separate data that take turns or run at
// the same time (property C28).
package main

import (
	"fmt"
	"sync"
	"time"

	"verif/harness/mc"
)

// op is an operation in a world of its own. It calls yield wherever it hands
// control to its environment and returns what it observed.
type op struct {
	name string
	run  func(yield func()) string
}

// guard turns a panic into an observation.
func (o *op) guard(yield func()) (out string) {
	if p := mc.Safe(func() { out = o.run(yield) }); p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return out
}

// alone is what the operation does on its own: what it observes and how often
// it yields.
func (o *op) alone() (string, int) {
	n := 0
	s := o.guard(func() { n++ })
	return s, n
}

// task is an operation that runs under the scheduler: it only moves between
// resume and the next yield.
type task struct {
	resume  chan struct{}
	stopped chan bool // true: the operation is over
	free    chan struct{}
	out     string
	done    bool
}

func start(o *op) *task {
	t := &task{resume: make(chan struct{}), stopped: make(chan bool, 1), free: make(chan struct{})}
	go func() {
		select {
		case <-t.resume:
		case <-t.free:
		}
		t.out = o.guard(func() {
			select {
			case <-t.free:
				return
			default:
			}
			t.stopped <- false
			select {
			case <-t.resume:
			case <-t.free:
			}
		})
		t.stopped <- true
	}()
	return t
}

const patience = 3 * time.Second

// step lets the task run up to its next yield; false if it does not get there
// because it waits for something.
func (t *task) step() bool {
	if t.done {
		return true
	}
	t.resume <- struct{}{}
	select {
	case t.done = <-t.stopped:
		return true
	default:
	}
	timer := time.NewTimer(patience)
	defer timer.Stop()
	select {
	case t.done = <-t.stopped:
		return true
	case <-timer.C:
		return false
	}
}

// let runs both tasks to their end without a schedule.
func let(ts ...*task) bool {
	for _, t := range ts {
		close(t.free)
	}
	timer := time.NewTimer(10 * patience)
	defer timer.Stop()
	for _, t := range ts {
		for !t.done {
			select {
			case t.done = <-t.stopped:
			case <-timer.C:
				return false
			}
		}
	}
	return true
}

// schedule runs two operations: first moves lens[0] steps, the other lens[1],
// and so on; what is left runs to the end, the one whose turn it is first.
func schedule(a, b *op, lens []int) (outs [2]string, steps int, blocked, hung bool) {
	ts := [2]*task{start(a), start(b)}
	who := 0
	for _, n := range lens {
		for k := 0; k < n; k++ {
			steps++
			if !ts[who].step() {
				hung = !let(ts[0], ts[1])
				return [2]string{ts[0].out, ts[1].out}, steps, true, hung
			}
		}
		who = 1 - who
	}
	for k := 0; k < 2; k++ {
		for !ts[who].done {
			steps++
			if !ts[who].step() {
				hung = !let(ts[0], ts[1])
				return [2]string{ts[0].out, ts[1].out}, steps, true, hung
			}
		}
		who = 1 - who
	}
	return [2]string{ts[0].out, ts[1].out}, steps, false, false
}

// switches is how many switches the schedules of two operations get.
func switches(na, nb int, most int64) int {
	k := 1
	for k < 8 && count(na, nb, k+1) <= most {
		k++
	}
	return k
}

// count is the number of schedules with exactly up to k switches.
func count(na, nb, k int) int64 {
	n := int64(0)
	lens(na, nb, k, func([]int) bool { n++; return n < 1<<20 })
	return n
}

// lens enumerates the lengths of the turns for up to k switches between an
// operation of na steps and one of nb.
func lens(na, nb, k int, f func([]int) bool) bool {
	var rec func(cur []int, left [2]int) bool
	rec = func(cur []int, left [2]int) bool {
		if !f(cur) {
			return false
		}
		if len(cur) == k {
			return true
		}
		for n := 1; n <= left[0]; n++ {
			if !rec(append(cur[:len(cur):len(cur)], n), [2]int{left[1], left[0] - n}) {
				return false
			}
		}
		return true
	}
	return rec(nil, [2]int{na, nb})
}

func pairs(name, what string, ops []*op, most int64) mc.Family {
	n := len(ops)
	return mc.Family{
		Name: "turns: " + name, Bound: fmt.Sprintf("every ordered pair of %d %s, every schedule with as many switches as stay below %d schedules", n, what, most), N: int64(n * n), Heavy: true,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, n, n)
			a, b := ops[d[0]], ops[d[1]]
			cur := []int(nil)
			w.Desc(func() string { return fmt.Sprintf("%s and %s, turns %v", a.name, b.name, cur) })
			wa, na := a.alone()
			wb, nb := b.alone()
			k := switches(na+1, nb+1, most)
			w.Desc(func() string {
				return fmt.Sprintf("%s and %s, turns of %v steps, then the rest", a.name, b.name, cur)
			})
			lens(na+1, nb+1, k, func(l []int) bool {
				cur = l
				outs, steps, blocked, hung := schedule(a, b, l)
				w.Distinct()
				w.Step(steps)
				switch {
				case hung:
					w.Fail("blocked", "neither operation gets on")
				case outs[0] != wa:
					w.Fail("turns", "%s yields %.300s instead of %.300s when %s takes turns with it", a.name, outs[0], wa, b.name)
				case outs[1] != wb:
					w.Fail("turns", "%s yields %.300s instead of %.300s when %s takes turns with it", b.name, outs[1], wb, a.name)
				}
				if blocked {
					w.Trace("waited for each other")
				} else {
					w.Trace(fmt.Sprintf("%d switches", len(l)))
				}
				return !w.Failed()
			})
		},
	}
}

// repeat runs an operation several times over, after every other one.
func again(ops []*op) mc.Family {
	n := len(ops)
	return mc.Family{
		Name: "in a row", Bound: fmt.Sprintf("every ordered triple a, b, a of %d operations, and each operation twice", n), N: int64(n * n),
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, n, n)
			a, b := ops[d[0]], ops[d[1]]
			w.Desc(func() string { return a.name + " before and after " + b.name })
			first, _ := a.alone()
			b.alone()
			second, _ := a.alone()
			w.Distinct()
			w.Step(3)
			if first != second {
				w.Fail("in a row", "%s yields %.300s at first and %.300s after %s", a.name, first, second, b.name)
			}
			w.Trace("same")
		},
	}
}

var alone sync.RWMutex

// together runs pairs of operations at the same time under a monitor of
// conflicting accesses, which notices what any interleaving could mix up.
func together(name string, ops []*op, rounds int) mc.Family {
	n := len(ops)
	return mc.Family{
		Name: "at once: " + name, Bound: fmt.Sprintf("every pair of %d operations at the same time, %d rounds, accesses monitored: %v", n, rounds, monitored), N: int64(n * (n + 1) / 2), Heavy: true,
		Run: func(w *mc.W, i int64) {
			x := 0
			for i >= int64(n-x) {
				i -= int64(n - x)
				x++
			}
			a, b := ops[x], ops[x+int(i)]
			w.Desc(func() string { return a.name + " and " + b.name + " at the same time" })
			alone.Lock()
			defer alone.Unlock()
			before := conflicts()
			for r := 0; r < rounds; r++ {
				var outs [2]string
				var wg sync.WaitGroup
				gate := make(chan struct{})
				for k, o := range []*op{a, b} {
					k, o := k, o
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-gate
						outs[k] = o.guard(func() {})
					}()
				}
				close(gate)
				wg.Wait()
				w.Step(2)
				if c := conflicts(); c != before {
					w.Fail("conflict", "%s and %s access the same memory without an order", a.name, b.name)
					break
				}
				if r == 0 {
					wa, _ := a.alone()
					wb, _ := b.alone()
					if outs[0] != wa || outs[1] != wb {
						w.Fail("at once", "%s and %s yield %.300s and %.300s instead of %.300s and %.300s", a.name, b.name, outs[0], outs[1], wa, wb)
						break
					}
				}
			}
			w.Distinct()
			w.Trace("undisturbed")
		},
	}
}

func c28(tier string) []mc.Family {
	most, rounds := int64(300), 2
	if tier == "thorough" {
		most, rounds = 1000, 4
	}
	groups := []struct {
		name, what string
		ops        []*op
	}{
		{"streams", "decoders and encoders of numbers and modules over byte streams", streamOps()},
		{"codecs", "text conversions", codecOps()},
		{"marshalling", "marshalling operations, calls and resources, each in a memory and instance of its own, with the same types", abiOps()},
		{"texts", "lexers and parsers", textOps()},
		{"stores", "instantiations, each in a store of its own", storeOps()},
	}
	var fs []mc.Family
	var all []*op
	for _, g := range groups {
		fs = append(fs, together(g.name, g.ops, rounds))
		all = append(all, g.ops...)
	}
	fs = append(fs, again(all))
	for _, g := range groups {
		fs = append(fs, pairs(g.name, g.what, g.ops, most))
	}
	return fs
}

func main() {
	mc.Main([]mc.Property{{ID: "C28", Families: c28, Concurrent: true, Assumptions: []string{
		"operations are scheduled where they interact with their environment; between those points conflicting accesses are monitored instead",
	}}})
}
