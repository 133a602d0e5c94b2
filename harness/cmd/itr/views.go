//go:build extra

package main

import (
	"fmt"
	"math"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/mc"
)

// slotPair is a request through a view: the kind in the shared slot and the kind asked for.
type slotPair struct{ have, want kind.Kind }

var slotPairs = []slotPair{
	{kind.U32, kind.U32}, {kind.U64, kind.U64}, {kind.Float32, kind.Float32}, {kind.Float64, kind.Float64},
	{kind.U32, kind.Float32}, {kind.U64, kind.U32}, {kind.U64, kind.Float32}, {kind.U64, kind.Float64},
}

// views explores the views through which the shared slots of a variant are taken.
func views(np int) []mc.Family {
	var fs []mc.Family
	np2 := len(slotPairs) * len(patterns)
	fs = append(fs, mc.Family{Name: "views", Bound: fmt.Sprintf("every sequence of up to %d slots of the 8 pairs of kinds with %d bit patterns, through a view, then a value behind it", np, len(patterns)), N: mc.SeqCount(np2, np),
		Run: func(w *mc.W, i int64) {
			seq := mc.Seq(i, np2, np, nil)
			w.StateBytes([]byte(fmt.Sprint("v", seq)))
			w.Desc(func() string {
				s := ""
				for _, x := range seq {
					s += fmt.Sprintf(" %v with bits %x taken as %v,", slotPairs[x%8].have, patterns[x/8], slotPairs[x%8].want)
				}
				return "through a view:" + s
			})
			guard(w, func() {
				var vs []values.Value
				var have []kind.Kind
				for _, x := range seq {
					vs = append(vs, coreFrom(slotPairs[x%8].have, patterns[x/8]))
					have = append(have, slotPairs[x%8].have)
				}
				vs = append(vs, values.Float64(2.5))
				given := append([]kind.Kind{}, have...)
				inner := values.NewIterator(vs...)
				view := values.NewCoerceValueIterator(inner, given)
				at(w, "at the start", view, 0, len(vs))
				for j, x := range seq {
					when := fmt.Sprintf("slot %d", j)
					took(w, when, view, slotPairs[x%8].want, patterns[x/8])
					at(w, when, view, j+1, len(vs))
					at(w, when+" from below", inner, j+1, len(vs))
					if left := view.FlatTypes(); fmt.Sprint(left) != fmt.Sprint(have[j+1:]) {
						w.Fail("kinds left", "%s: the kinds left are %v, not %v", when, left, have[j+1:])
					}
				}
				refused(w, "after the slots", view, kind.Float64)
				if fmt.Sprint(given) != fmt.Sprint(have) {
					w.Fail("given kinds", "the kinds given are %v afterwards, were %v", given, have)
				}
				below := view.ValueIterator()
				if below.Index() == len(seq) {
					took(w, "behind the view", below, kind.Float64, math.Float64bits(2.5))
					refused(w, "after the end", inner, kind.Float64)
				}
				w.Trace(fmt.Sprintf("%d slots", len(seq)))
			})
		}})
	// views upon views, as a variant within a variant has them
	type chain struct{ ks [4]kind.Kind }
	var chains []chain
	can := func(a, b kind.Kind) bool {
		for _, p := range slotPairs {
			if p.have == a && p.want == b {
				return true
			}
		}
		return false
	}
	for i := int64(0); i < 256; i++ {
		x := mc.Mixed(i, 4, 4, 4, 4)
		c := chain{[4]kind.Kind{coreKinds[x[0]], coreKinds[x[1]], coreKinds[x[2]], coreKinds[x[3]]}}
		if can(c.ks[0], c.ks[1]) && can(c.ks[1], c.ks[2]) && can(c.ks[2], c.ks[3]) {
			chains = append(chains, c)
		}
	}
	fs = append(fs, mc.Family{Name: "views upon views", Bound: fmt.Sprintf("every pair out of %d chains of kinds through three views, with every pair of %d bit patterns", len(chains), len(patterns)), N: int64(len(chains) * len(chains)),
		Run: func(w *mc.W, i int64) {
			cs := []chain{chains[i%int64(len(chains))], chains[i/int64(len(chains))]}
			w.Desc(func() string { return fmt.Sprintf("through three views: %v", cs) })
			for p := 0; p < len(patterns)*len(patterns); p++ {
				bits := []uint64{patterns[p%len(patterns)], patterns[p/len(patterns)]}
				w.State(fmt.Sprint("vv", i, p))
				guard(w, func() {
					vi := values.NewIterator(coreFrom(cs[0].ks[0], bits[0]), coreFrom(cs[1].ks[0], bits[1]))
					v1 := values.NewCoerceValueIterator(vi, []kind.Kind{cs[0].ks[0], cs[1].ks[0]})
					v2 := values.NewCoerceValueIterator(v1, []kind.Kind{cs[0].ks[1], cs[1].ks[1]})
					v3 := values.NewCoerceValueIterator(v2, []kind.Kind{cs[0].ks[2], cs[1].ks[2]})
					for j := range cs {
						took(w, fmt.Sprintf("slot %d", j), v3, cs[j].ks[3], bits[j])
						at(w, "from above", v3, j+1, 2)
						at(w, "from below", vi, j+1, 2)
					}
					refused(w, "after the end", v3, cs[0].ks[3])
					w.Trace("taken through views")
				})
			}
		}})
	fs = append(fs, mc.Family{Name: "mismatched views", Bound: "every pair of kinds over a value of every other kind, and over too few values, at position 0 to 3", N: 4 * 8 * 5,
		Run: func(w *mc.W, i int64) {
			x := mc.Mixed(i, 4, 8, 5)
			pos, p := x[0], slotPairs[x[1]]
			w.State(fmt.Sprint("m", x))
			w.Desc(func() string { return fmt.Sprintf("after %d values, slot of %v asked for as %v", pos, p.have, p.want) })
			guard(w, func() {
				var vs []values.Value
				var ks []kind.Kind
				for j := 0; j < pos; j++ {
					vs = append(vs, coreFrom(coreKinds[j], patterns[j+5]))
					ks = append(ks, coreKinds[j])
				}
				what := "missing value"
				if x[2] < 4 {
					if coreKinds[x[2]] == p.have {
						return
					}
					vs = append(vs, coreFrom(coreKinds[x[2]], 1))
					what = "another kind"
				}
				vi := values.NewIterator(vs...)
				view := values.NewCoerceValueIterator(vi, append(ks, p.have))
				for j := 0; j < pos; j++ {
					took(w, "before", view, coreKinds[j], patterns[j+5])
				}
				refused(w, what, view, p.want)
				w.Trace(what)
			})
		}})
	fs = append(fs, mc.Family{Name: "zeros", Bound: "the zero of every kind from -3 to 16", N: 1,
		Run: func(w *mc.W, i int64) {
			for k := kind.Kind(-3); k <= 16; k++ {
				w.State(fmt.Sprint("zero", k))
				w.Desc(func() string { return fmt.Sprintf("zero of kind %d", int(k)) })
				guard(w, func() {
					w.Step(1)
					v, err := values.Zero(k)
					known := k >= 0 && k < 4
					switch {
					case known && err != nil:
						w.Fail("zero refused", "%v", err)
					case !known && err == nil:
						w.Fail("zero of nothing", "there is no such kind, but its zero is %v", v)
					case known && (v.Kind() != k || !isBits(v.Value(), k, 0)):
						w.Fail("zero", "kind %v, value %T(%v)", v.Kind(), v.Value(), v.Value())
					}
					w.Trace(fmt.Sprint("zero ", known))
				})
			}
		}})
	return fs
}
