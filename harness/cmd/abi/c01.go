package main

import (
	"fmt"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/mc"
)

func checkKinds(ks []kind.Kind, want []Core) bool {
	if len(ks) != len(want) {
		return false
	}
	for i := range ks {
		if coreOf(ks[i]) != want[i] {
			return false
		}
	}
	return true
}

func layoutCase(w *mc.W, t *T) {
	w.Desc(func() string { return t.String() })
	w.State(t.String())
	t.prepare()
	ht := t.host()
	w.Step(3)
	p := mc.Safe(func() {
		if s, err := aio.Size(ht); err != nil || s != t.Size() {
			w.Fail("size", "size of %s: want %d, got %d (%v)", t, t.Size(), s, err)
		}
		if a, err := aio.Alignment(ht); err != nil || a != t.Align() {
			w.Fail("align", "alignment of %s: want %d, got %d (%v)", t, t.Align(), a, err)
		}
		if f, err := aio.FlattenType(ht); err != nil || !checkKinds(f, t.Flat()) {
			w.Fail("flatten", "flattening of %s: want %v, got %v (%v)", t, t.Flat(), f, err)
		}
	})
	if p != nil {
		w.Fail("panic", "layout of %s panics: %v", t, p)
	}
	w.Trace(fmt.Sprintf("size%d/align%d/flat%d", min(int(t.Size()), 64), t.Align(), min(len(t.Flat()), 20)))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func typeFamily(name, bound string, ts []*T) mc.Family {
	ready(ts)
	return mc.Family{Name: name, Bound: bound, N: int64(len(ts)), Run: func(w *mc.W, i int64) { layoutCase(w, ts[i]) }}
}

func funcType(ps, rs []*T) types.FuncType {
	conv := func(ts []*T) []types.Parameter {
		var out []types.Parameter
		for _, t := range ts {
			out = append(out, types.Parameter{Type: t.host()})
		}
		return out
	}
	return types.NewFuncType(conv(ps), conv(rs))
}

// signatures over a list of types: up to np parameters and nr results.
func pickVec(ts []*T, i int64, n int) []*T {
	buf := mc.Seq(i, len(ts), n, nil)
	out := make([]*T, len(buf))
	for k, b := range buf {
		out[k] = ts[b]
	}
	return out
}

func c01(tier string) []mc.Family {
	thorough := tier == "thorough"
	var fs []mc.Family
	ar := 3
	if thorough {
		ar = 4
	}
	fs = append(fs, typeFamily("depth1", fmt.Sprintf("all types with one constructor over the 13 scalar types, up to %d members", ar), append(append([]*T{}, scalars...), compose(scalars, 1, ar)...)))
	fs = append(fs, typeFamily("counts", "enums of 1..20 and boundary sizes to 513 labels, flags of 0..130 labels, options, lists, records and variants of them", func() []*T {
		ts := counted()
		var out []*T
		for _, t := range ts {
			out = append(out, t, option(t), list(t), record(tU8, t), record(t, tU8), variant(t, tF32), variant(tF64, t), result(nil, t))
		}
		return append(out, specials()...)
	}()))
	fs = append(fs, typeFamily("discriminants", "variants and enums with case counts around 2^8 and 2^16, payloads of each alignment", func() []*T {
		var out []*T
		for _, n := range []int{1, 2, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 65535, 65536, 65537, 70000} {
			out = append(out, enum(n))
			for _, p := range []*T{tU8, tU16, tU32, tU64, tStr, record(tU8, tU16)} {
				out = append(out, manyCases(n, map[int]*T{n - 1: p}), record(tU8, manyCases(n, map[int]*T{0: p})))
			}
		}
		return out
	}()))
	rep := []*T{tU8, tU16, tU32, tU64, tF32, tF64, tStr}
	sub := append(append([]*T{}, rep...), compose(rep, 1, 2)...)
	if !thorough {
		sub = append(append([]*T{}, rep...), compose([]*T{tU8, tU16, tU64, tF32, tF64}, 1, 2)...)
	}
	fs = append(fs, typeFamily("depth2", fmt.Sprintf("all types with one constructor and up to 2 members over %d representative depth-1 types", len(sub)), compose(sub, 1, 2)))
	comp := []*T{option(tU8), option(tU64), record(tU8, tU32), variant(tF32, tU8), list(tU8), tuple(tU16, tU8), result(tF64, nil), flags(40), enum(300), tU8, tU64, tF32, record(), variant(nil, tStr)}
	d3 := compose(comp, 1, 2)
	if !thorough {
		d3 = compose(comp[:9], 1, 2)
	}
	fs = append(fs, typeFamily("depth3", fmt.Sprintf("all types with one constructor and up to 2 members over %d representative depth-2 types", len(d3)), func() []*T {
		if thorough {
			return compose(d3[:400], 1, 2)
		}
		return compose(d3[:120], 1, 2)
	}()))
	fs = append(fs, typeFamily("members3", "all records and variants with 3 members out of 14 representative types", compose(comp, 3, 3)))

	// function signatures
	sig := ready([]*T{tU8, tU64, tF32, tStr, record(tU8, tF64, tU32), option(tF64), record(repeat(tU32, 15)...), record(repeat(tU32, 16)...), record(repeat(tU32, 17)...), flags(0)})
	lims := [][2]int{{16, 1}, {16, 16}, {0, 0}, {1, 1}, {2, 1}, {3, 2}, {15, 0}, {17, 4}}
	np, nr := 3, 2
	nP, nR := mc.SeqCount(len(sig), np), mc.SeqCount(len(sig), nr)
	fs = append(fs, mc.Family{
		Name: "signatures", Bound: fmt.Sprintf("all signatures of up to %d parameters and %d results over %d types, %d flat limits, lift and lower", np, nr, len(sig), len(lims)),
		N: nP * nR * int64(len(lims)),
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, len(lims), int(nP), int(nR))
			lim := lims[d[0]]
			ps, rs := pickVec(sig, int64(d[1]), np), pickVec(sig, int64(d[2]), nr)
			w.Desc(func() string { return fmt.Sprintf("params %v results %v limits %v", ps, rs, lim) })
			w.Distinct()
			fp, fr := flatAll(ps), flatAll(rs)
			if len(fp) > lim[0] {
				fp = []Core{CI32}
			}
			liftR, lowerP, lowerR := fr, fp, fr
			if len(fr) > lim[1] {
				liftR = []Core{CI32}
				lowerP = append(append([]Core{}, fp...), CI32)
				lowerR = nil
			}
			w.Step(2)
			p := mc.Safe(func() {
				ft := funcType(ps, rs)
				cl, err := aio.FlattenFuncTypeLift(ft, lim[0], lim[1])
				if err != nil || !checkKinds(cl.Params(), fp) || !checkKinds(cl.Results(), liftR) {
					w.Fail("lift-signature", "want %v -> %v, got %v (%v)", fp, liftR, cl, err)
				}
				cw, err := aio.FlattenFuncTypeLower(ft, lim[0], lim[1])
				if err != nil || !checkKinds(cw.Params(), lowerP) || !checkKinds(cw.Results(), lowerR) {
					w.Fail("lower-signature", "want %v -> %v, got %v (%v)", lowerP, lowerR, cw, err)
				}
			})
			if p != nil {
				w.Fail("panic", "flattening the signature panics: %v", p)
			}
			w.Trace(fmt.Sprintf("sig p%d r%d", len(lowerP), len(liftR)))
		},
	})
	return fs
}
