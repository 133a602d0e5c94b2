package main

import (
	"fmt"
	"math"
	"math/big"
	"unicode/utf8"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"

	"verif/harness/mc"
)

type named uint8
type strukt struct{ A int }

// hostValues is a collection of host values of every dynamic type.
func hostValues() []any {
	x := uint32(5)
	return []any{
		nil, true, false,
		uint8(0), uint8(1), uint8(200), uint8(255), uint16(1), uint16(300), uint16(65535), uint32(2), uint32(256), uint32(70000), uint32(0xd800), uint32(math.MaxUint32), uint64(3), uint64(1 << 33), uint64(math.MaxUint64),
		int8(1), int8(-1), int16(2), int16(-300), int32(3), int32(-70000), int32('a'), int32(0xd800), int32(0x110000), int32(-1), int64(4), int64(-1 << 40), int64(math.MaxInt64),
		int(5), int(-5), uint(6), uintptr(7), named(3),
		float32(1.5), float32(0), float64(2.5), float64(1e300), math.Inf(1), math.NaN(), float32(math.Inf(-1)), complex(1, 2),
		"", "a", "text", "\xff\xfe", "a\xc3", "\xed\xa0\x80", 'x', []byte("bytes"), []rune("runes"),
		[]any{}, []any{uint8(1)}, []any{nil}, []any{"s"}, []uint8{1, 2}, []string{"a"}, []uint32{1},
		map[string]any{}, map[string]any{"l0": nil}, map[string]any{"l0": uint8(1)}, map[string]any{"l0": uint8(1), "l1": uint8(2)},
		map[string]any{"l0": true}, map[string]any{"l0": true, "l1": false}, map[string]any{"l0": "x"}, map[string]any{"l1": "x"}, map[string]any{"l9": uint8(1)}, map[string]any{"": nil},
		map[string]any{"none": nil}, map[string]any{"some": uint8(1)}, map[string]any{"some": nil}, map[string]any{"ok": nil}, map[string]any{"error": nil}, map[string]any{"error": uint8(3)}, map[string]any{"some": uint8(1), "none": nil},
		map[string]any{"0": uint8(1)}, map[string]any{"0": uint8(1), "1": uint8(2)}, map[string]any{"1": float32(1)}, map[string]any{"l0|l1": uint8(1)}, map[string]any{"|": nil},
		map[string]string{"l0": "x"}, map[string]int{"l0": 1}, map[int]any{0: 1},
		strukt{1}, &strukt{1}, &x, make(chan int), func() {}, error(errNoMem), [2]any{1, 2}, [1]byte{1},
	}
}

// fits: "yes" the value is of the declared type, "no" it must be refused,
// "open" not judged (a numerically equal value of another Go type, or a shape
// the interface leaves open such as surplus record fields).
func fits(t *T, v any) string {
	switch t.K {
	case Bool:
		if _, ok := v.(bool); ok {
			return "yes"
		}
		return "no"
	case Str:
		if s, ok := v.(string); ok && utf8.ValidString(s) {
			return "yes"
		}
		return "no"
	case Char:
		switch x := v.(type) {
		case int32:
			if x >= 0 && x < 0x110000 && !(x >= 0xd800 && x <= 0xdfff) {
				return "yes"
			}
			return "no"
		}
		if b, ok := integer(v); ok && b.Sign() >= 0 && b.Cmp(big.NewInt(0x10ffff)) <= 0 && !(b.Int64() >= 0xd800 && b.Int64() <= 0xdfff) {
			return "open"
		}
		return "no"
	case F32:
		switch x := v.(type) {
		case float32:
			return "yes"
		case float64:
			if float64(float32(x)) == x || x != x {
				return "open"
			}
		}
		return "no"
	case F64:
		switch v.(type) {
		case float64:
			return "yes"
		case float32:
			return "open"
		}
		return "no"
	case List:
		l, ok := v.([]any)
		if !ok {
			switch v.(type) {
			case []byte, []rune, []string, []uint32, [2]any, [1]byte:
				return "open?" // may be supported for matching element types
			}
			return "no"
		}
		r := "yes"
		for _, x := range l {
			switch fits(t.Sub[0], x) {
			case "no":
				return "no"
			case "yes":
			default:
				r = "open"
			}
		}
		return r
	case Flags:
		m, ok := v.(map[string]any)
		if !ok {
			return "no"
		}
		r := "yes"
		if len(m) != t.N {
			r = "open"
		}
		for i := 0; i < t.N; i++ {
			if _, ok := m[t.label(i)].(bool); !ok {
				return "no"
			}
		}
		return r
	}
	if t.isRecord() {
		m, ok := v.(map[string]any)
		if !ok {
			return "no"
		}
		r := "yes"
		if len(m) != len(t.Sub) {
			r = "open"
		}
		for i, f := range t.Sub {
			x, ok := m[t.label(i)]
			if !ok {
				return "no"
			}
			switch fits(f, x) {
			case "no":
				return "no"
			case "yes":
			default:
				r = "open"
			}
		}
		return r
	}
	if t.isVariant() {
		m, ok := v.(map[string]any)
		if !ok || len(m) != 1 {
			return "no"
		}
		for k, x := range m {
			for i, c := range t.cases() {
				if t.label(i) != k {
					continue
				}
				if c == nil {
					if x == nil {
						return "yes"
					}
					return "open"
				}
				return fits(c, x)
			}
			// refinement syntax may name a known case
			for i := range t.cases() {
				if len(k) > 0 && (hasPart(k, t.label(i))) {
					return "open"
				}
			}
		}
		return "no"
	}
	// integers
	if v != nil && fmt.Sprintf("%T", v) == goInt[t.K] {
		return "yes"
	}
	b, ok := integer(v)
	if !ok {
		return "no"
	}
	bits, signed := intBits(t.K)
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), bits)
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if b.Cmp(lo) >= 0 && b.Cmp(hi) < 0 {
		return "open"
	}
	return "no"
}

func hasPart(k, l string) bool {
	start := 0
	for i := 0; i <= len(k); i++ {
		if i == len(k) || k[i] == '|' {
			if k[start:i] == l {
				return true
			}
			start = i + 1
		}
	}
	return false
}

var goInt = map[K]string{U8: "uint8", U16: "uint16", U32: "uint32", U64: "uint64", S8: "int8", S16: "int16", S32: "int32", S64: "int64"}

func integer(v any) (*big.Int, bool) {
	switch x := v.(type) {
	case uint8:
		return big.NewInt(int64(x)), true
	case uint16:
		return big.NewInt(int64(x)), true
	case uint32:
		return big.NewInt(int64(x)), true
	case uint64:
		return new(big.Int).SetUint64(x), true
	case uint:
		return new(big.Int).SetUint64(uint64(x)), true
	case uintptr:
		return new(big.Int).SetUint64(uint64(x)), true
	case named:
		return big.NewInt(int64(x)), true
	case int8:
		return big.NewInt(int64(x)), true
	case int16:
		return big.NewInt(int64(x)), true
	case int32:
		return big.NewInt(int64(x)), true
	case int64:
		return big.NewInt(x), true
	case int:
		return big.NewInt(int64(x)), true
	}
	return nil, false
}

// wrap places a value of type t at a position inside a bigger type; the other
// positions hold proper values.
type wrapper struct {
	name string
	t    func(t *T) *T
	v    func(v any) any
}

var wrappers = []wrapper{
	{"itself", func(t *T) *T { return t }, func(v any) any { return v }},
	{"list element", list, func(v any) any { return []any{v} }},
	{"record field", func(t *T) *T { return record(tU8, t) }, func(v any) any { return map[string]any{"l0": uint8(1), "l1": v} }},
	{"first record field", func(t *T) *T { return record(t, tU64) }, func(v any) any { return map[string]any{"l1": uint64(1), "l0": v} }},
	{"option", option, func(v any) any { return map[string]any{"some": v} }},
	{"variant case", func(t *T) *T { return variant(tF64, t) }, func(v any) any { return map[string]any{"l1": v} }},
	{"error", func(t *T) *T { return result(nil, t) }, func(v any) any { return map[string]any{"error": v} }},
	{"list in record", func(t *T) *T { return record(list(t), tStr) }, func(v any) any { return map[string]any{"l0": []any{v}, "l1": "s"} }},
}

var mismatchModes = []string{"flat", "mem", "argument", "spilled argument", "result", "spilled result"}

func c08(tier string) []mc.Family {
	hv := hostValues()
	base := append([]*T{}, scalars...)
	base = append(base, list(tU8), list(tStr), option(tU8), option(tStr), record(tU8), record(tU8, tU8), tuple(tU8), tuple(tU8, tU8), variant(tU8, tStr), variant(nil, tU8), variant(tU8),
		result(nil, tU8), result(tU8, nil), enum(1), enum(3), flags(1), flags(2), flags(9), flags(33), flags(65), union(tU8, tF32), record(), refining(variant(tU8, tU8), -1, 0))
	ws := wrappers
	if tier == "thorough" {
		for _, a := range wrappers[1:] {
			for _, b := range wrappers[1:] {
				a, b := a, b
				ws = append(ws, wrapper{a.name + " of " + b.name, func(t *T) *T { return a.t(b.t(t)) }, func(v any) any { return a.v(b.v(v)) }})
			}
		}
		base = append(base, compose([]*T{tU8, tF32, tStr}, 1, 2)...)
	}
	var ts [][]*T
	for _, b := range base {
		var row []*T
		for _, wr := range ws {
			row = append(row, wr.t(b))
		}
		ts = append(ts, ready(row))
	}
	ready(base)
	n := int64(len(base)) * int64(len(ws)) * int64(len(hv)) * int64(len(mismatchModes))
	return []mc.Family{arity(), {
		Name: "mismatches", Bound: fmt.Sprintf("%d declared types × %d positions × %d host values of every Go type, lowered flat and into memory and passed as argument and result, flat and spilled", len(base), len(ws), len(hv)), N: n,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, len(mismatchModes), len(hv), len(ws), len(base))
			b, wr, v := base[d[3]], ws[d[2]], hv[d[1]]
			t := ts[d[3]][d[2]]
			w.Desc(func() string {
				return fmt.Sprintf("%s given as %s of declared type %s (%s)", show(v), wr.name, b, mismatchModes[d[0]])
			})
			w.Distinct()
			verdict := fits(b, v)
			h := heapOf(w).h
			h.reset(512, 0)
			h.next = 128
			cx := newContext(h, EncUTF8)
			var r res
			ran := false
			switch d[0] {
			case 0:
				r = doLowerFlat(w, cx, t, wr.v(v))
			case 1:
				r = doStore(w, cx, t, wr.v(v), 0)
			case 2, 3:
				// as one of two arguments
				lim := 1000 * (3 - d[0])
				w.Step(1)
				r.panic = mc.Safe(func() {
					_, _, r.err = aio.CanonLift(cx.Options, newInstance(), func(any) (any, error) { ran = true; return []any{}, nil }, funcType([]*T{t, tU32}, nil), []any{wr.v(v), uint32(5)}, lim, lim)
				})
			case 4, 5:
				lim := 1000 * (5 - d[0])
				flat := []any{}
				if lim == 0 {
					flat = append(flat, coreValue(Word{CI32, 0}))
				}
				w.Step(1)
				r.panic = mc.Safe(func() {
					_, r.err = aio.CanonLower(cx.Options, newInstance(), func([]any) ([]any, types.PostReturnFunc, error) {
						return []any{wr.v(v), uint32(5)}, func() {}, nil
					}, true, funcType(nil, []*T{t, tU32}), flat, lim, lim)
				})
			}
			mode := mismatchModes[d[0]]
			switch {
			case r.panic != nil:
				w.Fail("panic:"+kNames[b.K]+":"+mode, "panicked: %v", r.panic)
			case verdict == "no" && (r.err == nil || ran):
				w.Fail("accepted:"+kNames[b.K]+":"+mode, "must be refused but was accepted (%s)", showWords(r.words))
			case verdict == "yes" && r.err != nil:
				w.Fail("refused:"+kNames[b.K]+":"+mode, "is a proper value but was refused: %v", r.err)
			}
			w.Trace(kNames[b.K] + " " + verdict)
		},
	}}
}

// arity: the number of arguments or results differs from the signature.
func arity() mc.Family {
	lims := []limits{{16, 16}, {0, 0}, {1, 1}, {2, 2}}
	return mc.Family{
		Name: "arity", Bound: "0..3 declared values × 0..4 given values × 4 flat limits, as arguments of a lifted function and as results of an import", N: 4 * 5 * 4 * 2,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, 4, 5, 4, 2)
			decl, given, lim := d[0], d[1], lims[d[2]]
			w.Desc(func() string {
				return fmt.Sprintf("%d values declared, %d given as %s, limits %v", decl, given, []string{"arguments", "results"}[d[3]], lim)
			})
			w.Distinct()
			w.Step(1)
			vs := []any{}
			for j := 0; j < given; j++ {
				vs = append(vs, uint32(j+1))
			}
			ts := repeat(tU32, decl)
			h := newHeap(128, 0)
			h.next = 64
			opts := h.options(EncUTF8)
			ran := false
			var err error
			pan := mc.Safe(func() {
				if d[3] == 0 {
					_, _, err = aio.CanonLift(opts, newInstance(), func(any) (any, error) { ran = true; return []any{}, nil }, funcType(ts, nil), vs, lim.p, lim.r)
					return
				}
				flat := []any{}
				if decl > lim.r {
					flat = append(flat, coreValue(Word{CI32, 0}))
				}
				_, err = aio.CanonLower(opts, newInstance(), func([]any) ([]any, types.PostReturnFunc, error) {
					return vs, func() {}, nil
				}, true, funcType(nil, ts), flat, lim.p, lim.r)
			})
			switch {
			case pan != nil:
				w.Fail("panic:arity", "panicked: %v", pan)
			case decl != given && (err == nil || ran):
				w.Fail("accepted:arity", "must be refused but was accepted")
			case decl == given && err != nil:
				w.Fail("refused:arity", "failed: %v", err)
			}
			w.Trace(fmt.Sprintf("arity %v", decl == given))
		},
	}
}
