package main

var (
	tBool = &T{K: Bool}
	tU8   = &T{K: U8}
	tU16  = &T{K: U16}
	tU32  = &T{K: U32}
	tU64  = &T{K: U64}
	tS8   = &T{K: S8}
	tS16  = &T{K: S16}
	tS32  = &T{K: S32}
	tS64  = &T{K: S64}
	tF32  = &T{K: F32}
	tF64  = &T{K: F64}
	tChar = &T{K: Char}
	tStr  = &T{K: Str}
)

var scalars = []*T{tBool, tU8, tU16, tU32, tU64, tS8, tS16, tS32, tS64, tF32, tF64, tChar, tStr}

func list(t *T) *T         { return &T{K: List, Sub: []*T{t}} }
func option(t *T) *T       { return &T{K: Option, Sub: []*T{t}} }
func record(ts ...*T) *T   { return &T{K: Record, Sub: ts} }
func tuple(ts ...*T) *T    { return &T{K: Tuple, Sub: ts} }
func variant(ts ...*T) *T  { return &T{K: Variant, Sub: ts} }
func union(ts ...*T) *T    { return &T{K: Union, Sub: ts} }
func result(ok, err *T) *T { return &T{K: Result, Sub: []*T{ok, err}} }
func enum(n int) *T        { return &T{K: Enum, N: n} }
func flags(n int) *T       { return &T{K: Flags, N: n} }
func refining(v *T, r ...int) *T {
	return &T{K: Variant, Sub: v.Sub, Refines: r}
}

// vectors returns all vectors of length n over ts.
func vectors(ts []*T, n int) [][]*T {
	if n == 0 {
		return [][]*T{nil}
	}
	var out [][]*T
	for _, rest := range vectors(ts, n-1) {
		for _, t := range ts {
			out = append(out, append(append([]*T{}, rest...), t))
		}
	}
	return out
}

// compose returns every type with one constructor over the given children:
// lists, options, results and all records, tuples, variants and unions with
// between lo and hi members.
func compose(ts []*T, lo, hi int) []*T {
	var out []*T
	withNil := append([]*T{nil}, ts...)
	if lo <= 1 {
		for _, t := range ts {
			out = append(out, list(t), option(t))
		}
	}
	if lo <= 2 && hi >= 2 {
		for _, v := range vectors(withNil, 2) {
			out = append(out, result(v[0], v[1]))
		}
	}
	for n := lo; n <= hi; n++ {
		for _, v := range vectors(ts, n) {
			out = append(out, record(v...))
			if n <= 2 {
				out = append(out, tuple(v...), union(v...))
			}
		}
		for _, v := range vectors(withNil, n) {
			out = append(out, variant(v...))
		}
	}
	return out
}

// counted returns types whose layout depends on a count.
func counted() []*T {
	var out []*T
	for n := 1; n <= 20; n++ {
		out = append(out, enum(n))
	}
	for _, n := range []int{31, 32, 33, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513} {
		out = append(out, enum(n))
	}
	for n := 0; n <= 130; n++ {
		out = append(out, flags(n))
	}
	return out
}

// manyCases is a variant with n cases, payloads at the given cases.
func manyCases(n int, at map[int]*T) *T {
	t := &T{K: Variant, Sub: make([]*T, n)}
	for i, p := range at {
		t.Sub[i] = p
	}
	return t
}

func repeat(t *T, n int) []*T {
	out := make([]*T, n)
	for i := range out {
		out[i] = t
	}
	return out
}

// ---------------------------------------------------------------- values

func bs(vs ...uint64) []*V {
	var out []*V
	for _, v := range vs {
		out = append(out, &V{B: v})
	}
	return out
}

func intValues(bits uint, level int) []*V {
	mask := ^uint64(0)
	if bits < 64 {
		mask = 1<<bits - 1
	}
	pattern := uint64(0x8123456789abcdef) >> (64 - bits)
	switch {
	case level >= 2:
		return bs(pattern|1<<(bits-1), 1)
	case level == 1:
		return bs(0, 1, mask>>1, mask>>1+1, mask, pattern)
	case bits <= 16:
		var out []*V
		for i := uint64(0); i <= mask; i++ {
			out = append(out, &V{B: i})
		}
		return out
	}
	out := bs(0, mask, pattern)
	for k := uint(0); k < bits; k++ {
		out = append(out, bs(1<<k, (1<<k-1)&mask, (1<<k+1)&mask, mask&^(1<<k), mask<<k&mask)...)
	}
	return out
}

var f32Bits = []uint64{0, 0x80000000, 0x3f800000, 0xbfc00000, 0x00000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0x7fffffff, 0xff812345, 0x3eaaaaab, 0x42c80000}
var f64Bits = []uint64{0, 0x8000000000000000, 0x3ff0000000000000, 0xbff8000000000000, 1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0x7fffffffffffffff, 0xfff0000123456789, 0x3fd5555555555555, 0x4059000000000000, 0x41efffffffe00000}

var charPoints = []uint64{0, 'a', 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff}

var stringSet = []string{"", "a", "ab\x00c", "é", "ÿ", "Ā", "a€", "߿ࠀ", "😀", "a😀é", "�", "\ufeffx", "\U0010ffff", "hello world, this is longer", "éééé", "日本語"}

// vals enumerates values of t; a higher level means fewer values per leaf.
func vals(t *T, level int) []*V {
	switch t.K {
	case Bool:
		return bs(0, 1)
	case F32:
		if level >= 2 {
			return bs(0xbfc00000, 0x7f800001)
		}
		return bs(f32Bits...)
	case F64:
		if level >= 2 {
			return bs(0xbff8000000000001, 0xfff0000123456789)
		}
		return bs(f64Bits...)
	case Char:
		if level >= 2 {
			return bs(0xe9, 0x1f600)
		}
		return bs(charPoints...)
	case Str:
		set := stringSet
		if level >= 2 {
			set = []string{"", "a😀é"}
		} else if level == 1 {
			set = []string{"", "a", "é", "Ā€", "a😀é"}
		}
		var out []*V
		for _, s := range set {
			out = append(out, &V{S: s})
		}
		return out
	case List:
		out := []*V{{}}
		es := vals(t.Sub[0], level+1)
		for i, a := range es {
			out = append(out, &V{L: []*V{a}})
			b := es[(i+1)%len(es)]
			out = append(out, &V{L: []*V{a, b}})
		}
		if level == 0 {
			a, b := es[0], es[len(es)-1]
			out = append(out, &V{L: []*V{a, b, a}}, &V{L: []*V{b, a, b, a, b}})
		}
		return out
	case Flags:
		zero := &V{}
		for i := 0; i < t.N; i++ {
			zero.L = append(zero.L, &V{})
		}
		out := []*V{zero}
		with := func(f func(i int) bool) {
			v := &V{}
			for i := 0; i < t.N; i++ {
				b := uint64(0)
				if f(i) {
					b = 1
				}
				v.L = append(v.L, &V{B: b})
			}
			out = append(out, v)
		}
		with(func(i int) bool { return true })
		with(func(i int) bool { return i%3 == 0 })
		if level == 0 {
			for k := 0; k < t.N; k++ {
				k := k
				with(func(i int) bool { return i == k })
			}
		} else if level == 1 && t.N > 0 {
			with(func(i int) bool { return i == t.N-1 })
		}
		return out
	case Enum:
		var out []*V
		for i := 0; i < t.N; i++ {
			if t.N <= 300 && level == 0 || i < 2 || i == t.N-1 || i == 255 || i == 256 || i == 65535 {
				out = append(out, &V{B: uint64(i)})
			}
		}
		return out
	}
	if t.isRecord() {
		out := []*V{{}}
		sub := level + 1
		if len(t.Sub) > 2 {
			sub = level + 2
		}
		if len(t.Sub) > 5 {
			// wide records: one value with distinct fields, and its mirror
			a, b := &V{}, &V{}
			for i, f := range t.Sub {
				fv := vals(f, 1)
				a.L = append(a.L, fv[i%len(fv)])
				b.L = append(b.L, fv[len(fv)-1-i%len(fv)])
			}
			return []*V{a, b}
		}
		for _, f := range t.Sub {
			var nx []*V
			for _, o := range out {
				for _, x := range vals(f, sub) {
					nx = append(nx, &V{L: append(append([]*V{}, o.L...), x)})
				}
			}
			out = nx
		}
		return out
	}
	if t.isVariant() {
		var out []*V
		for i, c := range t.cases() {
			if c == nil {
				if len(t.Sub) <= 300 || i < 2 || i > len(t.Sub)-3 {
					out = append(out, &V{B: uint64(i)})
				}
				continue
			}
			for _, x := range vals(c, level+1) {
				out = append(out, &V{B: uint64(i), L: []*V{x}})
			}
		}
		return out
	}
	bits, _ := intBits(t.K)
	return intValues(bits, level)
}

// valueTypes is the type universe used with values.
func valueTypes(tier string) []*T {
	ts := append([]*T{}, scalars...)
	ts = append(ts, compose(scalars, 1, 2)...)
	rep := []*T{tU8, tU32, tU64, tF32, tF64, tStr}
	ts = append(ts, compose(rep, 3, 3)...)
	ts = append(ts, specials()...)
	// depth two: one and two children out of composite representatives
	comp := []*T{
		list(tU8), list(tU16), option(tU8), option(tU64), option(tF32),
		record(tU8, tU32), record(tU16, tU8), record(tU64, tU8), tuple(tF32, tF64), record(),
		variant(tU8, tF32), variant(tF64, tU32), variant(nil, tStr), result(tU8, tStr), result(nil, tF64),
		enum(3), flags(9), flags(33), union(tF32, tU64), list(tStr), tU16, tF64,
	}
	if tier == "thorough" {
		comp = append(comp, option(tStr), list(tF64), record(tChar, tBool, tU64), variant(tF32, tF64, nil),
			flags(64), flags(65), enum(257), option(option(tU8)), list(list(tU8)), tuple(tU8, tU8, tU8), tS8, tChar)
		ts = append(ts, compose([]*T{tU8, tU16, tU32, tU64, tS8, tS32, tF32, tF64, tStr, tChar, tBool}, 3, 3)...)
	}
	ts = append(ts, compose(comp, 1, 2)...)
	// depth three
	deep := []*T{list(option(tU8)), option(variant(tF32, tU64)), variant(variant(tU8, tF32), tF64),
		record(record(tU8, tU64), tU8), result(list(tStr), option(tF32)), list(record(tU8, tStr)), tuple(option(tF64), tF32)}
	ts = append(ts, compose(deep, 1, 2)...)
	return ready(ts)
}

func specials() []*T {
	var ts []*T
	for _, n := range []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 129} {
		ts = append(ts, flags(n))
	}
	for _, n := range []int{1, 2, 3, 127, 128, 129, 255, 256, 257, 300, 65536, 65537} {
		ts = append(ts, enum(n))
	}
	v3 := variant(tU8, tF32, tStr)
	ts = append(ts,
		refining(v3, -1, 0, -1), refining(v3, -1, 0, 1), refining(v3, 2, -1, -1), refining(v3, 1, 2, -1),
		refining(variant(nil, nil), -1, 0), refining(variant(tF64, tF64), 1, -1),
		manyCases(256, map[int]*T{0: tU8, 255: tF64}),
		manyCases(257, map[int]*T{0: tU8, 256: tF64}),
		manyCases(300, map[int]*T{3: tStr, 299: tU16}),
		manyCases(65536, map[int]*T{2: tU8, 65535: tU32}), manyCases(65537, map[int]*T{2: tU8, 65536: tU64}),
		record(repeat(tU8, 17)...), record(repeat(tU64, 16)...), tuple(tU8, tU16, tU32, tU64, tF32, tF64, tStr, tU8),
		record(tU8, tU16, tU8, tU32, tU8, tU64, tU8),
		variant(record(tU8, tU64), record(tF64, tF32), list(tU8)),
		variant(record(tF32, tF32, tF32), record(tU32, tU64, tF64)),
		variant(record(tF32, tF64), record(tF64, tF32), record(tU32, tU32)),
		record(), list(record(tU8, tU16, tU8)), list(record(tU64, tU8)), list(list(list(tU16))),
		option(option(option(tU32))), result(nil, nil), variant(nil), variant(nil, nil, nil, nil),
	)
	return ts
}
