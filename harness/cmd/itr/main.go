// Command itr explores how core values are taken out one by one (property C30).
package main

import (
	"fmt"
	"math"

	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/values"

	"verif/harness/mc"
)

// C30: core values are taken out in order, each once, and only as what they are.

var coreKinds = []kind.Kind{kind.U32, kind.U64, kind.Float32, kind.Float64}

// patterns are the bits of values; a kind of 32 bits takes the lower half.
var patterns = []uint64{0, 1, 0x80000000, 0xffffffff, 0x7fffffff, 0x3f800000, 0x7f800000, 0x7fc00000, 0x7f800001, 0xff812345, 0x80000001,
	1 << 32, 0x1_80000000, 0xffffffff_00000000, 0xffffffff_ffffffff, 0x7fffffff_ffffffff, 0x80000000_00000000, 0x3ff00000_00000000, 0x7ff00000_00000000, 0x7ff80000_00000000, 0x7ff00000_00000001, 0x40490fdb_3f800000, 0x01234567_89abcdef}

func coreFrom(k kind.Kind, bits uint64) values.Value {
	switch k {
	case kind.U32:
		return values.U32(uint32(bits))
	case kind.U64:
		return values.U64(bits)
	case kind.Float32:
		return values.Float32(math.Float32frombits(uint32(bits)))
	}
	return values.Float64(math.Float64frombits(bits))
}

// isBits reports whether x is the value of the kind with the bits, up to the payload of a NaN.
func isBits(x any, k kind.Kind, bits uint64) bool {
	switch k {
	case kind.U32:
		v, ok := x.(uint32)
		return ok && v == uint32(bits)
	case kind.U64:
		v, ok := x.(uint64)
		return ok && v == bits
	case kind.Float32:
		v, ok := x.(float32)
		f := math.Float32frombits(uint32(bits))
		return ok && (math.Float32bits(v) == uint32(bits) || v != v && f != f)
	}
	v, ok := x.(float64)
	f := math.Float64frombits(bits)
	return ok && (math.Float64bits(v) == bits || v != v && f != f)
}

func at(w *mc.W, when string, vi values.ValueIterator, index, length int) {
	if i := vi.Index(); i != index {
		w.Fail("index", "%s: %d values were taken, the position is %d", when, index, i)
	}
	if n := vi.Length(); n != length {
		w.Fail("length", "%s: %d values were given, the length is %d", when, length, n)
	}
}

func took(w *mc.W, when string, vi values.ValueIterator, k kind.Kind, bits uint64) {
	w.Step(1)
	x, err := vi.Next(k)
	if err != nil {
		w.Fail("refused", "%s: taking a %v: %v", when, k, err)
	} else if !isBits(x, k, bits) {
		w.Fail("value", "%s: took %T(%v) instead of the %v with bits %x", when, x, x, k, bits)
	}
}

func refused(w *mc.W, what string, vi values.ValueIterator, k kind.Kind) {
	w.Step(1)
	if x, err := vi.Next(k); err == nil {
		w.Fail("taken "+what, "%s: asked for %v, got %T(%v)", what, k, x, x)
	}
}

func c30(tier string) []mc.Family {
	n, np := 8, 2
	if tier == "thorough" {
		n, np = 9, 3
	}
	var fs []mc.Family
	asked := append(append([]kind.Kind{}, coreKinds...), -1, 4, 1<<40)
	fs = append(fs, mc.Family{Name: "in order", Bound: fmt.Sprintf("every sequence of up to %d values of the four kinds, taken up to every position, then each of %d kinds asked for, and more after the end", n, len(asked)), N: mc.SeqCount(4, n),
		Run: func(w *mc.W, i int64) {
			seq := mc.Seq(i, 4, n, nil)
			bits := make([]uint64, len(seq))
			for j := range seq {
				bits[j] = patterns[(7*j+3*len(seq)+5)%len(patterns)]
			}
			w.Desc(func() string { return fmt.Sprintf("values of the kinds %v with bits %x", seq, bits) })
			for j := 0; j <= len(seq); j++ {
				for _, k := range asked {
					w.State(fmt.Sprint(seq, j, k))
					guard(w, func() {
						vs := make([]values.Value, len(seq), len(seq)+2)
						for l, s := range seq {
							vs[l] = coreFrom(coreKinds[s], bits[l])
						}
						vi := values.NewIterator(vs...)
						at(w, "at the start", vi, 0, len(seq))
						for l := 0; l < j; l++ {
							when := fmt.Sprintf("value %d", l)
							took(w, when, vi, coreKinds[seq[l]], bits[l])
							at(w, when, vi, l+1, len(seq))
						}
						out := "refused"
						switch {
						case j == len(seq):
							for r := 0; r < 3; r++ {
								refused(w, "after the end", vi, k)
								at(w, "after the end", vi, j, len(seq))
							}
							out = "end"
						case coreKinds[seq[j]] == k:
							took(w, fmt.Sprintf("value %d", j), vi, k, bits[j])
							out = "taken"
						default:
							refused(w, "another kind", vi, k)
							if x := vi.Index(); x != j && x != j+1 {
								w.Fail("index", "after asking for another kind at %d the position is %d", j, x)
							}
						}
						for l, s := range seq {
							if vs[l].Kind() != coreKinds[s] || !isBits(vs[l].Value(), coreKinds[s], bits[l]) {
								w.Fail("given values", "value %d is no longer what was given", l)
							}
						}
						w.Trace(out)
					})
				}
			}
		}})
	fs = append(fs, views(np)...)
	sizes := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 140000}
	fs = append(fs, mc.Family{Name: "many", Bound: fmt.Sprintf("%v values, the kinds repeating with every period of up to 4 out of 4", sizes), N: int64(len(sizes)) * (mc.SeqCount(4, 4) - 1),
		Run: func(w *mc.W, i int64) {
			n, seq := sizes[i%int64(len(sizes))], mc.Seq(1+i/int64(len(sizes)), 4, 4, nil)
			if n > 1025 && len(seq) > 2 {
				return
			}
			w.Desc(func() string { return fmt.Sprintf("%d values of the kinds %v in turn", n, seq) })
			w.Distinct()
			guard(w, func() {
				vs := make([]values.Value, n)
				bits := func(l int) uint64 { return uint64(l)*0x9E3779B9_00000001 + uint64(len(seq)) }
				for l := range vs {
					vs[l] = coreFrom(coreKinds[seq[l%len(seq)]], bits(l))
				}
				vi := values.NewIterator(vs...)
				for l := range vs {
					if w.Failed() {
						return
					}
					took(w, "many values", vi, coreKinds[seq[l%len(seq)]], bits(l))
					at(w, "many values", vi, l+1, n)
				}
				for _, k := range coreKinds {
					refused(w, "after the end", vi, k)
				}
				w.Trace("many")
			})
		}})
	fs = append(fs, mc.Family{Name: "values", Bound: fmt.Sprintf("a value of every kind with %d bit patterns and every value of one or two bits", len(patterns)), N: 4,
		Run: func(w *mc.W, i int64) {
			all := append([]uint64{}, patterns...)
			for a := 0; a < 64; a++ {
				for b := 0; b <= a; b++ {
					all = append(all, 1<<a|1<<b)
				}
			}
			k := coreKinds[i]
			for _, bits := range all {
				w.State(fmt.Sprint("val", i, bits))
				w.Desc(func() string { return fmt.Sprintf("%v with bits %x", k, bits) })
				guard(w, func() {
					w.Step(1)
					v := coreFrom(k, bits)
					if v.Kind() != k || !isBits(v.Value(), k, bits) {
						w.Fail("constructed", "kind %v, value %T(%v)", v.Kind(), v.Value(), v.Value())
					}
					w.Trace("value")
				})
			}
		}})
	return fs
}

func guard(w *mc.W, f func()) {
	if pv := mc.Safe(f); pv != nil {
		w.Fail("panic", "%v", pv)
	}
}

func main() {
	mc.Main([]mc.Property{{ID: "C30", Families: c30}})
}
