package main

import (
	"fmt"
	"runtime"

	"verif/harness/mc"
)

func c15(tier string) []mc.Family {
	thorough := tier == "thorough"
	var fs []mc.Family
	// every short tail after the preamble
	fs = append(fs, mc.Family{Name: "tails", Bound: "every tail of up to 3 bytes after the preamble", N: 1 + 256 + 256*256,
		Run: func(w *mc.W, i int64) {
			in := append([]byte(nil), preamble...)
			for _, x := range mc.Seq(i, 256, 2, nil) {
				in = append(in, byte(x))
			}
			w.Distinct()
			w.Trace(judge(w, in))
			if len(in) == 10 {
				in = append(in, 0)
				for k := 0; k < 256; k++ {
					in[10] = byte(k)
					w.Distinct()
					w.Trace(judge(w, in))
				}
			}
		}})
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x07, 0x0a, 0x0b, 0x60, 0x7f, 0x80, 0x20, 0x05, 0x6a}
	max := 5
	if thorough {
		max = 7
	}
	fs = append(fs, mc.Family{Name: "words", Bound: fmt.Sprintf("every tail of up to %d bytes over % x", max, alpha), N: mc.SeqCount(len(alpha), max),
		Run: func(w *mc.W, i int64) {
			in := append([]byte(nil), preamble...)
			for _, x := range mc.Seq(i, len(alpha), max, nil) {
				in = append(in, alpha[x])
			}
			w.Distinct()
			w.Trace(judge(w, in))
		}})
	// the inside of each supported section, with the right section size
	starts := [][]byte{{1}, {3}, {7}, {10}}
	insides := []byte{0x00, 0x01, 0x02, 0x03, 0x0b, 0x20, 0x60, 0x6a, 0x7f, 0x7c, 0x80, 0x04, 0xff}
	imax := 5
	if thorough {
		imax = 6
	}
	for _, s := range starts {
		id := s[0]
		fs = append(fs, mc.Family{Name: fmt.Sprintf("inside%d", id), Bound: fmt.Sprintf("every content of section %d of up to %d bytes over % x, with 0 to 2 matching functions or bodies around it", id, imax, insides), N: mc.SeqCount(len(insides), imax),
			Run: func(w *mc.W, i int64) {
				var body []byte
				for _, x := range mc.Seq(i, len(insides), imax, nil) {
					body = append(body, insides[x])
				}
				for n := 0; n < 3; n++ {
					in := append([]byte(nil), preamble...)
					if id == 10 && n > 0 {
						in = append(in, [][]byte{{3, 2, 1, 0}, {3, 3, 2, 0, 1}}[n-1]...)
					}
					in = append(in, id, byte(len(body)))
					in = append(in, body...)
					if id == 3 && n > 0 {
						in = append(in, [][]byte{{10, 4, 1, 2, 0, 11}, {10, 7, 2, 2, 0, 11, 2, 0, 11}}[n-1]...)
					}
					w.Distinct()
					w.Trace(judge(w, in))
					if id != 3 && id != 10 {
						break
					}
				}
			}})
	}
	// one body with the right sizes
	bmax := 5
	if thorough {
		bmax = 6
	}
	fs = append(fs, mc.Family{Name: "body", Bound: fmt.Sprintf("every function body of up to %d bytes over % x, declared one byte too short, right, and one too long", bmax, insides), N: mc.SeqCount(len(insides), bmax),
		Run: func(w *mc.W, i int64) {
			var body []byte
			for _, x := range mc.Seq(i, len(insides), bmax, nil) {
				body = append(body, insides[x])
			}
			for d := -1; d <= 1; d++ {
				for e := -1; e <= 1; e++ {
					if len(body)+d < 0 {
						continue
					}
					in := append([]byte(nil), preamble...)
					in = append(in, 3, 2, 1, 0, 10, byte(len(body)+2+e), 1, byte(len(body)+d))
					in = append(in, body...)
					w.Distinct()
					w.Trace(judge(w, in))
					if d != 0 && e != 0 {
						continue
					}
					// followed by another section
					in = append(in, 11, 1, 0)
					w.Distinct()
					w.Trace(judge(w, in))
				}
			}
		}})
	// corruptions of encodings
	var bases [][]byte
	for k, m := range smallModules() {
		bases = append(bases, (&enc{}).module(m, false), (&enc{}).module(m, true))
		e := &enc{gap: func(g int) []byte { u := unsupported()[g]; return append(customs()[(k+g)%4][:], u[(k+1)%len(u)]...) }}
		bases = append(bases, e.module(m, false))
	}
	rich := &mod{
		types:   []ftype{{"ii", "i"}, {"ld", "f"}},
		funcs:   []fn{{0, []group{{2, 'i'}, {1, 'd'}}, []ins{{opGet, 0}, {opGet, 1}, {opAdd, 0}}}, {1, nil, nil}, {0, []group{{1, 'l'}}, []ins{{opGet, 300}}}},
		exports: []export{{"add", 0}, {"é", 2}},
	}
	bases = append(bases, (&enc{}).module(rich, false), (&enc{pad: func(k int) int { return k % 3 }}).module(rich, false))
	bases = append(bases, []byte{0, 'a', 's', 'm', 0x0a, 0, 1, 0})
	type pos struct{ b, p int }
	var at []pos
	for b, in := range bases {
		for p := 0; p <= len(in); p++ {
			at = append(at, pos{b, p})
		}
	}
	fs = append(fs, mc.Family{Name: "edits", Bound: fmt.Sprintf("%d encodings: every truncation, every deletion, replacement and insertion of one byte at every position", len(bases)), N: int64(len(at)),
		Run: func(w *mc.W, i int64) {
			in, p := bases[at[i].b], at[i].p
			run := func(parts ...[]byte) {
				var x []byte
				for _, q := range parts {
					x = append(x, q...)
				}
				w.StateBytes(x)
				w.Trace(judge(w, x))
			}
			run(in[:p])
			for c := 0; c < 256; c++ {
				run(in[:p], []byte{byte(c)}, in[p:])
				if p < len(in) {
					run(in[:p], []byte{byte(c)}, in[p+1:])
				}
			}
			if p < len(in) {
				run(in[:p], in[p+1:])
			}
		}})
	// two edits
	var pairs [][3]int
	two := len(bases)
	for b, in := range bases[:two] {
		if len(in) > 60 {
			continue
		}
		for p := 4; p < len(in); p++ {
			for q := p + 1; q < len(in); q++ {
				pairs = append(pairs, [3]int{b, p, q})
			}
		}
	}
	fs = append(fs, mc.Family{Name: "edits2", Bound: "every pair of positions after the magic, each byte raised or lowered by one, set to 0, 0x80 or 0xff, or deleted", N: int64(len(pairs)),
		Run: func(w *mc.W, i int64) {
			in, p, q := bases[pairs[i][0]], pairs[i][1], pairs[i][2]
			alt := func(c byte, k int) []byte {
				switch k {
				case 0:
					return []byte{c + 1}
				case 1:
					return []byte{c - 1}
				case 2:
					return []byte{0}
				case 3:
					return []byte{0x80}
				case 4:
					return []byte{0xff}
				}
				return nil
			}
			for k := 0; k < 36; k++ {
				x := append([]byte(nil), in[:p]...)
				x = append(x, alt(in[p], k%6)...)
				x = append(x, in[p+1:q]...)
				x = append(x, alt(in[q], k/6)...)
				x = append(x, in[q+1:]...)
				w.StateBytes(x)
				w.Trace(judge(w, x))
			}
		}})
	// sections in every order
	parts := [][]byte{
		{1, 4, 1, 0x60, 0, 0}, {3, 2, 1, 0}, {7, 5, 1, 1, 'f', 0, 0}, {10, 4, 1, 2, 0, 11}, {0, 1, 0}, {5, 3, 1, 0, 1}, {11, 1, 0}, {1, 1, 0}, {3, 1, 0}, {10, 1, 0}, {7, 1, 0}, {0, 0},
	}
	omax := 4
	if thorough {
		omax = 6
	}
	fs = append(fs, mc.Family{Name: "orders", Bound: fmt.Sprintf("every sequence of up to %d out of %d sections", omax, len(parts)), N: mc.SeqCount(len(parts), omax),
		Run: func(w *mc.W, i int64) {
			in := append([]byte(nil), preamble...)
			for _, x := range mc.Seq(i, len(parts), omax, nil) {
				in = append(in, parts[x]...)
			}
			w.StateBytes(in)
			w.Trace(judge(w, in))
		}})
	// memory: each integer of a module replaced by a huge one
	var huge [][]byte
	for _, m := range append(smallModules(), rich) {
		e := &enc{}
		e.module(m, true)
		for k := 0; k < e.ints; k++ {
			for _, v := range []uint32{1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				huge = append(huge, (&enc{set: func(j int) (uint32, bool) { return v, j == k }}).module(m, true))
			}
		}
	}
	fs = append(fs, mc.Family{Name: "memory", Bound: fmt.Sprintf("%d inputs in which one count or size is huge: bytes allocated while decoding", len(huge)), N: 1, Heavy: true,
		Run: func(w *mc.W, _ int64) {
			var a, b runtime.MemStats
			for _, in := range huge {
				w.Desc(func() string { return fmt.Sprintf("% x", in) })
				w.StateBytes(in)
				runtime.ReadMemStats(&a)
				r := decode(w, in)
				runtime.ReadMemStats(&b)
				if r.panic != nil {
					w.Fail("panic", "%s", r)
				}
				if n := b.TotalAlloc - a.TotalAlloc; n > 4<<20+uint64(len(in))*4096 {
					w.Fail("memory", "decoding %d bytes allocated %d bytes (%s)", len(in), n, r)
				}
				r = result{}
				w.Trace(judge(w, in))
				if w.Failed() {
					break
				}
			}
		}})
	return fs
}
