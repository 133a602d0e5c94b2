package main

import (
	"errors"
	"fmt"
	"io"

	wasm "github.com/patrickhuber/go-wasm/binary"
	"verif/harness/mc"
)

var errDisk = errors.New("disk failure")

// failures a reader may report instead of the end of its input.
var failures = []error{errDisk, io.ErrUnexpectedEOF, fmt.Errorf("connection lost: %w", io.EOF), io.ErrClosedPipe, io.ErrNoProgress}

func deliver(w *mc.W, s *script) (r result) {
	w.Step(1)
	r.panic = mc.Safe(func() { r.doc, r.err = wasm.Read(s) })
	return
}

// inputs: well-formed and malformed ones.
func deliveries() [][]byte {
	var out [][]byte
	for _, m := range smallModules() {
		out = append(out, (&enc{}).module(m, false))
	}
	out = append(out,
		append(append([]byte(nil), preamble...), 0, 4, 1, 'x', 9, 9, 3, 1, 0),
		append(append([]byte(nil), preamble...), 5, 3, 1, 0, 1),
		append(append([]byte(nil), preamble...), 1, 1),
		append(append([]byte(nil), preamble...), 1, 5, 1, 0x60),
		append(append([]byte(nil), preamble...), 3),
		append(append([]byte(nil), preamble...), 3, 0x80),
		append(append([]byte(nil), preamble...), 3, 2, 1, 0),
		append(append([]byte(nil), preamble...), 0, 9, 1),
		preamble[:6],
		preamble[:4],
		preamble[:2],
		nil,
		[]byte{0, 'a', 's', 'm', 0x0a, 0, 1, 0},
	)
	// pieces of the decoder's work larger than usual buffers
	m := &mod{types: []ftype{{"i", ""}}, exports: []export{{names[8], 1}}}
	out = append(out, (&enc{gap: func(g int) []byte { return customs()[4+g%2] }}).module(m, false))
	return out
}

// agree compares a delivery with what the strict decoder says.
func agree(w *mc.W, in []byte, s *script, how string) {
	failing := s.end != io.EOF
	m, v := refModule(in)
	r := deliver(w, s)
	switch {
	case r.panic != nil:
		w.Fail("panic", "%s: %s", how, r)
	case failing:
		if r.err == nil {
			w.Fail("swallowed", "%s: the reader's failure %q was ignored", how, s.end)
		} else if !errors.Is(r.err, s.end) && s.told {
			w.Fail("disguised", "%s: the reader's failure %q was reported as %q", how, s.end, r.err)
		}
	case v == reject && r.err == nil:
		w.Fail("accepted", "%s: malformed input is accepted", how)
	case v == accept && r.err != nil:
		w.Fail("rejected", "%s: %s", how, r)
	case v == accept:
		if d := differ(m, r.doc); d != "" {
			w.Fail("misread", "%s: %s", how, d)
		}
	}
}

func c16(tier string) []mc.Family {
	thorough := tier == "thorough"
	ins := deliveries()
	var fs []mc.Family
	// all ways to cut short inputs
	lim := 17
	if thorough {
		lim = 21
	}
	for k, in := range ins {
		n := len(in)
		if n < 2 || n > lim {
			continue
		}
		fs = append(fs, mc.Family{Name: fmt.Sprintf("cuts%d", k), Bound: fmt.Sprintf("input %d (%d bytes): every way to cut it into pieces, end reported alone or with the last bytes", k, n), N: 1 << n,
			Run: func(w *mc.W, i int64) {
				s := &script{data: in, mode: int(i & 1), end: io.EOF}
				for p := 1; p < n; p++ {
					if i>>p&1 == 1 {
						s.cuts = append(s.cuts, p)
					}
				}
				how := fmt.Sprintf("cut at %v, end mode %d", s.cuts, s.mode)
				w.Desc(func() string { return fmt.Sprintf("% x %s", in, how) })
				w.Distinct()
				agree(w, in, s, how)
				w.Trace(fmt.Sprintf("%d pieces", len(s.cuts)+1))
			}})
	}
	// all inputs: byte by byte and up to three cuts, with empty reads
	type job struct{ k, a, b int }
	var jobs []job
	for k, in := range ins {
		if len(in) > 200 {
			continue
		}
		for a := 0; a <= len(in); a++ {
			for b := a; b <= len(in); b++ {
				jobs = append(jobs, job{k, a, b})
			}
		}
	}
	fs = append(fs, mc.Family{Name: "empty", Bound: fmt.Sprintf("%d inputs, in one piece, in two or three pieces or byte by byte, with 0 to 3 empty reads at every pair of positions", len(ins)), N: int64(len(jobs)),
		Run: func(w *mc.W, i int64) {
			j := jobs[i]
			in := ins[j.k]
			for v := 0; v < 4*3*2; v++ {
				d := mc.Mixed(int64(v), 4, 3, 2)
				s := &script{data: in, mode: d[2], end: io.EOF}
				for k := 0; k < d[0]; k++ {
					s.empty = append(s.empty, j.a)
				}
				for k := 0; k < d[0]; k++ {
					s.empty = append(s.empty, j.b)
				}
				switch d[1] {
				case 1:
					s.cuts = []int{j.a, j.b}
				case 2:
					for p := 1; p < len(in); p++ {
						s.cuts = append(s.cuts, p)
					}
				}
				how := fmt.Sprintf("%d empty reads at %d and %d, pieces %d, end mode %d", d[0], j.a, j.b, d[1], d[2])
				w.Desc(func() string { return fmt.Sprintf("% x %s", in, how) })
				w.Distinct()
				agree(w, in, s, how)
				w.Trace(fmt.Sprintf("empty reads %d, pieces %d", d[0], d[1]))
			}
		}})
	// a failure at every position
	var at []job
	for k, in := range ins {
		if m, v := refModule(in); v == reject || m == nil {
			continue
		}
		for p := 0; p <= len(in); p++ {
			at = append(at, job{k, p, 0})
		}
	}
	fs = append(fs, mc.Family{Name: "failures", Bound: fmt.Sprintf("well-formed inputs: %d failures at every position, alone or with the last bytes, with every single cut or byte by byte", len(failures)), N: int64(len(at)),
		Run: func(w *mc.W, i int64) {
			in := ins[at[i].k][:at[i].a]
			for f, e := range failures {
				for mode := 0; mode < 2; mode++ {
					for c := -1; c < len(in); c++ {
						s := &script{data: in, mode: mode, end: e}
						if c == 0 {
							for p := 1; p < len(in); p++ {
								s.cuts = append(s.cuts, p)
							}
						} else if c > 0 {
							s.cuts = []int{c}
						}
						how := fmt.Sprintf("failure %d after %d bytes, mode %d, cut %d", f, len(in), mode, c)
						w.Desc(func() string { return fmt.Sprintf("% x %s", ins[at[i].k], how) })
						w.Distinct()
						agree(w, in, s, how)
						if len(in) > 200 && c > 4 {
							break
						}
					}
				}
			}
			w.Trace("failure reported")
		}})
	return fs
}
