package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/wat"
	"verif/harness/mc"
)

// C31: what a text is decoded to depends on the text only.

// delivery is a source that hands out a text in pieces.
type delivery struct {
	text  string
	cuts  []int // ends of pieces, ascending
	every int   // or pieces of this size
	empty []int // positions at which nothing is handed out once per entry
	with  bool  // the end comes with the last piece
	end   error
	pos   int
}

func (d *delivery) Read(p []byte) (int, error) {
	for i, e := range d.empty {
		if e == d.pos {
			d.empty = append(append([]int{}, d.empty[:i]...), d.empty[i+1:]...)
			return 0, nil
		}
	}
	to := len(d.text)
	if d.every > 0 && d.pos+d.every < to {
		to = d.pos + d.every
	}
	for _, c := range d.cuts {
		if c > d.pos && c < to {
			to = c
		}
	}
	n := copy(p, d.text[d.pos:to])
	d.pos += n
	if d.pos == len(d.text) && (n == 0 || d.with) && (n > 0 || len(p) > 0) {
		return n, d.end
	}
	return n, nil
}

var errLost = errors.New("connection lost")

// deliverText decodes what the source hands out. whole is the verdict on the text.
func deliverText(w *mc.W, d *delivery, whole verdict, how string) {
	decodeText(w, wat.NewDecoder(nil), d, whole, how)
}

func decodeText(w *mc.W, dec wat.Decoder, d *delivery, whole verdict, how string) {
	w.Step(1)
	end := d.end
	if pv := mc.Safe(func() {
		x, err := dec.Decode(d)
		switch {
		case end != io.EOF && err == nil:
			w.Fail("swallowed", "%s: the failure %q was ignored", how, end)
		case end != io.EOF:
		case whole == accept && err != nil:
			w.Fail("refused", "%s: the text is well-formed, but: %v", how, err)
		case whole == refuse && err == nil:
			w.Fail("accepted", "%s: the text is malformed, but is decoded", how)
		case err == nil && strings.Contains(d.text, "(module"):
			if m, ok := x.(*api.Module); !ok || m == nil {
				w.Fail("not a module", "%s: decoded to %T", how, x)
			}
		}
	}); pv != nil {
		w.Fail("panic", "%s: %v", how, pv)
	}
}

func c31(tier string) []mc.Family {
	lim, thorough := 14, tier == "thorough"
	if thorough {
		lim = 18
	}
	texts := []string{"", " ", "(", "(module", "(module)", "(module))", "(module) x", "( module\n)", "(module);;é", "(;é;)(module)", "(module(func))", "(module (func))", "(module(funk))", "(component)", "(mod ule)", "x(module)", "(module)(module)",
		"(module (func (export \"é\") drop))", "(module (func block end end))", "(module (func i32.const 0x1f drop))", "(module (func i32.const 0x1g drop))"}
	verdicts := map[string]verdict{}
	for _, s := range texts {
		_, _, verdicts[s] = refDirective(s)
	}
	ends := []error{io.EOF, errLost, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("proxy: %w", io.EOF)}
	var fs []mc.Family
	for k, s := range texts {
		n := len(s)
		if n < 1 || n > lim {
			continue
		}
		fs = append(fs, mc.Family{Name: fmt.Sprintf("cuts %d", k), Bound: fmt.Sprintf("%q: every way to cut it into pieces × end alone or with the last piece × %d ends", s, len(ends)), N: int64(len(ends)) << n,
			Run: func(w *mc.W, i int64) {
				e := ends[i>>n]
				i &= 1<<n - 1
				d := &delivery{text: s, with: i&1 == 1, end: e}
				for p := 1; p < n; p++ {
					if i>>p&1 == 1 {
						d.cuts = append(d.cuts, p)
					}
				}
				how := fmt.Sprintf("cut at %v, end %v with the last piece: %v", d.cuts, e, d.with)
				w.Desc(func() string { return fmt.Sprintf("%q %s", s, how) })
				w.Distinct()
				deliverText(w, d, verdicts[s], how)
				w.Trace(fmt.Sprintf("%d pieces, %v", len(d.cuts)+1, e == io.EOF))
			}})
	}
	// every end at every position, pieces and empty reads
	type job struct{ k, a, b int }
	var jobs []job
	for k, s := range texts {
		for a := 0; a <= len(s); a++ {
			for b := a; b <= len(s); b++ {
				jobs = append(jobs, job{k, a, b})
			}
		}
	}
	fs = append(fs, mc.Family{Name: "empty reads", Bound: fmt.Sprintf("%d texts, whole, in three pieces or byte by byte, with 0 to 3 empty reads at every pair of positions", len(texts)), N: int64(len(jobs)),
		Run: func(w *mc.W, i int64) {
			j := jobs[i]
			s := texts[j.k]
			for v := int64(0); v < 4*3*2; v++ {
				x := mc.Mixed(v, 4, 3, 2)
				d := &delivery{text: s, with: x[2] == 1, end: io.EOF}
				for k := 0; k < x[0]; k++ {
					d.empty = append(d.empty, j.a, j.b)
				}
				switch x[1] {
				case 1:
					d.cuts = []int{j.a, j.b}
				case 2:
					d.every = 1
				}
				how := fmt.Sprintf("%d empty reads at %d and %d, pieces %d, end mode %d", x[0], j.a, j.b, x[1], x[2])
				w.Desc(func() string { return fmt.Sprintf("%q %s", s, how) })
				w.Distinct()
				deliverText(w, d, verdicts[s], how)
				w.Trace(fmt.Sprintf("empty %d, pieces %d", x[0], x[1]))
			}
		}})
	fs = append(fs, mc.Family{Name: "failures", Bound: fmt.Sprintf("%d texts, %d failures at every position, with every cut and byte by byte", len(texts), len(ends)-1), N: int64(len(jobs)),
		Run: func(w *mc.W, i int64) {
			j := jobs[i]
			s := texts[j.k][:j.b]
			for v := 0; v < 2*2*(len(ends)-1); v++ {
				x := mc.Mixed(int64(v), 2, 2, len(ends)-1)
				d := &delivery{text: s, with: x[0] == 1, every: x[1], end: ends[1+x[2]]}
				if d.every == 0 {
					d.cuts = []int{j.a}
				}
				how := fmt.Sprintf("%v after %d bytes, cut at %d, mode %d %d", d.end, j.b, j.a, x[0], x[1])
				w.Desc(func() string { return fmt.Sprintf("%q %s", texts[j.k], how) })
				w.Distinct()
				deliverText(w, d, refuse, how)
				w.Trace("failure")
			}
		}})
	// texts longer than any buffer on the way
	marks := []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20}
	sizes := []int{0, 1, 3, 511, 512, 513, 4095, 4096, 4097, 65536}
	tails := []struct {
		s string
		v verdict
	}{{"(module)", accept}, {"(module)x", refuse}, {"(module", refuse}, {"(module))", refuse}, {"(module (func (export \"é\")))", accept}, {"", refuse}, {"(module) ;;é", accept}, {"(module) (;é", refuse}}
	fill := []string{" ", "\n", "(;é;)", ";; long\n"}
	fs = append(fs, mc.Family{Name: "long texts", Bound: fmt.Sprintf("%d endings after blanks and comments of 4 kinds so that they start at each of %v ± 3 bytes (from 128 KB on exactly there unless thorough), in pieces of %v bytes (from 128 KB on 0, 513 and 65536), ended in two ways or failing", len(tails), marks, sizes), N: int64(len(marks) * 7 * len(fill) * len(tails)),
		Run: func(w *mc.W, i int64) {
			x := mc.Mixed(i, 7, len(fill), len(tails), len(marks))
			n := marks[x[3]] + x[0] - 3
			pre := strings.Repeat(fill[x[1]], n/len(fill[x[1]]))
			pre += strings.Repeat(" ", n-len(pre))
			for _, sz := range sizes {
				if n > 70000 && (sz > 0 && sz != 513 && sz != 65536 || x[0] != 3 && !thorough) {
					continue
				}
				for m := 0; m < 3; m++ {
					d := &delivery{text: pre + tails[x[2]].s, every: sz, with: m == 1, end: io.EOF}
					if m == 2 {
						d.end = errLost
					}
					how := fmt.Sprintf("in pieces of %d, mode %d", sz, m)
					w.Desc(func() string {
						return fmt.Sprintf("%q after %d bytes of %q %s", tails[x[2]].s, n, fill[x[1]], how)
					})
					w.Distinct()
					deliverText(w, d, tails[x[2]].v, how)
					w.Trace("long")
				}
			}
		}})
	// one decoder for several texts
	k := 3
	if thorough {
		k = 4
	}
	fs = append(fs, mc.Family{Name: "reuse", Bound: fmt.Sprintf("one decoder for up to %d deliveries, each of %d texts, ended or failing", k, len(texts)), N: mc.SeqCount(2*len(texts), k),
		Run: func(w *mc.W, i int64) {
			seq := mc.Seq(i, 2*len(texts), k, nil)
			w.Desc(func() string { return fmt.Sprintf("deliveries %v", seq) })
			w.Distinct()
			dec := wat.NewDecoder(nil)
			for n, c := range seq {
				s := texts[c/2]
				d := &delivery{text: s, end: io.EOF}
				if c%2 == 1 {
					d.end = errLost
				}
				decodeText(w, dec, d, verdicts[s], fmt.Sprintf("delivery %d of %v", n, seq))
			}
			w.Trace("reused")
		}})
	return fs
}
