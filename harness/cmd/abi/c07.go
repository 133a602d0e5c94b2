package main

import (
	"fmt"
	"strings"

	"verif/harness/mc"
)

var runeClasses = []rune{'a', 0, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0x10000, 0x1f600, 0x10ffff}

// passString lifts s from a component using src and lowers it into one using dst.
func passString(w *mc.W, s string, src, dst Enc) {
	w.Desc(func() string {
		return fmt.Sprintf("%q (%d bytes) from %s to %s", clipS(s), len(s), encNames[src], encNames[dst])
	})
	l := heapOf(w)
	size := 6*len(s) + 64
	l.h.reset(size, 0x41)
	b := &builder{g: &guest{l.h.mem(), src}, next: 6}
	p, n := b.str(s)
	r := doLiftFlat(w, newContext(l.h, src), tStr, []Word{{CI32, uint64(p)}, {CI32, uint64(n)}})
	if r.panic != nil || r.err != nil {
		w.Fail("lift", "lifting: %s", r)
		return
	}
	if got, ok := r.v.(string); !ok || got != s {
		w.Fail("lifted", "lifted as %s", clipS(show(r.v)))
		return
	}
	l.h2.reset(size, 0x42)
	l.h2.next = 1
	r = doLowerFlat(w, newContext(l.h2, dst), tStr, r.v)
	if r.panic != nil || r.err != nil || len(r.words) != 2 {
		w.Fail("lower", "lowering: %s", r)
		return
	}
	m := &matcher{&guest{l.h2.mem(), dst}, l.h2}
	if d := m.flat(tStr, &V{S: s}, r.words); d != "" {
		w.Fail("lowered", "%s", clipS(d))
	}
	w.Trace(encNames[src] + ">" + encNames[dst])
}

func clipS(s string) string {
	if len(s) > 120 {
		return s[:120] + "…"
	}
	return s
}

// liftBytes presents raw bytes as a string of the encoding.
func liftBytes(w *mc.W, raw []byte, enc Enc, tagged uint32) {
	w.Desc(func() string { return fmt.Sprintf("bytes % x as %s, length 0x%x", raw, encNames[enc], tagged) })
	l := heapOf(w)
	l.h.reset(len(raw)+4, 0x41)
	copy(l.h.mem()[2:], raw)
	g := &guest{l.h.mem(), enc}
	ws := []Word{{CI32, 2}, {CI32, uint64(tagged)}}
	want, outcome := mLift(func() *V { return g.liftFlat(tStr, &words{w: ws}) })
	r := doLiftFlat(w, newContext(l.h, enc), tStr, ws)
	judgeLift(w, tStr, want, outcome, r, 2)
	w.Trace(encNames[enc] + " bytes " + outcome)
}

var utf8Classes = []byte{0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xfe, 0xff}
var utf16Classes = []uint16{0x0000, 0x0041, 0x00e9, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff}

func c07(tier string) []mc.Family {
	thorough := tier == "thorough"
	ready([]*T{tStr})
	var fs []mc.Family
	fs = append(fs, mc.Family{Name: "codepoints", Bound: "every Unicode scalar value alone, all 9 encoding pairs", N: 0x110000, Run: func(w *mc.W, i int64) {
		if i >= 0xd800 && i <= 0xdfff {
			return
		}
		w.Distinct()
		for p := 0; p < 9; p++ {
			if !thorough && p != int(i%9) && i > 0x3000 && i%64 != 0 {
				continue
			}
			passString(w, string(rune(i)), Enc(p/3), Enc(p%3))
		}
	}})
	n := 3
	if thorough {
		n = 5
	}
	k := len(runeClasses)
	fs = append(fs, mc.Family{Name: "class-strings", Bound: fmt.Sprintf("all strings of up to %d characters over %d class representatives, all 9 encoding pairs", n, k), N: mc.SeqCount(k, n), Run: func(w *mc.W, i int64) {
		var sb strings.Builder
		for _, c := range mc.Seq(i, k, n, nil) {
			sb.WriteRune(runeClasses[c])
		}
		w.Distinct()
		for p := 0; p < 9; p++ {
			passString(w, sb.String(), Enc(p/3), Enc(p%3))
		}
	}})
	// long strings, so that every internal buffer boundary is crossed by every kind of character
	fill := []rune{'a', 0xe9, 0x100, 0x20ac, 0x1f600}
	marks := []int{64, 128, 256, 512, 1024, 2048, 4096, 8192}
	if thorough {
		marks = append(marks, 16384, 32768, 65536)
	}
	const spread = 9
	fs = append(fs, mc.Family{Name: "long-strings", Bound: fmt.Sprintf("strings filled with one character class to %v±4 bytes, shifted by 0..3, marked at the end, all 9 encoding pairs", marks),
		N: int64(len(fill) * len(marks) * spread * 4 * 9), Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, 9, 4, spread, len(marks), len(fill))
			target := marks[d[3]] + d[2] - 4
			s := strings.Repeat("x", d[1])
			one := string(fill[d[4]])
			if target > len(s) {
				s += strings.Repeat(one, (target-len(s))/len(one))
			}
			s += "!"
			w.Distinct()
			passString(w, s, Enc(d[0]/3), Enc(d[0]%3))
		}})
	// ill-formed and well-formed bytes
	all := 2
	if thorough {
		all = 3
	}
	fs = append(fs, mc.Family{Name: "bytes", Bound: fmt.Sprintf("all byte strings of up to %d bytes as UTF-8 and as Latin-1", all), N: mc.SeqCount(256, all), Run: func(w *mc.W, i int64) {
		raw := seqBytes(i, nil, all)
		w.Distinct()
		liftBytes(w, raw, EncUTF8, uint32(len(raw)))
		if i < 70000 {
			liftBytes(w, raw, EncLatin1UTF16, uint32(len(raw)))
		}
	}})
	kb := len(utf8Classes)
	nb := 4
	if thorough {
		nb = 5
	}
	fs = append(fs, mc.Family{Name: "utf8-classes", Bound: fmt.Sprintf("all byte strings of up to %d bytes over %d UTF-8 byte classes", nb, kb), N: mc.SeqCount(kb, nb), Run: func(w *mc.W, i int64) {
		raw := seqBytes(i, utf8Classes, nb)
		w.Distinct()
		liftBytes(w, raw, EncUTF8, uint32(len(raw)))
	}})
	fs = append(fs, mc.Family{Name: "units", Bound: "every 16-bit unit alone and after each surrogate, as UTF-16 and as tagged Latin-1+UTF-16", N: 65536 * 4, Run: func(w *mc.W, i int64) {
		u := uint16(i)
		raw := []byte{byte(u), byte(u >> 8)}
		switch i >> 16 {
		case 1:
			raw = append([]byte{0x3d, 0xd8}, raw...)
		case 2:
			raw = append(raw, 0x00, 0xde)
		case 3:
			raw = append(raw, 0x41, 0x00)
		}
		w.Distinct()
		liftBytes(w, raw, EncUTF16, uint32(len(raw)/2))
		liftBytes(w, raw, EncLatin1UTF16, uint32(len(raw)/2)|1<<31)
	}})
	ku := len(utf16Classes)
	nu := 4
	fs = append(fs, mc.Family{Name: "unit-classes", Bound: fmt.Sprintf("all sequences of up to %d units over %d classes", nu, ku), N: mc.SeqCount(ku, nu), Run: func(w *mc.W, i int64) {
		var raw []byte
		for _, c := range mc.Seq(i, ku, nu, nil) {
			raw = append(raw, byte(utf16Classes[c]), byte(utf16Classes[c]>>8))
		}
		w.Distinct()
		liftBytes(w, raw, EncUTF16, uint32(len(raw)/2))
		liftBytes(w, raw, EncLatin1UTF16, uint32(len(raw)/2)|1<<31)
	}})
	return append(fs, extraC07(n)...)
}

// seqBytes decodes i into a byte string of length 0..n (over alpha if given).
func seqBytes(i int64, alpha []byte, n int) []byte {
	k := 256
	if alpha != nil {
		k = len(alpha)
	}
	s := mc.Seq(i, k, n, nil)
	out := make([]byte, len(s))
	for j, c := range s {
		if alpha != nil {
			out[j] = alpha[c]
		} else {
			out[j] = byte(c)
		}
	}
	return out
}
