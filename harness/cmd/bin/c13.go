package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	"github.com/patrickhuber/go-wasm/leb128"
	"verif/harness/mc"
)

// refEncode is the shortest form: groups of seven bits, low group first.
func refEncode(dst []byte, v uint32) []byte {
	for v >= 0x80 {
		dst = append(dst, byte(v)|0x80)
		v >>= 7
	}
	return append(dst, byte(v))
}

// refPad is the form with exactly n bytes (n at least the shortest length).
func refPad(dst []byte, v uint32, n int) []byte {
	for i := 0; i < n-1; i++ {
		dst = append(dst, byte(v)&0x7f|0x80)
		v >>= 7
	}
	return append(dst, byte(v))
}

// refDecode follows the grammar of u32 in the binary format.
func refDecode(b []byte) (v uint32, n int, ok bool) {
	var x uint64
	for n < len(b) && n < 5 {
		c := b[n]
		x |= uint64(c&0x7f) << (7 * n)
		n++
		if c < 0x80 {
			return uint32(x), n, x < 1<<32
		}
	}
	return 0, 0, false
}

// script is a reader that delivers its data in pieces as told.
type script struct {
	data  []byte
	cuts  []int // ends of the pieces, ascending; len(data) need not be listed
	empty []int // positions where a read first delivers nothing, once each
	mode  int   // 0: end alone, 1: end together with the last bytes
	end   error // io.EOF or a failure
	pos   int
	told  bool // the end has been reported
}

func (s *script) Read(p []byte) (int, error) {
	if len(s.empty) > 0 && s.empty[0] <= s.pos {
		s.empty = s.empty[1:]
		return 0, nil
	}
	if s.pos == len(s.data) {
		s.told = true
		return 0, s.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	for len(s.cuts) > 0 && s.cuts[0] <= s.pos {
		s.cuts = s.cuts[1:]
	}
	stop := len(s.data)
	if len(s.cuts) > 0 {
		stop = s.cuts[0]
	}
	n := copy(p, s.data[s.pos:stop])
	s.pos += n
	if s.pos == len(s.data) && s.mode == 1 {
		s.told = true
		return n, s.end
	}
	return n, nil
}

type lebLocal struct {
	src  *bytes.Reader
	br   *bufio.Reader
	out  bytes.Buffer
	bw   *bufio.Writer
	want []byte
}

func lebOf(w *mc.W) *lebLocal {
	if w.Local == nil {
		l := &lebLocal{src: bytes.NewReader(nil)}
		l.br = bufio.NewReaderSize(l.src, 16)
		l.bw = bufio.NewWriterSize(&l.out, 16)
		w.Local = l
	}
	return w.Local.(*lebLocal)
}

// decodeAll runs the three decoders on b and compares with the reference.
func decodeAll(w *mc.W, l *lebLocal, b []byte) {
	v, n, ok := refDecode(b)
	check := func(name string, gv uint32, gn int, err error, left int) {
		switch {
		case !ok && err == nil:
			w.Fail(name+"-accepts", "%s accepts % x as %d", name, b, gv)
		case ok && err != nil:
			w.Fail(name+"-rejects", "%s rejects % x: %v", name, b, err)
		case ok && (gv != v || gn != n):
			w.Fail(name+"-value", "%s of % x is %d from %d bytes instead of %d from %d", name, b, gv, gn, v, n)
		case ok && left >= 0 && left != len(b)-n:
			w.Fail(name+"-position", "%s of % x leaves %d bytes instead of %d", name, b, left, len(b)-n)
		}
	}
	gv, gn, err := leb128.DecodeSlice(b)
	check("slice", gv, gn, err, -1)
	l.src.Reset(b)
	l.br.Reset(l.src)
	gv, gn, err = leb128.Decode(l.br)
	check("buffered", gv, gn, err, l.br.Buffered()+l.src.Len())
	l.src.Reset(b)
	gv, gn, err = leb128.DecodeReader(l.src)
	check("reader", gv, gn, err, l.src.Len())
	w.Step(3)
}

func lebValue(w *mc.W, v uint32) {
	l := lebOf(w)
	l.out.Reset()
	l.bw.Reset(&l.out)
	n, err := leb128.Encode(l.bw, v)
	l.bw.Flush()
	l.want = refEncode(l.want[:0], v)
	w.Step(1)
	if err != nil || n != len(l.want) || !bytes.Equal(l.out.Bytes(), l.want) {
		w.Fail("encode", "encoding %d gives % x (%d, %v) instead of % x", v, l.out.Bytes(), n, err, l.want)
	}
	decodeAll(w, l, l.want)
}

func c13(tier string) []mc.Family {
	thorough := tier == "thorough"
	groups := []uint32{0, 1, 2, 0x3f, 0x40, 0x41, 0x7e, 0x7f}
	fs := []mc.Family{{
		Name: "groups", Bound: "every value whose 7-bit groups are among 0,1,2,3f,40,41,7e,7f, in every form of 1 to 5 bytes", N: mc.Pow(len(groups), 4) * 16,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, 8, 8, 8, 8, 16)
			v := groups[d[0]] | groups[d[1]]<<7 | groups[d[2]]<<14 | groups[d[3]]<<21 | uint32(d[4])<<28
			w.Desc(func() string { return fmt.Sprint(v) })
			w.Distinct()
			lebValue(w, v)
			l := lebOf(w)
			for n := len(refEncode(nil, v)); n <= 5; n++ {
				b := refPad(nil, v, n)
				decodeAll(w, l, b)
				decodeAll(w, l, append(b, 0x80, 0x01))
				for k := 0; k < n; k++ {
					decodeAll(w, l, b[:k])
				}
				// however the bytes arrive
				for m := 0; m < 8; m++ {
					s := &script{data: append(b[:n:n], 0x77)[:n+m&1], mode: m >> 1 & 1, end: io.EOF}
					for c := 1; c <= n; c++ {
						s.cuts = append(s.cuts, c)
						if m>>2 == 1 {
							s.empty = append(s.empty, c-1)
						}
					}
					gv, gn, err := leb128.DecodeReader(s)
					if err != nil || gv != v || gn != n || s.pos != n {
						w.Fail("delivery", "reading % x byte by byte (end with the last byte: %v, empty reads: %v) gives %d, %d bytes, %v at %d", b, m>>1&1 == 1, m>>2 == 1, gv, gn, err, s.pos)
					}
					w.Step(1)
				}
			}
			w.Trace(fmt.Sprintf("value of %d bytes", len(refEncode(nil, v))))
		},
	}}
	// runs of values
	bits := 23
	if thorough {
		bits = 32
	}
	fs = append(fs, mc.Family{
		Name: "values", Bound: fmt.Sprintf("every value below 2^%d", bits), N: 1 << (bits - 10),
		Run: func(w *mc.W, i int64) {
			for k := int64(0); k < 1024; k++ {
				v := uint32(i<<10 | k)
				w.Desc(func() string { return fmt.Sprint(v) })
				w.Distinct()
				lebValue(w, v)
			}
			w.Trace("1024 values")
		},
	})
	outcome := func(b []byte) string {
		_, n, ok := refDecode(b)
		if !ok {
			return "rejected"
		}
		return fmt.Sprintf("number of %d bytes, %d left", n, len(b)-n)
	}
	fs = append(fs, mc.Family{
		Name: "bytes", Bound: "every byte string of up to 3 bytes", N: 1 + 256 + 256*256 + 256,
		Run: func(w *mc.W, i int64) {
			var buf []int
			var b []byte
			run := func() {
				w.Desc(func() string { return fmt.Sprintf("% x", b) })
				w.Distinct()
				decodeAll(w, lebOf(w), b)
				w.Trace(outcome(b))
			}
			if i < 1+256+256*256 {
				for _, x := range mc.Seq(i, 256, 2, buf) {
					b = append(b, byte(x))
				}
				run()
				return
			}
			first := byte(i - (1 + 256 + 256*256))
			for k := 0; k < 1<<16; k++ {
				b = []byte{first, byte(k >> 8), byte(k)}
				run()
			}
		},
	})
	alpha := []byte{0x00, 0x01, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0xff}
	max := 6
	if thorough {
		alpha = append(alpha, 0x08, 0x40, 0xc0, 0x9f)
		max = 7
	}
	fs = append(fs, mc.Family{
		Name: "strings", Bound: fmt.Sprintf("every byte string of up to %d bytes over % x", max, alpha), N: mc.SeqCount(len(alpha), max),
		Run: func(w *mc.W, i int64) {
			var buf [8]int
			b := make([]byte, 0, 8)
			for _, x := range mc.Seq(i, len(alpha), max, buf[:0]) {
				b = append(b, alpha[x])
			}
			w.Desc(func() string { return fmt.Sprintf("% x", b) })
			w.Distinct()
			decodeAll(w, lebOf(w), b)
			w.Trace(outcome(b))
		},
	})
	return fs
}
