// Command enc explores the text codecs over streams (property C27).
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/encoding"
	"verif/harness/mc"
)

func main() {
	debug.SetGCPercent(1000) // conversions leave many short-lived buffers
	mc.Main([]mc.Property{{ID: "C27", Families: c27}})
}

// ---------------------------------------------------------------- reference

type kind struct {
	name  encoding.Encoding
	unit  int
	order binary.ByteOrder // of UTF-16
}

var kinds = []kind{
	{encoding.UTF8, 1, nil},
	{encoding.UTF16, 2, binary.LittleEndian},
	{encoding.UTF16LE, 2, binary.LittleEndian},
	{encoding.UTF16BE, 2, binary.BigEndian},
	{encoding.Latin1, 1, nil},
	{encoding.Latin1Utf16, 1, nil},
}

func (k kind) latin() bool { return k.name == encoding.Latin1 || k.name == encoding.Latin1Utf16 }

// encode gives the encoding of well-formed text, if it has one.
func (k kind) encode(rs []rune) ([]byte, bool) {
	var out []byte
	for _, r := range rs {
		switch {
		case k.order != nil:
			for _, u := range utf16.Encode([]rune{r}) {
				var b [2]byte
				k.order.PutUint16(b[:], u)
				out = append(out, b[:]...)
			}
		case k.latin():
			if r > 0xff {
				return nil, false
			}
			out = append(out, byte(r))
		default:
			out = utf8.AppendRune(out, r)
		}
	}
	return out, true
}

// decode gives the text of well-formed bytes.
func (k kind) decode(b []byte) (string, bool) {
	switch {
	case k.order != nil:
		if len(b)%2 != 0 {
			return "", false
		}
		var out []rune
		for i := 0; i < len(b); i += 2 {
			u := rune(k.order.Uint16(b[i:]))
			if utf16.IsSurrogate(u) {
				if i+4 > len(b) {
					return "", false
				}
				r := utf16.DecodeRune(u, rune(k.order.Uint16(b[i+2:])))
				if r == utf8.RuneError {
					return "", false
				}
				u = r
				i += 2
			}
			out = append(out, u)
		}
		return string(out), true
	case k.latin():
		var out []rune
		for _, c := range b {
			out = append(out, rune(c))
		}
		return string(out), true
	}
	return string(b), utf8.Valid(b)
}

// ---------------------------------------------------------------- environment

var errRead, errWrite = errors.New("read failed"), errors.New("write failed")

// source delivers its bytes in pieces ending at the given cuts.
type source struct {
	data   []byte
	cuts   []int // ascending positions where a piece ends
	at     int
	idle   bool // a read without data between two pieces
	rested bool
	joined bool // the last piece comes together with the end
	failAt int  // fails once this many bytes were delivered; -1 never
	early  bool // the failure comes together with the piece before it
	reads  int
	each   int // pieces of so many bytes
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.failAt >= 0 && s.at >= s.failAt {
		return 0, errRead
	}
	if s.at == len(s.data) {
		return 0, io.EOF
	}
	if s.idle && !s.rested {
		s.rested = true
		return 0, nil
	}
	s.rested = false
	end := len(s.data)
	if s.each > 0 && s.at+s.each < end {
		end = s.at + s.each
	}
	for _, c := range s.cuts {
		if c > s.at && c < end {
			end = c
			break
		}
	}
	if s.failAt >= 0 && end > s.failAt {
		end = s.failAt
	}
	n := copy(p, s.data[s.at:end])
	s.at += n
	if s.failAt >= 0 && s.at == s.failAt && s.early {
		return n, errRead
	}
	if s.at == len(s.data) && s.joined && s.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

// sink accepts a number of bytes and fails afterwards.
type sink struct {
	buf  bytes.Buffer
	room int // -1: unlimited
}

func (s *sink) Write(p []byte) (int, error) {
	if s.room >= 0 && s.buf.Len()+len(p) > s.room {
		n, _ := s.buf.Write(p[:s.room-s.buf.Len()])
		return n, errWrite
	}
	return s.buf.Write(p)
}

// ---------------------------------------------------------------- judging

var factory = encoding.DefaultFactory()

func codecOf(w *mc.W, k kind) encoding.Codec {
	var c encoding.Codec
	var err error
	if p := mc.Safe(func() { c, err = factory.Get(k.name) }); p != nil || err != nil || c == nil {
		w.Fail("factory", "no codec for %s: %v %v", k.name, err, p)
		return nil
	}
	return c
}

type way struct {
	cuts               []int
	idle, joined       bool
	failAt, room, each int
	early, whole, lone bool
}

func (y way) String() string {
	return fmt.Sprintf("cuts %v each %d idle %v joined %v fails at %d (early %v) room %d whole %v", y.cuts, y.each, y.idle, y.joined, y.failAt, y.early, y.room, y.whole)
}

var plainWay = way{failAt: -1, room: -1}

// run performs one conversion.
func run(w *mc.W, c encoding.Codec, encode bool, data []byte, y way) (out []byte, err error, panicked any) {
	dst := &sink{room: y.room}
	src := &source{data: data, cuts: y.cuts, idle: y.idle, joined: y.joined, failAt: y.failAt, early: y.early, each: y.each}
	var r io.Reader = src
	if y.whole { // readers that hand themselves over in one piece
		r = bytes.NewReader(data)
		if y.lone {
			r = strings.NewReader(string(data))
		}
	}
	panicked = mc.Safe(func() {
		if encode {
			err = c.Encode(dst, r)
		} else {
			err = c.Decode(dst, r)
		}
	})
	w.Step(1 + src.reads)
	return dst.buf.Bytes(), err, panicked
}

// convert performs and judges one conversion. want is nil if the data is ill-formed or cannot be represented.
func convert(w *mc.W, k kind, encode bool, data, want []byte, ok bool, y way) {
	dir := "decode"
	if encode {
		dir = "encode"
	}
	c := codecOf(w, k)
	if c == nil {
		return
	}
	w.Desc(func() string {
		d := data
		if len(d) > 60 {
			d = d[len(d)-60:]
		}
		return fmt.Sprintf("%s %s of %d bytes …%q, %s", k.name, dir, len(data), d, y)
	})
	sig := string(k.name) + " " + dir
	out, err, p := run(w, c, encode, data, y)
	switch {
	case p != nil:
		w.Fail(sig+" panic", "panicked: %v", p)
	case y.failAt >= 0:
		w.Trace(sig + " read failure")
		if err == nil {
			w.Fail(sig+" read failure", "the failing source was not reported")
		}
	case y.room >= 0 && ok && y.room < len(want):
		w.Trace(sig + " write failure")
		if err == nil {
			w.Fail(sig+" write failure", "the failing destination was not reported")
		}
	case ok:
		w.Trace(sig + " converted")
		if err != nil {
			w.Fail(sig+" error", "well-formed text is refused: %v", err)
		} else if !bytes.Equal(out, want) {
			w.Fail(sig+" result", "gives %s, expected %s", tail(out), tail(want))
		} else if encode && len(out) != c.RuneSize()*(len(want)/k.unit) {
			w.Fail(sig+" size", "%d bytes for %d code units of %d bytes", len(out), len(want)/k.unit, c.RuneSize())
		}
	case err != nil:
		w.Trace(sig + " refused")
	default:
		w.Trace(sig + " replaced")
		illFormed(w, k, sig, encode, data, out)
	}
}

func tail(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%d bytes …%x", len(b), b[len(b)-40:])
	}
	return fmt.Sprintf("%d bytes %x", len(b), b)
}

// illFormed judges a conversion of ill-formed text that reported no error: every well-formed
// character is there, in order, and something stands for every stretch that is not.
func illFormed(w *mc.W, k kind, sig string, encode bool, data, out []byte) {
	in, res := pieces(kind{encoding.UTF8, 1, nil}, data), pieces(k, out)
	if !encode {
		in, res = pieces(k, data), pieces(kind{encoding.UTF8, 1, nil}, out)
	}
	if k.latin() && encode { // nothing in Latin-1 can mark a replacement but a question mark or a control
		for i, r := range res {
			if r == '?' || r == 0x1a {
				res[i] = bad
			}
		}
		for i, r := range in {
			if r > 0xff || r == '?' || r == 0x1a {
				in[i] = bad
			}
		}
	}
	if !aligns(in, res) {
		w.Fail(sig+" dropped", "ill-formed text is neither reported nor replaced: characters %x became %x", in, res)
	}
}

const bad = utf8.RuneError

// pieces splits bytes into characters; whatever is ill-formed or a replacement becomes bad.
func pieces(k kind, b []byte) []rune {
	var out []rune
	switch {
	case k.order != nil:
		for len(b) >= 2 {
			r := rune(k.order.Uint16(b))
			b = b[2:]
			if utf16.IsSurrogate(r) {
				if len(b) >= 2 {
					if x := utf16.DecodeRune(r, rune(k.order.Uint16(b))); x != bad {
						out = append(out, x)
						b = b[2:]
						continue
					}
				}
				r = bad
			}
			out = append(out, r)
		}
		if len(b) > 0 {
			out = append(out, bad)
		}
	case k.latin():
		for _, c := range b {
			out = append(out, rune(c))
		}
	default:
		for len(b) > 0 {
			r, n := utf8.DecodeRune(b)
			out = append(out, r)
			b = b[n:]
		}
	}
	return out
}

// aligns compares characters; runs of bad match runs of bad of any length, but not nothing.
func aligns(a, b []rune) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] != b[j] {
			return false
		}
		if a[i] == bad {
			for i < len(a) && a[i] == bad {
				i++
			}
			for j < len(b) && b[j] == bad {
				j++
			}
			continue
		}
		i++
		j++
	}
	return i == len(a) && j == len(b)
}

// text checks one text with one codec in both directions, in one way of delivery.
func text(w *mc.W, k kind, rs []rune, y way) {
	enc, ok := k.encode(rs)
	src := []byte(string(rs))
	convert(w, k, true, src, enc, ok, y)
	if ok && !w.Failed() {
		convert(w, k, false, enc, src, true, y)
	}
}

// raw checks arbitrary bytes in one direction.
func raw(w *mc.W, k kind, encode bool, b []byte, y way) {
	if encode {
		if utf8.Valid(b) {
			enc, ok := k.encode([]rune(string(b)))
			convert(w, k, true, b, enc, ok, y)
		} else {
			convert(w, k, true, b, nil, false, y)
		}
		return
	}
	s, ok := k.decode(b)
	convert(w, k, false, b, []byte(s), ok, y)
}

// cutSets are all ways to cut n bytes, for small n, else all single and double cuts.
func cutSets(n int, visit func([]int)) {
	if n <= 9 {
		for bits := 0; bits < 1<<max(n-1, 0); bits++ {
			var c []int
			for i := 1; i < n; i++ {
				if bits>>(i-1)&1 == 1 {
					c = append(c, i)
				}
			}
			visit(c)
		}
		return
	}
	visit(nil)
	var all []int
	for i := 1; i < n; i++ {
		all = append(all, i)
		visit([]int{i})
		for j := i + 1; j < n; j++ {
			visit([]int{i, j})
		}
	}
	visit(all)
}

var alphabet = []rune{0, 'a', '?', 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff}

func c27(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	nk := int64(len(kinds))
	var fs []mc.Family
	helper := func(w *mc.W, k kind, rs []rune) {
		// the string helpers
		c := codecOf(w, k)
		if c == nil {
			return
		}
		s := string(rs)
		exp, ok := k.encode(rs)
		w.Desc(func() string { return fmt.Sprintf("%s helpers on %q", k.name, s) })
		var b []byte
		var back string
		var err, err2 error
		p := mc.Safe(func() {
			b, err = encoding.EncodeString(c, s)
			if err == nil {
				back, err2 = encoding.DecodeString(c, bytes.NewReader(b))
			}
		})
		w.Step(2)
		switch {
		case p != nil:
			w.Fail(string(k.name)+" helper panic", "panicked: %v", p)
		case ok && (err != nil || err2 != nil || !bytes.Equal(b, exp) || back != s):
			w.Fail(string(k.name)+" helper", "gives %x %v and back %q %v, expected %x", b, err, back, err2, exp)
		case !ok && err == nil && back == s:
			w.Fail(string(k.name)+" helper", "encodes text it cannot represent")
		}
		w.Trace("helper")
	}
	// every code point, 64 at a time; Latin-1 has no use for most of them in one text
	fs = append(fs, mc.Family{Name: "code points", Bound: "every code point but surrogates in texts of 64 and of 1, with every codec, whole and in pieces of 1, 2, 3 and 5 bytes", N: (0x110000 - 0x800) / 64 * nk,
		Run: func(w *mc.W, i int64) {
			k := kinds[i%nk]
			var rs []rune
			for j := int64(0); j < 64; j++ {
				r := rune(i/nk*64 + j)
				if r >= 0xd800 {
					r += 0x800
				}
				rs = append(rs, r)
			}
			w.Distinct()
			helper(w, k, rs)
			for _, each := range []int{1, 2, 3, 5} {
				text(w, k, rs, way{each: each, failAt: -1, room: -1})
			}
			if k.latin() || thorough {
				for j := range rs {
					text(w, k, rs[j:j+1], plainWay)
				}
			}
		}})
	texts := func(name string, alphabet []rune, tn int) {
		fs = append(fs, mc.Family{Name: name, Bound: fmt.Sprintf("every text of up to %d characters out of %d, with every codec, every way of splitting it (all subsets of cuts up to 9 bytes, all pairs of cuts beyond)", tn, len(alphabet)), N: mc.SeqCount(len(alphabet), tn) * nk,
			Run: func(w *mc.W, i int64) {
				k := kinds[i%nk]
				var buf [8]int
				var rs []rune
				for _, x := range mc.Seq(i/nk, len(alphabet), tn, buf[:0]) {
					rs = append(rs, alphabet[x])
				}
				w.Distinct()
				helper(w, k, rs)
				for _, whole := range []way{{whole: true, failAt: -1, room: -1}, {whole: true, lone: true, failAt: -1, room: -1}} {
					text(w, k, rs, whole)
				}
				src := []byte(string(rs))
				enc, ok := k.encode(rs)
				full := len(rs) < tn
				cutSets(len(src), func(cuts []int) {
					for m := 0; m < 4; m++ {
						if !full && m != 0 {
							break
						}
						convert(w, k, true, src, enc, ok, way{cuts: cuts, idle: m&1 == 1, joined: m&2 == 2, failAt: -1, room: -1})
					}
				})
				if ok {
					cutSets(len(enc), func(cuts []int) {
						for m := 0; m < 4; m++ {
							if !full && m != 0 {
								break
							}
							convert(w, k, false, enc, src, true, way{cuts: cuts, idle: m&1 == 1, joined: m&2 == 2, failAt: -1, room: -1})
						}
					})
				}
			}})
	}
	texts("texts", alphabet, 3)
	if thorough {
		texts("longer texts", []rune{'a', 0xe9, 0x7ff, 0x20ac, 0xfeff, 0x10000, 0x10ffff}, 4)
	}
	fn := pick(2, 3)
	fs = append(fs, mc.Family{Name: "failures", Bound: fmt.Sprintf("every text of up to %d characters out of %d, with every codec, source and destination failing at every byte, every single cut", fn, len(alphabet)), N: mc.SeqCount(len(alphabet), fn) * nk,
		Run: func(w *mc.W, i int64) {
			k := kinds[i%nk]
			var buf [8]int
			var rs []rune
			for _, x := range mc.Seq(i/nk, len(alphabet), fn, buf[:0]) {
				rs = append(rs, alphabet[x])
			}
			w.Distinct()
			src := []byte(string(rs))
			enc, ok := k.encode(rs)
			for dir := 0; dir < 2; dir++ {
				data, want := src, enc
				if dir == 1 {
					if !ok {
						return
					}
					data, want = enc, src
				}
				for cut := 0; cut < max(len(data), 1); cut++ {
					for at := 0; at <= len(data); at++ {
						for _, early := range []bool{false, true} {
							convert(w, k, dir == 0, data, want, ok, way{cuts: []int{cut}, failAt: at, early: early, room: -1})
						}
					}
					for room := 0; room <= len(want); room++ {
						convert(w, k, dir == 0, data, want, ok, way{cuts: []int{cut}, failAt: -1, room: room})
					}
				}
				for room := 0; room <= len(want); room++ {
					convert(w, k, dir == 0, data, want, ok, way{whole: true, failAt: -1, room: room})
				}
			}
		}})
	bs := []byte{0, 'a', '?', 0x7f, 0x80, 0xbf, 0xc2, 0xd8, 0xdc, 0xdf, 0xe0, 0xed, 0xf0, 0xf4, 0xff, 0xfe}
	bn := 4
	if thorough {
		bn, bs = 5, []byte{'a', '?', 0x80, 0xbf, 0xc2, 0xd8, 0xdc, 0xe0, 0xed, 0xf0}
	}
	fs = append(fs, mc.Family{Name: "bytes", Bound: fmt.Sprintf("every byte string of up to %d out of %d bytes, encoded and decoded with every codec, whole and with every subset of cuts", bn, len(bs)), N: mc.SeqCount(len(bs), bn) * nk,
		Run: func(w *mc.W, i int64) {
			k := kinds[i%nk]
			var buf [8]int
			var b []byte
			for _, x := range mc.Seq(i/nk, len(bs), bn, buf[:0]) {
				b = append(b, bs[x])
			}
			w.Distinct()
			cutSets(len(b), func(cuts []int) {
				raw(w, k, true, b, way{cuts: cuts, failAt: -1, room: -1})
				raw(w, k, false, b, way{cuts: cuts, failAt: -1, room: -1})
			})
		}})
	fs = append(fs, mc.Family{Name: "pairs", Bound: "every string of two bytes, encoded and decoded with every codec, whole and cut", N: 65536 * nk,
		Run: func(w *mc.W, i int64) {
			k := kinds[i%nk]
			b := []byte{byte(i / nk), byte(i / nk >> 8)}
			w.Distinct()
			for _, cuts := range [][]int{nil, {1}} {
				raw(w, k, true, b, way{cuts: cuts, failAt: -1, room: -1})
				raw(w, k, false, b, way{cuts: cuts, failAt: -1, room: -1})
			}
		}})
	// buffers inside of the conversion: every alignment of characters to their ends
	var edges []int
	for _, e := range []int{512, 1024, 2048, 4096, 8192, 16384, 32768} {
		if e > 8192 && !thorough {
			continue
		}
		for d := -9; d <= 9; d++ {
			edges = append(edges, e+d)
		}
	}
	edges = append(edges, 65535, 65536, 65537)
	tails := [][]rune{{'a'}, {0xe9}, {0x20ac}, {0x1f600}, {0xe9, 0xe9, 0xe9}, {0x20ac, 0x20ac}, {0x1f600, 0x1f600}, {'a', 0x1f600, 0xe9, 0x20ac}}
	fills := []rune{'x', 0xe9, 0x20ac, 0x1f600}
	fs = append(fs, mc.Family{Name: "long texts", Bound: fmt.Sprintf("texts of %d lengths around powers of two, made of each of 4 characters with each of %d endings, with every codec, whole, in small pieces and with a cut near the end", len(edges), len(tails)), N: int64(len(edges)*len(tails)*len(fills)) * nk, Heavy: true,
		Run: func(w *mc.W, i int64) {
			k := kinds[i%nk]
			d := mc.Mixed(i/nk, len(edges), len(tails), len(fills))
			n, f := edges[d[0]], fills[d[2]]
			var rs []rune
			for size := 0; size < n; {
				r := f
				if size+utf8.RuneLen(r) > n {
					r = 'x'
				}
				rs = append(rs, r)
				size += utf8.RuneLen(r)
			}
			rs = append(rs, tails[d[1]]...)
			w.Distinct()
			for _, y := range []way{plainWay, {whole: true, failAt: -1, room: -1}, {cuts: []int{n - 1}, failAt: -1, room: -1}, {cuts: []int{n, n + 1, n + 2, n + 3}, failAt: -1, room: -1}} {
				text(w, k, rs, y)
			}
			if n < 5000 {
				text(w, k, rs, way{each: 7, failAt: -1, room: -1})
			}
			// cut off inside of the last character
			src := []byte(string(rs))
			for cut := 1; cut <= 3; cut++ {
				b := src[:len(src)-cut]
				raw(w, k, true, b, plainWay)
				raw(w, k, true, b, way{whole: true, failAt: -1, room: -1})
			}
			if enc, ok := k.encode(rs); ok {
				for cut := 1; cut <= 3; cut++ {
					raw(w, k, false, enc[:len(enc)-cut], plainWay)
				}
				convert(w, k, true, src, enc, true, way{failAt: len(src) - 1, room: -1})
				convert(w, k, true, src, enc, true, way{failAt: -1, room: len(enc) - 1})
				convert(w, k, false, enc, src, true, way{failAt: len(enc) - 1, room: -1})
				convert(w, k, false, enc, src, true, way{failAt: -1, room: len(src) - 1})
			}
		}})
	// one codec used for several conversions, one after another and interleaved
	fs = append(fs, mc.Family{Name: "reuse", Bound: "every ordered pair of 60 conversions with one codec value, the first complete, failing or cut off", N: 60 * 60 * nk,
		Run: func(w *mc.W, i int64) {
			k := kinds[i%nk]
			a, b := int(i/nk)%60, int(i/nk)/60
			w.Distinct()
			do := func(x int, judge bool) {
				r := alphabet[x%20]
				src := []byte(string([]rune{'a', r, 0xe9}))
				switch x / 20 {
				case 0:
					text(w, k, []rune{'a', r, 0xe9}, way{cuts: []int{2}, failAt: -1, room: -1})
				case 1:
					raw(w, k, true, src[:len(src)-1], way{cuts: []int{2}, failAt: -1, room: -1})
				case 2:
					if enc, ok := k.encode([]rune{'a', r, 0xe9}); ok {
						raw(w, k, false, enc[:len(enc)-1], way{cuts: []int{2}, failAt: -1, room: -1})
						convert(w, k, false, enc, src, true, way{cuts: []int{1}, failAt: 2, room: -1})
					}
				}
			}
			do(a, false)
			do(b, true)
		}})
	return fs
}
