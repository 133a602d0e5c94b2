//go:build extra

package main

import (
	"bytes"
	"fmt"
	"strings"

	aio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/encoding"

	"verif/harness/mc"
)

// transfers are the ways to put a string into memory that no lowering goes through.
var transfers = []string{"UTF-8 to UTF-16", "copy of UTF-8", "copy as UTF-16", "copy as Latin-1"}

// encodeAs is the standard encoding the transfer leaves in memory.
func encodeAs(how int, s string) (b []byte, unit uint32, ok bool) {
	switch how {
	case 0, 2:
		return encodeUTF16(s), 2, true
	case 1:
		return []byte(s), 1, true
	}
	for _, r := range s {
		if r > 0xff {
			return nil, 1, false
		}
		b = append(b, byte(r))
	}
	return b, 1, true
}

func transfer(cx *types.CallContext, how int, s string) (uint32, uint32, error) {
	b, unit, _ := encodeAs(how, s)
	n := uint32(len(b)) / unit
	switch how {
	case 0:
		return aio.StoreUtf8ToUtf16(cx, s, uint32(len(s)))
	case 1:
		return aio.StoreStringCopy(cx, s, n, 1, 1, encoding.NewUTF8())
	case 2:
		return aio.StoreStringCopy(cx, s, n, 2, 2, encoding.NewUTF16())
	}
	return aio.StoreStringCopy(cx, s, n, 1, 2, encoding.NewLatin1())
}

// transferCase puts a string into a memory of m bytes with the allocator answering in turn.
func transferCase(w *mc.W, how int, s string, seq []int, h *heap, m int) {
	h.reset(m, 0x33)
	h.next = 16
	used, bad, failed, zeroOdd := 0, "", false, false
	h.answer = func(align, size uint32) (uint32, error) {
		a := 0
		if used < len(seq) {
			a = seq[used]
		}
		used++
		p, err := allocAnswer(h, a, align, size)
		if err != nil {
			failed = true
			return 0, err
		}
		if uint64(p)+uint64(size) > uint64(h.size) || p%align != 0 {
			if size == 0 {
				zeroOdd = true
			} else if bad == "" {
				bad = fmt.Sprintf("request %d (align %d, size %d) answered 0x%x with %d bytes of memory", used, align, size, p, h.size)
			}
		}
		return p, nil
	}
	want, unit, _ := encodeAs(how, s)
	var p, n uint32
	var err error
	w.Step(1)
	if pv := mc.Safe(func() { p, n, err = transfer(newContext(h, EncUTF8), how, s) }); pv != nil {
		w.Fail("transfer panic", "panicked: %v", pv)
		return
	}
	for i, b := range h.mem() {
		inside := i < m && b == 0x33 || i >= m && b == 0
		for _, blk := range h.blocks {
			inside = inside || uint64(i) >= uint64(blk.ptr) && uint64(i) < uint64(blk.ptr)+uint64(blk.size)
		}
		if !inside {
			w.Fail("transfer stray", "byte %d changed outside every allocation", i)
			break
		}
	}
	if !h.poisoned() {
		w.Fail("transfer overrun", "wrote past the end of memory")
	}
	switch {
	case failed:
		if err == nil {
			w.Fail("transfer ignored failure", "the allocator failed but the operation succeeded")
		}
		w.Trace("allocator failed")
	case bad != "":
		if err == nil {
			w.Fail("transfer accepted", "must be refused: %s", bad)
		}
		w.Trace("bad answer")
	case zeroOdd:
		w.Trace("odd address for an empty block")
	case err != nil:
		w.Fail("transfer refused", "all answers are usable but the operation failed: %v", err)
	case uint64(p)+uint64(len(want)) > uint64(h.size):
		w.Fail("transfer outside", "the string is said to be at 0x%x", p)
	case n != uint32(len(want))/unit:
		w.Fail("transfer length", "%d units instead of %d", n, uint32(len(want))/unit)
	case !h.covers(p, uint32(len(want)), unit):
		w.Fail("transfer not allocated", "the string at %d is not in an allocated block", p)
	case !bytes.Equal(h.mem()[p:int(p)+len(want)], want):
		w.Fail("transfer contents", "% x instead of % x", h.mem()[p:int(p)+len(want)], want)
	default:
		w.Trace("stored")
	}
}

func extraC06(sizes []int) []mc.Family {
	ss := []string{"", "a", "abc", "é", "é😀x", "ÿÿÿÿ", "€", "😀", "aé€😀"}
	return []mc.Family{{
		Name: "transfers", Bound: fmt.Sprintf("%d strings put into memories of %v bytes in %d ways × all sequences of %d allocator answers", len(ss), sizes, len(transfers), numAnswers), N: int64(len(transfers)*len(ss)*len(sizes)) * numAnswers * numAnswers,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, numAnswers, numAnswers, len(transfers), len(ss), len(sizes))
			s := ss[d[3]]
			if _, _, ok := encodeAs(d[2], s); !ok {
				return
			}
			w.Distinct()
			w.Desc(func() string {
				return fmt.Sprintf("%s of %q in %d bytes, allocator answers: %s; %s", transfers[d[2]], s, sizes[d[4]], answerNames[d[0]], answerNames[d[1]])
			})
			transferCase(w, d[2], s, d[:2], heapOf(w).h, sizes[d[4]])
		},
	}}
}

func extraC07(n int) []mc.Family {
	k := len(runeClasses)
	all := func(w *mc.W, s string) {
		w.Distinct()
		for how := range transfers {
			if _, _, ok := encodeAs(how, s); !ok {
				continue
			}
			w.Desc(func() string { return fmt.Sprintf("%s of %q", transfers[how], clipS(s)) })
			transferCase(w, how, s, nil, heapOf(w).h, 8*len(s)+64)
		}
	}
	return []mc.Family{
		{Name: "transferred codepoints", Bound: "every Unicode scalar value alone, put into memory in 4 ways", N: 0x110000, Run: func(w *mc.W, i int64) {
			if i < 0xd800 || i > 0xdfff {
				all(w, string(rune(i)))
			}
		}},
		{Name: "transferred strings", Bound: fmt.Sprintf("all strings of up to %d characters over %d class representatives, put into memory in 4 ways", n, k), N: mc.SeqCount(k, n), Run: func(w *mc.W, i int64) {
			var sb strings.Builder
			for _, c := range mc.Seq(i, k, n, nil) {
				sb.WriteRune(runeClasses[c])
			}
			all(w, sb.String())
		}},
	}
}
