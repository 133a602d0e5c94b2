package main

import (
	"fmt"
	"strings"

	"verif/harness/mc"
)

// strings over an alphabet of symbols, up to n of them, between pre and post.
func lexFamily(name string, alpha []string, n int, wrap ...[2]string) mc.Family {
	if len(wrap) == 0 {
		wrap = [][2]string{{"", ""}}
	}
	return mc.Family{Name: name, Bound: fmt.Sprintf("every sequence of up to %d out of %q, inside %q", n, alpha, wrap), N: mc.SeqCount(len(alpha), n),
		Run: func(w *mc.W, i int64) {
			var buf [16]int
			var s []byte
			for _, x := range mc.Seq(i, len(alpha), n, buf[:0]) {
				s = append(s, alpha[x]...)
			}
			for _, p := range wrap {
				w.Distinct()
				lexCase(w, p[0]+string(s)+p[1])
			}
		}}
}

func split(s string) []string {
	var out []string
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

func c17(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var fs []mc.Family
	fs = append(fs, lexFamily("structure", split("();\"\\$a1 \n"), pick(6, 7)))
	fs = append(fs, lexFamily("comments", append(split("();a\n\""), "é"), pick(6, 8)))
	fs = append(fs, lexFamily("comment", append(split("();a\n\""), "é"), pick(5, 7), [2]string{"(;", ";)"}, [2]string{"(;(;", ";)"}, [2]string{";;", "\na"}))
	fs = append(fs, lexFamily("strings", append(split("\"\\nu{}d8_0x' "), "é"), pick(5, 6), [2]string{"\"", "\""}, [2]string{"\"\\u{", "}\" "}))
	fs = append(fs, lexFamily("numbers", split("019afx._+-epP:"), pick(5, 7)))
	fs = append(fs, lexFamily("hex", split("09afF._+-pPxe"), pick(5, 6), [2]string{"0x", ""}, [2]string{"-0x1", ""}))
	fs = append(fs, lexFamily("decimal", split("09._+-eEpx"), pick(6, 7), [2]string{"1", ""}, [2]string{"+0", " "}))
	fs = append(fs, lexFamily("nan", append(split("na:0x1f_+-"), "inf", "nan", "canonical", "arithmetic"), pick(5, 6)))
	fs = append(fs, lexFamily("words", []string{"module", "component", "$", "m", "func", "i32.const", "-", "(", ")", " ", "\n", "\t", "\r\n", ";;", "\"s\"", "(;", ";)", "12", "0x1p3", ","}, pick(4, 5)))
	// every byte and pair of bytes in every lexical context
	ctx := [][2]string{{"", ""}, {"a", "a"}, {" ", " "}, {"\"", "\""}, {"(;", ";)"}, {";;", "\n"}, {"$", ""}, {"1", "2"}, {"\"\\", "\""}, {"(", ")"}, {"\n\n ", "\n"}}
	fs = append(fs, mc.Family{Name: "bytes", Bound: fmt.Sprintf("every byte and every pair of bytes, inside %q", ctx), N: 256 + 65536,
		Run: func(w *mc.W, i int64) {
			s := string([]byte{byte(i)})
			if i >= 256 {
				i -= 256
				s = string([]byte{byte(i), byte(i >> 8)})
			}
			for _, p := range ctx {
				w.Distinct()
				lexCase(w, p[0]+s+p[1])
			}
		}})
	// every code point inside strings, comments and between tokens
	fs = append(fs, mc.Family{Name: "runes", Bound: "every code point inside a string, a line comment, a block comment and between tokens", N: 0x110000,
		Run: func(w *mc.W, i int64) {
			s := string(rune(i))
			for _, p := range [][2]string{{"\"", "\" a"}, {";;", "\na"}, {"(;", ";)a"}, {"a ", " b"}} {
				w.Distinct()
				lexCase(w, p[0]+s+p[1])
			}
		}})
	// long tokens
	r := strings.Repeat
	longs := []func(n int) string{
		func(n int) string { return r("a", n) },
		func(n int) string { return "$" + r("b.1", n) + ")" },
		func(n int) string { return r("7", n) + " " },
		func(n int) string { return "0x" + r("f", n) + "\n" },
		func(n int) string { return "1" + r("_0", n) + "." + r("5", n) + "e+" + r("1", n) },
		func(n int) string { return "-0x" + r("a", n) + "." + r("b", n) + "p-" + r("9", n) + " " },
		func(n int) string { return "\"" + r("s", n) + "\" a" },
		func(n int) string { return "\"" + r("\\n", n) + "\"(" },
		func(n int) string { return "\"" + r("é", n) + "\\u{" + r("0", n) + "1f}\" 1" },
		func(n int) string { return ";;" + r("é", n) + "\nx" },
		func(n int) string { return r("(;", n) + r(";)", n) + "x" },
		func(n int) string { return "(;" + r("\n;(", n) + ";)x" },
		func(n int) string { return r(" \n", n) + "a" },
		func(n int) string { return r("(", n) + r(")", n) + "a" },
		func(n int) string { return r("a ", n) + "\"" },
		func(n int) string { return r("(;;)", n) + "(;" },
		func(n int) string { return "nan:0x" + r("1", n) + "," },
	}
	k := int64(len(longs))
	sizes := []int{1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 300000}
	fs = append(fs, mc.Family{Name: "long", Bound: fmt.Sprintf("%d kinds of tokens and runs of tokens of every length up to 300 and of %v", k, sizes), N: (301 + int64(len(sizes))) * k, Heavy: true,
		Run: func(w *mc.W, i int64) {
			n := int(i / k)
			if n > 300 {
				n = sizes[n-301]
			}
			s := longs[i%k](n)
			w.Distinct()
			lexCase(w, s)
		}})
	return fs
}
