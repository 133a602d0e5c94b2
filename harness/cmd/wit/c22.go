package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/mc"
)

// strings over an alphabet of symbols, up to n of them, between pre and post.
func lexFamily(name string, alpha []string, n int, wrap ...[2]string) mc.Family {
	if len(wrap) == 0 {
		wrap = [][2]string{{"", ""}}
	}
	return mc.Family{Name: name, Bound: fmt.Sprintf("every sequence of up to %d out of %q, inside %q", n, alpha, wrap), N: mc.SeqCount(len(alpha), n),
		Run: func(w *mc.W, i int64) {
			var buf [16]int
			var s []byte
			for _, x := range mc.Seq(i, len(alpha), n, buf[:0]) {
				s = append(s, alpha[x]...)
			}
			for _, p := range wrap {
				w.Distinct()
				lexCase(w, p[0]+string(s)+p[1])
			}
		}}
}

func split(s string) []string {
	var out []string
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

func keywordList() []string {
	var out []string
	for k := range keywords {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func c22(tier string) []mc.Family {
	pick := func(q, t int) int {
		if tier == "thorough" {
			return t
		}
		return q
	}
	var fs []mc.Family
	fs = append(fs, lexFamily("structure", split("/*->a1%_ \n."), pick(6, 7)))
	fs = append(fs, lexFamily("comments", append(split("/*a\n%"), "é"), pick(7, 9)))
	fs = append(fs, lexFamily("comment", append(split("/*a\n%"), "é", "\xff"), pick(6, 7), [2]string{"/*", "*/"}, [2]string{"/*/*", "*/"}, [2]string{"//", "\na"}))
	fs = append(fs, lexFamily("names", split("aZ1-_%> "), pick(6, 8), [2]string{"", ""}, [2]string{"a", ";"}))
	fs = append(fs, lexFamily("numbers", split("019.-+@a "), pick(6, 7)))
	fs = append(fs, lexFamily("punctuation", split("=,:.;(){}<>*@-+/%"), pick(5, 6)))
	fs = append(fs, lexFamily("words", append(keywordList(), " ", "-", "a", "%", "x-y", "{", "\n", "//", "/*"), pick(3, 4)))
	fs = append(fs, mc.Family{Name: "keywords", Bound: "every one-character deletion, insertion of one of 40 characters, replacement and change of case of every keyword, followed by each of 8 characters", N: int64(len(keywords)),
		Run: func(w *mc.W, i int64) {
			k := keywordList()[i]
			miss := []string{k, "%" + k, k + k, k + "-" + k}
			for j := 0; j <= len(k); j++ {
				for _, c := range "abcdefghijklmnopqrstuvwxyz0123456789-_AZ" {
					miss = append(miss, k[:j]+string(c)+k[j:])
					if j < len(k) {
						miss = append(miss, k[:j]+string(c)+k[j+1:])
					}
				}
				if j < len(k) {
					miss = append(miss, k[:j]+k[j+1:], k[:j]+strings.ToUpper(k[j:j+1])+k[j+1:])
				}
			}
			miss = append(miss, strings.ToUpper(k))
			for _, m := range miss {
				for _, after := range []string{"", " ", "\n", ";", "<", "é", "->", "/*c*/"} {
					w.State(m + after)
					lexCase(w, m+after)
				}
			}
		}})
	ctx := [][2]string{{"", ""}, {"a", "a"}, {" ", " "}, {"/*", "*/"}, {"//", "\n"}, {"%", ""}, {"%a", "b"}, {"1", "2"}, {"-", ">"}, {"{", "}"}, {"\n\n ", "\n"}, {"/", "/"}}
	fs = append(fs, mc.Family{Name: "bytes", Bound: fmt.Sprintf("every byte and every pair of bytes, inside %q", ctx), N: 256 + 65536,
		Run: func(w *mc.W, i int64) {
			s := string([]byte{byte(i)})
			if i >= 256 {
				i -= 256
				s = string([]byte{byte(i), byte(i >> 8)})
			}
			for _, p := range ctx {
				w.Distinct()
				lexCase(w, p[0]+s+p[1])
			}
		}})
	fs = append(fs, mc.Family{Name: "runes", Bound: "every code point inside a line comment, a block comment, a name and between tokens", N: 0x110000,
		Run: func(w *mc.W, i int64) {
			s := string(rune(i))
			for _, p := range [][2]string{{"//", "\na"}, {"/*", "*/a"}, {"a", "b"}, {"a ", " b"}, {"{", "}"}, {"%", "a"}} {
				w.Distinct()
				lexCase(w, p[0]+s+p[1])
			}
		}})
	fs = append(fs, mc.Family{Name: "long", Bound: "tokens and runs of tokens of every length up to 300 and of 4,096, 65,536 and 1,000,000", N: 304 * 8,
		Run: func(w *mc.W, i int64) {
			n := int(i / 8)
			if n > 300 {
				n = []int{4096, 65536, 1000000}[n-301]
			}
			r := strings.Repeat
			s := []string{r("a", n), "a" + r("-b1", n) + ";", r("7", n) + " ", r("/*", n) + r("*/", n) + "x", "//" + r("é", n) + "\n", r(" \n", n) + "a", r("->", n), r("%a,", n)}[i%8]
			w.State(s)
			lexCase(w, s)
		}})
	return fs
}
