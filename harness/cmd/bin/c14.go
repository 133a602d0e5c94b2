package main

import (
	"fmt"
	"strings"

	"verif/harness/mc"
)

const letters = "ilfd"

// valLists are all lists of up to n value types.
func valLists(n int) []string {
	var out []string
	for i := int64(0); i < mc.SeqCount(4, n); i++ {
		s := ""
		for _, x := range mc.Seq(i, 4, n, nil) {
			s += letters[x : x+1]
		}
		out = append(out, s)
	}
	return out
}

func ftypes(p, r int) []ftype {
	var out []ftype
	for _, a := range valLists(p) {
		for _, b := range valLists(r) {
			out = append(out, ftype{a, b})
		}
	}
	return out
}

var insns = []ins{{opAdd, 0}, {opGet, 0}, {opGet, 1}, {opGet, 0x0b}, {opGet, 127}, {opGet, 128}, {opGet, 16384}, {opGet, 1<<32 - 1}}

var groups = func() (out []group) {
	for _, n := range []uint32{0, 1, 2, 3, 127, 128, 300} {
		for k := range letters {
			out = append(out, group{n, letters[k]})
		}
	}
	return
}()

var names = []string{"", "a", "add", "é", "\x00", "日本", strings.Repeat("n", 127), strings.Repeat("m", 128), strings.Repeat("k", 5000)}

// expect encodes m and requires that decoding returns exactly m.
func expect(w *mc.W, m *mod, in []byte) {
	w.Desc(func() string { return fmt.Sprintf("% x", in) })
	w.StateBytes(in)
	r := decode(w, in)
	if r.panic != nil || r.err != nil {
		w.Fail("rejected", "%s", r)
	} else if d := differ(m, r.doc); d != "" {
		w.Fail("misread", "%s", d)
	}
	w.Trace(fmt.Sprintf("module with %d types, %d functions, %d exports", min(len(m.types), 3), min(len(m.funcs), 3), min(len(m.exports), 3)))
}

// both encodes m with and without empty sections.
func both(w *mc.W, m *mod) {
	expect(w, m, (&enc{}).module(m, false))
	if len(m.types) == 0 || len(m.funcs) == 0 || len(m.exports) == 0 {
		expect(w, m, (&enc{}).module(m, true))
	}
}

// small modules whose spellings are enumerated.
func smallModules() []*mod {
	return []*mod{
		{},
		{types: []ftype{{"", ""}}},
		{types: []ftype{{"i", "l"}}, funcs: []fn{{typ: 0}}},
		{types: []ftype{{"ii", "i"}}, funcs: []fn{{0, nil, []ins{{opGet, 0}, {opGet, 1}, {opAdd, 0}}}}, exports: []export{{"add", 0}}},
		{funcs: []fn{{0, []group{{2, 'i'}}, nil}}},
		{funcs: []fn{{0, []group{{0, 'd'}, {1, 'f'}}, []ins{{opGet, 1}}}}},
		{exports: []export{{"", 0}, {"b", 1}}},
		{funcs: []fn{{typ: 0}, {typ: 1}}},
		{funcs: []fn{{200, nil, nil}}, exports: []export{{"x", 300}}},
	}
}

func customs() [][]byte {
	return [][]byte{
		nil,
		{0, 1, 0},                   // empty name, no content
		{0, 3, 1, 'x', 0x0a},        // content that looks like a section id
		{0, 6, 0, 1, 4, 1, 0x60, 0}, // content that looks like a type section
		append([]byte{0, 0x86, 0x01, 4, 'n', 'a', 'm', 'e'}, make([]byte, 129)...),
		{0, 0x81, 0x80, 0x00, 0, 0, 1, 0}, // padded size, then a second one
	}
}

// unsupported sections with well-formed content, by gap.
func unsupported() [][][]byte {
	return [][][]byte{
		{nil},
		{nil, {2, 1, 0}, {2, 7, 1, 1, 'a', 1, 'b', 0, 0}},
		{nil, {4, 4, 1, 0x70, 0, 1}, {5, 3, 1, 0, 1}, {6, 6, 1, 0x7f, 0, 0x41, 0, 0x0b}, {4, 1, 0, 5, 1, 0, 6, 1, 0}},
		{nil, {8, 1, 0}, {9, 1, 0}, {12, 1, 0}, {9, 1, 0, 12, 1, 1}},
		{nil, {11, 1, 0}, {11, 4, 1, 1, 1, 0x20}},
	}
}

func c14(tier string) []mc.Family {
	thorough := tier == "thorough"
	var fs []mc.Family

	one := ftypes(3, 3)
	fs = append(fs, mc.Family{Name: "type", Bound: "one function type with up to 3 parameters and 3 results over all value types", N: int64(len(one)),
		Run: func(w *mc.W, i int64) { both(w, &mod{types: []ftype{one[i]}}) }})
	two := ftypes(2, 1)
	if thorough {
		two = ftypes(2, 2)
	}
	k := int64(len(two))
	fs = append(fs, mc.Family{Name: "types", Bound: fmt.Sprintf("every pair out of %d function types", k), N: k * k,
		Run: func(w *mc.W, i int64) { both(w, &mod{types: []ftype{two[i%k], two[i/k]}}) }})

	nl, nb := 2, 2
	if thorough {
		nb = 3
	}
	cl, cb := mc.SeqCount(len(groups), nl), mc.SeqCount(len(insns), nb)
	fs = append(fs, mc.Family{Name: "bodies", Bound: fmt.Sprintf("one function with up to %d groups of locals (%d kinds) and up to %d instructions (%d kinds)", nl, len(groups), nb, len(insns)), N: cl * cb,
		Run: func(w *mc.W, i int64) {
			f := fn{}
			for _, x := range mc.Seq(i%cl, len(groups), nl, nil) {
				f.groups = append(f.groups, groups[x])
			}
			for _, x := range mc.Seq(i/cl, len(insns), nb, nil) {
				f.body = append(f.body, insns[x])
			}
			both(w, &mod{funcs: []fn{f}})
		}})
	long := 6
	if thorough {
		long = 7
	}
	fs = append(fs, mc.Family{Name: "code", Bound: fmt.Sprintf("one function with up to %d instructions (%d kinds)", long, len(insns)), N: mc.SeqCount(len(insns), long),
		Run: func(w *mc.W, i int64) {
			f := fn{}
			for _, x := range mc.Seq(i, len(insns), long, nil) {
				f.body = append(f.body, insns[x])
			}
			both(w, &mod{types: []ftype{{"ii", "i"}}, funcs: []fn{f}})
		}})
	// several functions, which must keep their own parts
	kinds := []fn{
		{0, nil, nil}, {1, nil, []ins{{opAdd, 0}}}, {0, []group{{1, 'i'}}, nil}, {127, []group{{2, 'l'}, {1, 'd'}}, []ins{{opGet, 2}}},
		{128, nil, []ins{{opGet, 200}, {opGet, 0}}}, {1<<32 - 1, []group{{0, 'f'}}, []ins{{opGet, 0}, {opGet, 1}, {opAdd, 0}}},
		{16384, []group{{300, 'f'}}, []ins{{opAdd, 0}, {opAdd, 0}, {opAdd, 0}}},
	}
	nf := 4
	if thorough {
		nf = 6
	}
	fs = append(fs, mc.Family{Name: "functions", Bound: fmt.Sprintf("up to %d functions out of %d kinds", nf, len(kinds)), N: mc.SeqCount(len(kinds), nf),
		Run: func(w *mc.W, i int64) {
			m := &mod{types: []ftype{{"", ""}, {"i", ""}}}
			for _, x := range mc.Seq(i, len(kinds), nf, nil) {
				m.funcs = append(m.funcs, kinds[x])
			}
			both(w, m)
		}})
	idx := []uint32{0, 1, 2, 127, 128, 1<<32 - 1}
	ne := 3
	ke := len(names) * len(idx)
	fs = append(fs, mc.Family{Name: "exports", Bound: fmt.Sprintf("up to %d exports out of %d names × %d indices", ne, len(names), len(idx)), N: mc.SeqCount(ke, ne),
		Run: func(w *mc.W, i int64) {
			m := &mod{}
			for _, x := range mc.Seq(i, ke, ne, nil) {
				m.exports = append(m.exports, export{names[x%len(names)], idx[x/len(names)]})
			}
			both(w, m)
		}})
	// long vectors
	counts := []int{126, 127, 128, 129, 255, 256, 1000, 16383, 16384}
	fs = append(fs, mc.Family{Name: "long", Bound: fmt.Sprintf("modules with %v types, parameters, functions, exports, groups of locals, locals or instructions", counts), N: int64(len(counts)) * 7,
		Run: func(w *mc.W, i int64) {
			n := counts[i/7]
			m := &mod{}
			switch i % 7 {
			case 0:
				for k := 0; k < n; k++ {
					m.types = append(m.types, two[k%len(two)])
				}
			case 1:
				m.types = []ftype{{strings.Repeat("ilfd", n/4+1)[:n], strings.Repeat("dfl", n/3+1)[:n]}, {"i", "l"}}
			case 2:
				for k := 0; k < n; k++ {
					m.funcs = append(m.funcs, fn{uint32(k), kinds[k%len(kinds)].groups, kinds[k%len(kinds)].body})
				}
			case 3:
				for k := 0; k < n; k++ {
					m.exports = append(m.exports, export{fmt.Sprint("e", k), uint32(k)})
				}
			case 4:
				f := fn{}
				for k := 0; k < n; k++ {
					f.groups = append(f.groups, group{uint32(k % 3), letters[k%4]})
				}
				m.funcs = []fn{f, {1, nil, []ins{{opAdd, 0}}}}
			case 5:
				m.funcs = []fn{{0, []group{{uint32(n), 'l'}, {1, 'i'}}, []ins{{opGet, uint32(n)}}}}
			case 6:
				f := fn{}
				for k := 0; k < n; k++ {
					f.body = append(f.body, insns[k%len(insns)])
				}
				m.funcs = []fn{f, {1, nil, []ins{{opAdd, 0}}}}
			}
			both(w, m)
		}})
	// spellings
	pads := []int{0, 1, 4}
	for si, m := range smallModules() {
		e := &enc{}
		e.module(m, false)
		n := e.ints
		p := pads
		if mc.Pow(len(p), n) > 600000 {
			p = []int{0, 4}
			if thorough {
				p = []int{0, 1, 4}
			}
		}
		if mc.Pow(len(p), n) > 50_000_000 {
			p = []int{0, 2}
		}
		fs = append(fs, mc.Family{Name: fmt.Sprintf("spelling%d", si), Bound: fmt.Sprintf("small module %d: each of its %d integers padded by %v bytes", si, n, p), N: mc.Pow(len(p), n),
			Run: func(w *mc.W, i int64) {
				e := &enc{pad: func(k int) int { return p[int(i/mc.Pow(len(p), k))%len(p)] }}
				expect(w, m, e.module(m, false))
			}})
	}
	// sections in between
	cs, us := customs(), unsupported()
	if !thorough {
		cs = cs[:4]
	}
	radix := []int{len(smallModules())}
	N := int64(len(smallModules()))
	for g := range us {
		radix = append(radix, len(cs), len(us[g]))
		N *= int64(len(cs) * len(us[g]))
	}
	fs = append(fs, mc.Family{Name: "sections", Bound: fmt.Sprintf("small modules with %d custom sections and unsupported sections in every gap", len(cs)), N: N,
		Run: func(w *mc.W, i int64) {
			d := mc.Mixed(i, radix...)
			m := smallModules()[d[0]]
			e := &enc{gap: func(g int) []byte {
				c, u := cs[d[1+2*g]], us[g][d[2+2*g]]
				if g&1 == 0 {
					return append(c[:len(c):len(c)], u...)
				}
				return append(u[:len(u):len(u)], c...)
			}}
			expect(w, m, e.module(m, false))
		}})
	return fs
}
