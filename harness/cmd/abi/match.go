package main

import "fmt"

// matcher decides whether core values or memory produced by the implementation
// denote a value, without caring where out-of-line data was placed.
type matcher struct {
	g *guest
	h *heap // nil: placement is not checked
}

func byteLen(e Enc, tagged uint32) (n, align uint32) {
	switch e {
	case EncUTF8:
		return tagged, 1
	case EncUTF16:
		return tagged * 2, 2
	}
	if tagged>>31 != 0 {
		return (tagged &^ (1 << 31)) * 2, 2
	}
	return tagged, 2
}

func (m *matcher) str(v *V, p, n uint32) string {
	s, ok, un := decodeString(m.g.enc, m.g.mem, p, n)
	if un || !ok {
		return fmt.Sprintf("pointer %d length 0x%x is not a valid %s string", p, n, encNames[m.g.enc])
	}
	if s != v.S {
		return fmt.Sprintf("string %q became %q", v.S, s)
	}
	bl, al := byteLen(m.g.enc, n)
	if m.h != nil && !m.h.covers(p, bl, al) {
		return fmt.Sprintf("string at %d+%d is not in an allocated block", p, bl)
	}
	return ""
}

func (m *matcher) list(e *T, v *V, p, n uint32) string {
	if int(n) != len(v.L) {
		return fmt.Sprintf("list length %d instead of %d", n, len(v.L))
	}
	bl := uint64(n) * uint64(e.Size())
	if uint64(p)%uint64(e.Align()) != 0 || uint64(p)+bl > uint64(len(m.g.mem)) {
		return fmt.Sprintf("list at %d (%d bytes) misplaced", p, bl)
	}
	if m.h != nil && !m.h.covers(p, uint32(bl), e.Align()) {
		return fmt.Sprintf("list at %d+%d is not in an allocated block", p, bl)
	}
	for i, x := range v.L {
		if d := m.image(e, x, p+uint32(i)*e.Size()); d != "" {
			return fmt.Sprintf("[%d]: %s", i, d)
		}
	}
	return ""
}

func (m *matcher) flat(t *T, v *V, ws []Word) string {
	want := t.Flat()
	if len(ws) != len(want) {
		return fmt.Sprintf("%d core values instead of %d", len(ws), len(want))
	}
	for i := range ws {
		if ws[i].C != want[i] {
			return fmt.Sprintf("core value %d has kind %d instead of %d", i, ws[i].C, want[i])
		}
	}
	switch t.K {
	case Str:
		return m.str(v, uint32(ws[0].B), uint32(ws[1].B))
	case List:
		return m.list(t.Sub[0], v, uint32(ws[0].B), uint32(ws[1].B))
	case Flags:
		exp := make([]uint64, len(want))
		for i, f := range v.L {
			exp[i/32] |= f.B << (i % 32)
		}
		for i := range exp {
			if ws[i].B != exp[i] {
				return fmt.Sprintf("flag word %d is 0x%x instead of 0x%x", i, ws[i].B, exp[i])
			}
		}
		return ""
	}
	if t.isRecord() {
		at := 0
		for i, f := range t.Sub {
			n := len(f.Flat())
			if d := m.flat(f, v.L[i], ws[at:at+n]); d != "" {
				return fmt.Sprintf("field %d: %s", i, d)
			}
			at += n
		}
		return ""
	}
	if t.isVariant() {
		if ws[0].B != v.B {
			return fmt.Sprintf("case index %d instead of %d", ws[0].B, v.B)
		}
		at := 1
		if c := t.cases()[v.B]; c != nil {
			var own []Word
			for i, k := range c.Flat() {
				b := ws[1+i].B
				if (k == CI32 || k == CF32) && b>>32 != 0 {
					return fmt.Sprintf("core value %d has stray high bits: 0x%x", 1+i, b)
				}
				own = append(own, Word{k, b})
			}
			if d := m.flat(c, v.L[0], own); d != "" {
				return fmt.Sprintf("payload: %s", d)
			}
			at += len(own)
		}
		for ; at < len(ws); at++ {
			if ws[at].B != 0 {
				return fmt.Sprintf("unused core value %d is 0x%x instead of 0", at, ws[at].B)
			}
		}
		return ""
	}
	cv := canonV(t, v)
	if exp := lowerBits(t, cv.B); ws[0].B != exp {
		return fmt.Sprintf("core bits 0x%x instead of 0x%x", ws[0].B, exp)
	}
	return ""
}

func (m *matcher) image(t *T, v *V, p uint32) string {
	if uint64(p)+uint64(t.Size()) > uint64(len(m.g.mem)) {
		return fmt.Sprintf("value at %d is outside memory", p)
	}
	switch t.K {
	case Str:
		return m.str(v, uint32(m.g.raw(p, 4)), uint32(m.g.raw(p+4, 4)))
	case List:
		return m.list(t.Sub[0], v, uint32(m.g.raw(p, 4)), uint32(m.g.raw(p+4, 4)))
	case Flags:
		exp := make([]byte, t.Size())
		for i, f := range v.L {
			exp[i/8] |= byte(f.B) << (i % 8)
		}
		for i, b := range exp {
			if m.g.mem[p+uint32(i)] != b {
				return fmt.Sprintf("flag byte %d is 0x%02x instead of 0x%02x", i, m.g.mem[p+uint32(i)], b)
			}
		}
		return ""
	}
	if t.isRecord() {
		off := uint64(p)
		for i, f := range t.Sub {
			off = alignUp(off, uint64(f.Align()))
			if d := m.image(f, v.L[i], uint32(off)); d != "" {
				return fmt.Sprintf("field %d: %s", i, d)
			}
			off += uint64(f.Size())
		}
		return ""
	}
	if t.isVariant() {
		if got := m.g.raw(p, discSize(t.numCases())); got != v.B {
			return fmt.Sprintf("case index %d instead of %d", got, v.B)
		}
		if c := t.cases()[v.B]; c != nil {
			if d := m.image(c, v.L[0], p+t.payloadOffset()); d != "" {
				return "payload: " + d
			}
		}
		return ""
	}
	cv := canonV(t, v)
	if got := m.g.raw(p, t.Size()); got != cv.B {
		return fmt.Sprintf("bytes 0x%x instead of 0x%x", got, cv.B)
	}
	return ""
}
