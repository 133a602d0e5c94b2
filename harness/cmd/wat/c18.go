package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/patrickhuber/go-types"
	wast "github.com/patrickhuber/go-wasm/wast/ast"
	wastparse "github.com/patrickhuber/go-wasm/wast/parse"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"verif/harness/mc"
)

// want is what a literal denotes in some position.
type want struct {
	ok     bool
	bits   uint64
	anyNaN bool // some NaN, or an error: the two names only scripts' results may use
}

// natural gives the value of an unsigned integer literal.
func natural(s string) *big.Int {
	s = strings.ReplaceAll(s, "_", "")
	base := 10
	if strings.HasPrefix(s, "0x") {
		s, base = s[2:], 16
	}
	v, ok := new(big.Int).SetString(s, base)
	if !ok {
		panic("natural " + s)
	}
	return v
}

func refUint(s string) want {
	if !isNat(s) {
		return want{}
	}
	v := natural(s)
	return want{ok: v.BitLen() <= 32, bits: v.Uint64()}
}

func refInt(s string, bits int) want {
	if !isInt(s) {
		return want{}
	}
	v := natural(unsigned(s))
	if s[0] == '-' {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		if v.Cmp(lim) > 0 {
			return want{}
		}
		return want{ok: true, bits: -v.Uint64() & (1<<bits - 1)}
	}
	return want{ok: v.BitLen() <= bits, bits: v.Uint64()}
}

func refFloat(s string, bits int) want {
	if !isFloat(s) && !isInt(s) {
		return want{}
	}
	sign := uint64(0)
	if s[0] == '-' {
		sign = 1 << (bits - 1)
	}
	mant, inf := uint(23), uint64(0x7f800000)
	if bits == 64 {
		mant, inf = 52, 0x7ff<<52
	}
	s = unsigned(s)
	switch s {
	case "inf":
		return want{ok: true, bits: sign | inf}
	case "nan":
		return want{ok: true, bits: sign | inf | 1<<(mant-1)}
	case "nan:canonical", "nan:arithmetic":
		return want{anyNaN: true}
	}
	if strings.HasPrefix(s, "nan:") {
		v := natural(s[4:])
		return want{ok: v.Sign() > 0 && v.BitLen() <= int(mant), bits: sign | inf | v.Uint64()}
	}
	r, ok := rational(s)
	if !ok {
		return want{}
	}
	if bits == 32 {
		f, _ := r.Float32()
		return want{ok: !math.IsInf(float64(f), 0), bits: sign | uint64(math.Float32bits(f))}
	}
	f, _ := r.Float64()
	return want{ok: !math.IsInf(f, 0), bits: sign | math.Float64bits(f)}
}

// rational gives the value of an unsigned number; ok is false if it is far beyond every float.
func rational(s string) (r *big.Rat, ok bool) {
	s = strings.ReplaceAll(s, "_", "")
	base, exp, perDigit := 10, "eE", 1
	if strings.HasPrefix(s, "0x") {
		s, base, exp, perDigit = s[2:], 16, "pP", 4
	}
	e := big.NewInt(0)
	if i := strings.IndexAny(s, exp); i >= 0 {
		e.SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		e.Sub(e, big.NewInt(int64(perDigit*len(s[i+1:]))))
		s = s[:i] + s[i+1:]
	}
	m, good := new(big.Int).SetString(s, base)
	if !good {
		panic("rational " + s)
	}
	if m.Sign() == 0 {
		return new(big.Rat), true
	}
	size := int64(m.BitLen()) // in bits, or an upper bound in decimal digits
	if e.Cmp(big.NewInt(3000)) > 0 {
		return nil, false
	}
	if e.Cmp(big.NewInt(-3000-size)) < 0 {
		return new(big.Rat), true
	}
	x := e.Int64()
	scale := new(big.Int)
	abs := x
	if x < 0 {
		abs = -x
	}
	if base == 16 {
		scale.Lsh(big.NewInt(1), uint(abs))
	} else {
		scale.Exp(big.NewInt(10), big.NewInt(abs), nil)
	}
	if x >= 0 {
		return new(big.Rat).SetInt(m.Mul(m, scale)), true
	}
	return new(big.Rat).SetFrac(m, scale), true
}

// place is where a literal can stand.
type place struct {
	name string
	pre  string
	post string
	wast bool
	ref  func(string) want
	get  func(m *ast.Module) (uint64, bool)
	res  func(c any) (uint64, bool)
}

func inst(m *ast.Module) ast.Instruction {
	if len(m.Functions) == 1 && len(m.Functions[0].Instructions) == 1 {
		return m.Functions[0].Instructions[0]
	}
	return nil
}

func i32(s string) want { return refInt(s, 32) }
func i64(s string) want { return refInt(s, 64) }
func f32(s string) want { return refFloat(s, 32) }
func f64(s string) want { return refFloat(s, 64) }

func some(o types.Option[uint32]) (uint64, bool) {
	if o == nil {
		return 0, false
	}
	v, ok := o.Deconstruct()
	return uint64(v), ok
}

var places = []place{
	{name: "i32.const", pre: "(module (func (i32.const ", post: ")))", ref: i32, get: func(m *ast.Module) (uint64, bool) {
		c, ok := inst(m).(ast.I32Const)
		return uint64(uint32(c.Value)), ok
	}},
	{name: "f32.const", pre: "(module (func (f32.const ", post: ")))", ref: f32, get: func(m *ast.Module) (uint64, bool) {
		c, ok := inst(m).(ast.F32Const)
		return uint64(math.Float32bits(c.Value)), ok
	}},
	{name: "index", pre: "(module (func (local.get ", post: ")))", ref: refUint, get: func(m *ast.Module) (uint64, bool) {
		g, ok := inst(m).(ast.LocalGet)
		if !ok {
			return 0, false
		}
		switch x := g.Index.(type) {
		case *ast.RawIndex:
			return uint64(x.Index), true
		case ast.RawIndex:
			return uint64(x.Index), true
		}
		return 0, false
	}},
	{name: "i64.const", pre: "(module (func (i64.const ", post: ")))", ref: i64, get: func(m *ast.Module) (uint64, bool) {
		c, ok := inst(m).(ast.I64Const)
		return uint64(c.Value), ok
	}},
	{name: "f64.const", pre: "(module (func (f64.const ", post: ")))", ref: f64, get: func(m *ast.Module) (uint64, bool) {
		c, ok := inst(m).(ast.F64Const)
		return math.Float64bits(c.Value), ok
	}},
	{name: "memory minimum", pre: "(module (memory ", post: "))", ref: refUint, get: func(m *ast.Module) (uint64, bool) {
		if len(m.Memory) != 1 {
			return 0, false
		}
		if _, has := some(m.Memory[0].Limits.Max); has {
			return 0, false
		}
		return uint64(m.Memory[0].Limits.Min), true
	}},
	{name: "memory maximum", pre: "(module (memory 7 ", post: "))", ref: refUint, get: func(m *ast.Module) (uint64, bool) {
		if len(m.Memory) != 1 || m.Memory[0].Limits.Min != 7 {
			return 0, false
		}
		return some(m.Memory[0].Limits.Max)
	}},
	{name: "table minimum", pre: "(module (table ", post: " funcref))", ref: refUint, get: func(m *ast.Module) (uint64, bool) {
		if len(m.Tables) != 1 {
			return 0, false
		}
		return uint64(m.Tables[0].TableType.Limits.Min), true
	}},
	{name: "branch target", pre: "(module (func (br ", post: ")))", ref: refUint, get: func(m *ast.Module) (uint64, bool) {
		b, ok := inst(m).(ast.Br)
		if !ok {
			return 0, false
		}
		if x, ok := b.Index.(*ast.RawIndex); ok {
			return uint64(x.Index), true
		}
		return 0, false
	}},
	{name: "script argument i32", wast: true, pre: `(assert_return (invoke "f" (i32.const `, post: `)))`, ref: i32, res: wastBits},
	{name: "script argument i64", wast: true, pre: `(assert_return (invoke "f" (i64.const `, post: `)))`, ref: i64, res: wastBits},
	{name: "script result f32", wast: true, pre: `(assert_return (invoke "f") (f32.const `, post: `))`, ref: f32, res: wastBits},
	{name: "script result f64", wast: true, pre: `(assert_return (invoke "f") (f64.const `, post: `))`, ref: f64, res: wastBits},
	{name: "script argument f64", wast: true, pre: `(assert_trap (invoke "f" (f64.const `, post: `)) "m")`, ref: f64, res: wastBits},
}

func wastBits(c any) (uint64, bool) {
	switch x := c.(type) {
	case wast.I32Const:
		return uint64(uint32(x.Value)), true
	case wast.I64Const:
		return uint64(x.Value), true
	case wast.F32Const:
		return uint64(math.Float32bits(x.Value)), true
	case wast.F64Const:
		return math.Float64bits(x.Value), true
	}
	return 0, false
}

// only returns the single constant of a script.
func only(s *wast.Wast) any {
	if s == nil || len(s.Directives) != 1 {
		return nil
	}
	switch d := s.Directives[0].(type) {
	case wast.AssertReturn:
		if len(d.Results) == 1 {
			return d.Results[0]
		}
		if i, ok := d.Action.(wast.Invoke); ok && len(i.Const) == 1 {
			return i.Const[0]
		}
	case wast.AssertTrap:
		if i, ok := d.Action.(wast.Invoke); ok && len(i.Const) == 1 {
			return i.Const[0]
		}
	}
	return nil
}

// literal puts the word s, a run of identifier characters, into a place.
func literal(w *mc.W, p *place, s string) {
	w.Distinct()
	w.Step(1)
	w.Desc(func() string { return p.pre + s + p.post })
	exp := p.ref(s)
	var got uint64
	var has bool
	var err error
	if pv := mc.Safe(func() {
		if p.wast {
			var sc *wast.Wast
			if sc, err = wastparse.Parse(p.pre + s + p.post); err == nil {
				got, has = p.res(only(sc))
			}
			return
		}
		var d ast.Directive
		if d, err = parse.Parse(lex.New(p.pre + s + p.post)); err == nil {
			if m, ok := d.(*ast.Module); ok {
				got, has = p.get(m)
			}
		}
	}); pv != nil {
		w.Fail("panic "+p.name, "%v", pv)
		return
	}
	out := "rejected"
	switch {
	case exp.anyNaN:
		out = "named NaN"
		if err == nil && (!has || !isNaN(got, p)) {
			w.Fail("nan "+p.name, "%s denotes a NaN, parsed as %#x (constant found: %v)", s, got, has)
		}
	case !exp.ok && err == nil:
		w.Fail("accepted "+p.name, "%s is not a legal %s, but is accepted as %#x", s, p.name, got)
	case exp.ok && err != nil:
		w.Fail("refused "+p.name, "%s is a legal %s, but: %v", s, p.name, err)
	case exp.ok:
		out = "value"
		if !has || got != exp.bits {
			w.Fail("value "+p.name, "%s denotes %#x, parsed as %#x (constant found: %v)", s, exp.bits, got, has)
		}
	}
	w.Trace(p.name + " " + out)
}

func isNaN(b uint64, p *place) bool {
	if strings.Contains(p.pre, "f32") {
		return b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0
	}
	return math.IsNaN(math.Float64frombits(b))
}

// under inserts an underscore after every nth digit.
func under(s string, n int) string {
	var b strings.Builder
	for i := range s {
		if i > 0 && i%n == 0 && s[i] != '.' && s[i-1] != '.' {
			b.WriteByte('_')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func litFamily(name, bound string, ps []place, n int64, gen func(i int64) []string) mc.Family {
	return mc.Family{Name: name, Bound: bound, N: n, Run: func(w *mc.W, i int64) {
		for _, s := range gen(i) {
			for k := range ps {
				literal(w, &ps[k], s)
			}
		}
	}}
}

func words(name string, alpha string, n int, ps []place, wrap ...string) mc.Family {
	if len(wrap) == 0 {
		wrap = []string{""}
	}
	return litFamily(name, fmt.Sprintf("every string of up to %d out of %q after %q, in %d places", n, alpha, wrap, len(ps)), ps, mc.SeqCount(len(alpha), n),
		func(i int64) []string {
			var buf [16]int
			var s []byte
			for _, x := range mc.Seq(i, len(alpha), n, buf[:0]) {
				s = append(s, alpha[x])
			}
			var out []string
			for _, p := range wrap {
				if p+string(s) != "" {
					out = append(out, p+string(s))
				}
			}
			return out
		})
}

func filter(names ...string) []place {
	var out []place
	for _, n := range names {
		found := false
		for _, p := range places {
			if p.name == n {
				out = append(out, p)
				found = true
			}
		}
		if !found {
			panic(n)
		}
	}
	return out
}

// spellings of a non-negative integer.
func spellings(v *big.Int) []string {
	d, h := v.Text(10), v.Text(16)
	return []string{d, "0" + d, "000000000000000000000000" + d, under(d, 1), under(d, 3), "0_" + d,
		"0x" + h, "0x" + strings.ToUpper(h), "0x00" + h, "0x" + under(h, 1), "0x" + under(h, 4), "0x0000_0000_0000_0000_0000" + h}
}

func signs(ss []string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, s, "+"+s, "-"+s)
	}
	return out
}

// decimal writes m·2^e exactly; frac appends digits below its last one.
func decimal(m *big.Int, e int, frac string) string {
	if e >= 0 {
		return new(big.Int).Lsh(m, uint(e)).String() + "." + frac
	}
	// m·2^e = m·5^-e / 10^-e
	n := new(big.Int).Mul(m, new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(-e)), nil))
	s := n.String()
	if len(s) <= -e {
		s = strings.Repeat("0", -e-len(s)+1) + s
	}
	return s[:len(s)+e] + "." + s[len(s)+e:] + frac
}

// around spells the float with the given bits, its neighbours' midpoints and numbers right beside them.
func around(mantBits, bias uint, exp, mant uint64) []string {
	m, e := mant, int(exp)-int(bias)-int(mantBits)
	if exp == 0 {
		e++
	} else {
		m |= 1 << mantBits
	}
	var out []string
	for q := uint64(0); q < 4; q++ { // in quarters of the last place
		v := new(big.Int).SetUint64(m*4 + q)
		x := e - 2
		hex := "0x" + v.Text(16)
		out = append(out,
			fmt.Sprintf("%sp%d", hex, x),
			fmt.Sprintf("%s.0000000000000000000000001p%d", hex, x),
			fmt.Sprintf("%s.P%+d", strings.ToUpper(hex[2:]), x), // without prefix: no number
			fmt.Sprintf("0x%s.%sp%d", hex[2:3], hex[3:]+"0", x+4*(len(hex)-3)),
			decimal(v, x, ""), decimal(v, x, "1"), under(decimal(v, x, "0"), 5))
		if d := decimal(v, x, ""); v.Sign() > 0 {
			out = append(out, below(d))
			digits := strings.TrimLeft(strings.Replace(d, ".", "", 1), "0")
			out = append(out, fmt.Sprintf("%se-%d", digits, len(d)-1-strings.IndexByte(d, '.')))
			out = append(out, fmt.Sprintf("%s.%sE%+d", digits[:1], digits[1:], len(digits)-1-(len(d)-1-strings.IndexByte(d, '.'))))
		}
	}
	return out
}

// below is a number just below the decimal number d.
func below(d string) string {
	b := []byte(strings.Replace(d, ".", "", 1))
	for i := len(b) - 1; ; i-- {
		if b[i] > '0' {
			b[i]--
			break
		}
		b[i] = '9'
	}
	p := strings.IndexByte(d, '.')
	return string(b[:p]) + "." + string(b[p:]) + "9"
}

func edges(bits uint) []uint64 {
	one := uint64(1)
	return []uint64{0, 1, 2, one << (bits / 2), one<<(bits-1) - 1, one << (bits - 1), one<<(bits-1) + 1, one<<bits - 2, one<<bits - 1}
}

func c18(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	main := places[:3]
	floats := filter("f32.const", "f64.const", "script result f32", "script result f64")
	var fs []mc.Family
	fs = append(fs, words("strings", "019a_+-.xepn", pick(5, 6), main))
	fs = append(fs, words("short strings", "0179afAF_+-.xXeEpP:", pick(3, 4), places))
	fs = append(fs, words("decimal", "0129_.e+-", pick(5, 6), filter("f32.const", "f64.const", "i64.const", "index"), "9", "-0", "16777217"))
	fs = append(fs, words("hexadecimal", "018fF_.p+-", pick(5, 6), filter("f32.const", "f64.const", "i32.const", "index"), "0x", "-0x", "0xffffff8"))
	fs = append(fs, words("nan", "nan:0x1_f8", pick(5, 6), floats, "", "nan:0x", "-nan", "+nan:"))
	fs = append(fs, litFamily("integers", "0…66 and ±1 beside every power of two up to 2^66, in 12 spellings and 3 signs, in every place", places, 67*3+67,
		func(i int64) []string {
			v := big.NewInt(i)
			if i >= 67 {
				i -= 67
				v = new(big.Int).Lsh(big.NewInt(1), uint(i/3))
				v.Add(v, big.NewInt(i%3-1))
			}
			return signs(spellings(v))
		}))
	fs = append(fs, litFamily("i64 edges", "every ±4 beside the limits of 32- and 64-bit integers, in 12 spellings and 3 signs, in every place", places, 9*4,
		func(i int64) []string {
			v := new(big.Int).Lsh(big.NewInt(1), []uint{31, 32, 63, 64}[i/9])
			v.Add(v, big.NewInt(i%9-4))
			return signs(spellings(v))
		}))
	fs = append(fs, litFamily("f32 rounding", "for all 255 exponents and 9 mantissas, the float, the midpoint to the next and the quarters, exact and right beside, in 10 spellings", floats, 255*9,
		func(i int64) []string {
			return around(23, 127, uint64(i/9), edges(23)[i%9])
		}))
	exps := []uint64{0, 1, 2, 3, 52, 53, 500, 1000, 1022, 1023, 1024, 1075, 1076, 1077, 1500, 2000, 2045, 2046}
	if thorough {
		exps = nil
		for e := uint64(0); e < 2047; e++ {
			exps = append(exps, e)
		}
	}
	fs = append(fs, litFamily("f64 rounding", fmt.Sprintf("for %d of 2047 exponents and 9 mantissas, the float, the midpoint to the next and the quarters, exact and right beside, in 10 spellings", len(exps)), filter("f32.const", "f64.const", "script result f64"), int64(len(exps))*9,
		func(i int64) []string {
			return around(52, 1023, exps[i/9], edges(52)[i%9])
		}))
	fs = append(fs, litFamily("decimal exponents", "23 mantissas with every exponent −420…420, and exponents of up to 20 digits", floats, 841+8,
		func(i int64) []string {
			x := fmt.Sprint(i - 420)
			if i >= 841 {
				x = []string{"1000", "-1000", "99999", "-99999", "2147483648", "-2147483649", "99999999999999999999", "-99999999999999999999"}[i-841]
			}
			var out []string
			for _, m := range []string{"0", "0.0", "1", "1.", "1.0", "9", "9.999999999999999999999", "0.5", "0.000001", "00001", "123456789", "3.4028235", "3.40282357", "1.7976931348623157", "1.7976931348623159", "4.9", "2.4703282292062328", "1_0.0_1", "1.4", "1.401298464324817", "7.006492321624085", "7.1", "-1"} {
				out = append(out, m+"e"+x)
				if x[0] != '-' {
					out = append(out, m+"E+"+x)
				}
			}
			return out
		}))
	fs = append(fs, litFamily("binary exponents", "17 mantissas with every exponent −1160…1100, and exponents of up to 20 digits", floats, 2261+8,
		func(i int64) []string {
			x := fmt.Sprint(i - 1160)
			if i >= 2261 {
				x = []string{"10000", "-10000", "99999", "-99999", "2147483648", "-2147483649", "99999999999999999999", "-99999999999999999999"}[i-2261]
			}
			var out []string
			for _, m := range []string{"0x0", "0x0.0", "0x1", "0x1.", "0x1.8", "0x1.fffffe", "0x1.ffffff", "0x1.fffffefffffff", "0x1.fffffffffffff", "0x1.fffffffffffff8", "0x1.fffffffffffff7ffff", "0x0.8", "0x0.00001", "0xffffffffff", "0x1.000001", "0x1.00000100000000001", "-0x1_0.0_1"} {
				out = append(out, m+"p"+x)
				if x[0] != '-' {
					out = append(out, m+"P+"+x)
				}
			}
			return out
		}))
	fs = append(fs, litFamily("nan payloads", "payloads 0…64 and ±1 beside every power of two up to 2^64, in 6 spellings and 3 signs", floats, 65*3+65,
		func(i int64) []string {
			v := big.NewInt(i)
			if i >= 65 {
				i -= 65
				v = new(big.Int).Lsh(big.NewInt(1), uint(i/3))
				v.Add(v, big.NewInt(i%3-1))
			}
			var out []string
			for _, s := range spellings(v) {
				out = append(out, "nan:"+s) // decimal payloads are no numbers
			}
			return signs(out)
		}))
	return fs
}
