// Command inst explores sequences of module instantiations (property C26).
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/patrickhuber/go-wasm/address"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/instance"
	"github.com/patrickhuber/go-wasm/runtime"
	"verif/harness/mc"
)

func main() {
	mc.Main([]mc.Property{{ID: "C26", Families: c26}})
}

// mod describes a module: its number of functions and its exports in order.
type mod struct {
	funcs   int
	exports []exp
}

type exp struct {
	name string
	idx  int // beyond funcs: no such function; -1: not a function
}

func (m mod) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d functions", m.funcs)
	for _, e := range m.exports {
		fmt.Fprintf(&b, " %q=%d", e.name, e.idx)
	}
	return b.String()
}

// expectation about a name: an index, absent, or nothing.
const (
	absent = -1
	open   = -2
)

func (m mod) lookup(name string) int {
	found := absent
	for _, e := range m.exports {
		if e.name == name {
			if found != absent || e.idx < 0 || e.idx >= m.funcs {
				return open
			}
			found = e.idx
		}
	}
	return found
}

func (m mod) valid() bool {
	for i, e := range m.exports {
		if e.idx < 0 || e.idx >= m.funcs {
			return false
		}
		for _, f := range m.exports[:i] {
			if f.name == e.name {
				return false
			}
		}
	}
	return true
}

// build makes the module; id distinguishes its functions from those of other modules.
func (m mod) build(id int) *api.Module {
	out := &api.Module{}
	for i := 0; i < m.funcs; i++ {
		out.Types = append(out.Types, &api.FuncType{})
		out.Funcs = append(out.Funcs, &api.Func{Type: api.TypeIndex(i), Body: &api.Expression{Instructions: []api.Instruction{api.I32Const(id<<12 | i), &api.Drop{}}}})
	}
	for _, e := range m.exports {
		x := api.Export{Name: e.name}
		if e.idx >= 0 {
			x.Description = &api.FuncExportDescription{FuncIdx: api.FuncIndex(e.idx)}
		}
		out.Exports = append(out.Exports, x)
	}
	return out
}

// code is the function of a module a store entry stands for.
func code(f instance.Function) *api.Func {
	switch f := f.(type) {
	case *api.Func:
		return f
	case api.Func:
		return &f
	case *instance.ModuleFunction:
		if f != nil {
			return f.Code
		}
	case instance.ModuleFunction:
		return f.Code
	}
	return nil
}

func same(a, b *api.Func) bool {
	return a == b || a != nil && b != nil && a.Type == b.Type && reflect.DeepEqual(a, b)
}

// placed is an instance with what it has to look like.
type placed struct {
	inst   *runtime.ModuleInstance
	module *api.Module
	m      mod
	addrs  []address.Function // as handed out
	store  int
}

var probes = []string{"a", "b", "c", "", "A", "aa", "a ", "\x00"}

type host struct{ n int }

// system is a number of stores with instances in them.
type system struct {
	stores []*runtime.Store
	pre    []int
	all    []placed
	mods   map[int]*api.Module
}

func newSystem(pre ...int) *system {
	s := &system{pre: pre, mods: map[int]*api.Module{}}
	for _, n := range pre {
		st := &runtime.Store{}
		for i := 0; i < n; i++ {
			st.Funcs = append(st.Funcs, host{i})
		}
		s.stores = append(s.stores, st)
	}
	return s
}

// instantiate adds an instance of module k of kinds to a store.
func (s *system) instantiate(w *mc.W, store int, k int, kinds []mod) {
	m := s.mods[k]
	if m == nil {
		m = kinds[k].build(k)
		s.mods[k] = m
	}
	var in *runtime.ModuleInstance
	var err error
	p := mc.Safe(func() { in, err = runtime.NewModuleInstance(s.stores[store], m) })
	w.Step(1)
	switch {
	case p != nil:
		w.Fail("panic", "instantiating a module with %s panicked: %v", kinds[k], p)
	case err != nil:
		w.Trace("error")
		if kinds[k].valid() {
			w.Fail("error", "instantiating a module with %s failed: %v", kinds[k], err)
		}
	case in == nil:
		w.Fail("nil", "instantiating a module with %s returned neither instance nor error", kinds[k])
	default:
		w.Trace("instance")
		s.all = append(s.all, placed{in, m, kinds[k], append([]address.Function(nil), in.FunctionAddresses...), store})
	}
}

// verify judges every instance made so far.
func (s *system) verify(w *mc.W, names []string) {
	taken := make([]map[address.Function]bool, len(s.stores))
	for i, st := range s.stores {
		taken[i] = map[address.Function]bool{}
		if len(st.Funcs) < s.pre[i] {
			w.Fail("host", "functions of the host were removed")
			return
		}
		for k := 0; k < s.pre[i]; k++ {
			taken[i][address.Function(k)] = true
			if st.Funcs[k] != instance.Function(host{k}) {
				w.Fail("host", "function %d of the host was replaced", k)
			}
		}
	}
	for n, x := range s.all {
		st := s.stores[x.store]
		as := x.inst.FunctionAddresses
		if len(as) != x.m.funcs || !reflect.DeepEqual(append([]address.Function(nil), as...), x.addrs) {
			w.Fail("addresses", "instance %d of a module with %s has addresses %v, at first %v", n, x.m, as, x.addrs)
			return
		}
		for k, a := range as {
			if taken[x.store][a] {
				w.Fail("shared", "instance %d: address %d of function %d is already taken", n, a, k)
			}
			taken[x.store][a] = true
			if int(a) >= len(st.Funcs) {
				w.Fail("range", "instance %d: address %d of function %d is outside of the store of %d functions", n, a, k, len(st.Funcs))
				return
			}
			if !same(code(st.Funcs[a]), x.module.Funcs[k]) {
				w.Fail("denotes", "instance %d: address %d does not denote function %d of its module", n, a, k)
			}
		}
		for _, name := range names {
			want := x.m.lookup(name)
			if want == open {
				continue
			}
			var e runtime.ExportInstance
			var ok bool
			if p := mc.Safe(func() { e, ok = x.inst.GetExport(name) }); p != nil {
				w.Fail("lookup panic", "looking up %q panicked: %v", name, p)
				return
			}
			switch {
			case want == absent && ok:
				w.Fail("absent", "instance %d of a module with %s: unknown name %q gives %v", n, x.m, name, e.Value)
			case want != absent && !ok:
				w.Fail("missing", "instance %d of a module with %s: export %q is not found", n, x.m, name)
			case want != absent:
				if a, isFunc := e.Value.(address.Function); !isFunc || a != as[want] || e.Name != name {
					w.Fail("resolves", "instance %d of a module with %s: export %q resolves to %q %v, expected %v", n, x.m, name, e.Name, e.Value, as[want])
				}
			}
		}
		w.Step(x.m.funcs + len(names))
	}
}

// kinds are all modules of up to f functions with up to e exports out of the names.
func kindsOf(f, e int, names []string, invalid bool) []mod {
	var out []mod
	for n := 0; n <= f; n++ {
		lo, hi := 0, n
		if invalid {
			lo, hi = -1, n+1
		}
		var each []exp
		for _, name := range names {
			for i := lo; i < hi; i++ {
				each = append(each, exp{name, i})
			}
		}
		var rec func(sofar []exp)
		rec = func(sofar []exp) {
			m := mod{n, append([]exp(nil), sofar...)}
			if invalid || m.valid() {
				out = append(out, m)
			}
			if len(sofar) == e {
				return
			}
			for _, x := range each {
				rec(append(sofar[:len(sofar):len(sofar)], x))
			}
		}
		rec(nil)
	}
	return out
}

func c26(tier string) []mc.Family {
	thorough := tier == "thorough"
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var fs []mc.Family
	sequences := func(name string, kinds []mod, n int, pre ...int) {
		radix := len(kinds) * len(pre)
		fs = append(fs, mc.Family{Name: name, Bound: fmt.Sprintf("every sequence of up to %d instantiations of %d modules in %d stores, all instances judged after every step", n, len(kinds), len(pre)), N: mc.SeqCount(radix, n),
			Run: func(w *mc.W, i int64) {
				var buf [8]int
				seq := mc.Seq(i, radix, n, buf[:0])
				w.Desc(func() string {
					var b strings.Builder
					for _, x := range seq {
						fmt.Fprintf(&b, "[store %d: %s] ", x%len(pre), kinds[x/len(pre)])
					}
					return b.String()
				})
				w.Distinct()
				s := newSystem(pre...)
				for _, x := range seq {
					s.instantiate(w, x%len(pre), x/len(pre), kinds)
					s.verify(w, probes)
					if w.Failed() {
						return
					}
				}
				if len(seq) == 0 {
					w.Trace("nothing")
				}
			}})
	}
	sequences("modules", kindsOf(3, 3, []string{"a", "b", ""}, false), 1, 0, 2)
	sequences("many exports", kindsOf(pick(4, 5), 4, []string{"a", "b", "c", ""}, false), 1, 0)
	sequences("sequences", kindsOf(2, 2, []string{"a", "b"}, false), pick(3, 4), 0, 1)
	sequences("long sequences", []mod{{}, {funcs: 1}, {1, []exp{{"a", 0}}}, {3, []exp{{"b", 2}, {"a", 0}}}}, pick(6, 7), 0, 3)
	sequences("invalid exports", kindsOf(2, 2, []string{"a", "b"}, true), 2, 0, 1)
	sizes := pick(300, 2000)
	fs = append(fs, mc.Family{Name: "sizes", Bound: fmt.Sprintf("instances of modules of every size up to %d functions, all exported, one after another in one store", sizes), N: 3,
		Run: func(w *mc.W, i int64) {
			w.Desc(func() string { return fmt.Sprintf("growing sizes, variant %d", i) })
			s := newSystem(int(i))
			var kinds []mod
			for n := 0; n <= sizes; n++ {
				m := mod{funcs: n}
				if i == 2 {
					m.funcs = sizes - n
				}
				step := m.funcs/50 + 1
				for k := 0; k < m.funcs; k += step {
					m.exports = append(m.exports, exp{fmt.Sprintf("e%d", k), m.funcs - 1 - k})
				}
				kinds = append(kinds, m)
			}
			var names []string
			for k := 0; k < 60; k++ {
				names = append(names, fmt.Sprintf("e%d", k))
			}
			for k := range kinds {
				w.Distinct()
				s.instantiate(w, 0, k, kinds)
			}
			s.verify(w, names)
			for k := 0; k < len(kinds); k += 7 { // again, in another order
				s.instantiate(w, 0, len(kinds)-1-k, kinds)
			}
			s.verify(w, names)
		}})
	full := []int{127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 20}
	fs = append(fs, mc.Family{Name: "large stores", Bound: fmt.Sprintf("three instances in stores that already hold %v functions", full), N: int64(len(full)),
		Run: func(w *mc.W, i int64) {
			w.Desc(func() string { return fmt.Sprintf("a store of %d functions", full[i]) })
			w.Distinct()
			kinds := []mod{{3, []exp{{"a", 2}, {"b", 0}, {"c", 1}}}, {1, []exp{{"a", 0}}}, {300, []exp{{"a", 299}, {"b", 255}, {"c", 256}}}}
			s := newSystem(full[i])
			for k := range kinds {
				s.instantiate(w, 0, k, kinds)
				s.verify(w, probes)
			}
		}})
	return fs
}
