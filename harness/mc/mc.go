// Package mc is a small explicit-state exploration driver.
//
// A property is decided by running every case of a list of families. A family
// is an index-addressed, finite set of behaviours: Run(w, i) executes behaviour
// number i on the implementation and on the reference model and reports any
// disagreement. Addressing by index makes every behaviour replayable and lets
// the set be split over the cores without changing what is covered.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Family is a finite set of behaviours.
type Family struct {
	Name  string
	Bound string // what is enumerated, in words
	N     int64  // number of behaviours
	Run   func(w *W, i int64)
	// Heavy families are handed out one behaviour at a time.
	Heavy bool
}

// Property is one entry of properties.jsonl with its explorer.
type Property struct {
	ID          string
	Families    func(tier string) []Family
	Assumptions []string
	// Concurrent properties are about operations at the same time: what kills
	// the process only when several behaviours run at once violates them.
	Concurrent bool
}

type failure struct {
	Sig string
	Msg string
}

// W is a worker: it collects what one goroutine covered.
type W struct {
	id       int
	states   map[uint64]struct{}
	distinct int64
	steps    int64
	traces   int64
	outcomes map[string]int64
	fails    []failure
	desc     func() string
	failDesc string
	cur      *int64
	started  int64
	Local    any
}

var seed = maphash.MakeSeed()

// State records an abstract state (or input) reached; duplicates count once.
func (w *W) State(key string) {
	h := maphash.String(seed, key)
	w.states[h] = struct{}{}
}

// StateBytes is State for a byte string.
func (w *W) StateBytes(key []byte) {
	h := maphash.Bytes(seed, key)
	w.states[h] = struct{}{}
}

// Distinct records a state that is distinct by construction of the family.
func (w *W) Distinct() { w.distinct++ }

// Step counts n operations executed on the implementation.
func (w *W) Step(n int) { w.steps += int64(n) }

// Trace counts one model behaviour replayed on the implementation.
func (w *W) Trace(outcome string) {
	w.traces++
	w.outcomes[outcome]++
}

// Desc gives a lazy description of the current behaviour.
func (w *W) Desc(f func() string) { w.desc = f }

// Fail reports a disagreement. sig identifies what disagreed.
func (w *W) Fail(sig, format string, args ...any) {
	w.fails = append(w.fails, failure{sig, fmt.Sprintf(format, args...)})
	if w.desc != nil && w.failDesc == "" {
		w.failDesc = w.desc() // the behaviour may be described anew later on
	}
}

// Failed reports whether the current behaviour has failed already.
func (w *W) Failed() bool { return len(w.fails) > 0 }

// Safe runs f and turns a panic into a non-nil value.
func Safe(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%v", r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return nil
}

// Mixed decodes i in mixed radix, least significant digit first.
func Mixed(i int64, radix ...int) []int {
	out := make([]int, len(radix))
	for k, r := range radix {
		out[k] = int(i % int64(r))
		i /= int64(r)
	}
	return out
}

// Pow is integer exponentiation.
func Pow(b, e int) int64 {
	r := int64(1)
	for ; e > 0; e-- {
		r *= int64(b)
	}
	return r
}

// SeqCount is the number of sequences of length 0..n over k symbols.
func SeqCount(k, n int) int64 {
	var t int64
	for j := 0; j <= n; j++ {
		t += Pow(k, j)
	}
	return t
}

// Seq decodes i into a sequence of length 0..n over k symbols (shorter first).
func Seq(i int64, k, n int, buf []int) []int {
	for j := 0; j <= n; j++ {
		c := Pow(k, j)
		if i < c {
			buf = buf[:0]
			for x := 0; x < j; x++ {
				buf = append(buf, int(i%int64(k)))
				i /= int64(k)
			}
			return buf
		}
		i -= c
	}
	panic("mc: sequence index out of range")
}

// Concat joins families into a single list of cases (used by helpers).
func Concat(fs ...[]Family) []Family {
	var out []Family
	for _, f := range fs {
		out = append(out, f...)
	}
	return out
}

// ---------------------------------------------------------------- driver

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Family   string `json:"family"`
	Index    int64  `json:"index"`
	Input    string `json:"input"`
	Sig      string `json:"signature"`
	What     string `json:"what"`
	Reruns   string `json:"reruns"`
	Command  string `json:"command"`
}

type violation struct {
	family string
	index  int64
	fail   failure
	input  string
	reruns string
}

const maxWorkers = 64

// Main runs the property named on the command line.
func Main(props []Property) {
	var (
		replay = flag.String("replay", "", "replay a violation file")
		list   = flag.Bool("list", false, "list families and sizes")
		root   = flag.String("root", "/verif", "verification directory")
		child  = flag.String("child", "", "internal: progress file")
		one    = flag.String("one", "", "internal: run FAMILY@INDEX")
		tierF  = flag.String("tier", "", "override VERIF_TIER")
		budget = flag.Duration("budget", 0, "override the time budget")
	)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: <id> [flags]")
		os.Exit(2)
	}
	id := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	var prop *Property
	for i := range props {
		if props[i].ID == id {
			prop = &props[i]
		}
	}
	if prop == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if *tierF != "" {
		tier = *tierF
	}
	if tier != "thorough" {
		tier = "quick"
	}
	debug.SetMaxStack(256 << 20)
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(400)
	}

	switch {
	case *list:
		for _, f := range prop.Families(tier) {
			fmt.Printf("%-28s %14d  %s\n", f.Name, f.N, f.Bound)
		}
		return
	case *replay != "":
		os.Exit(doReplay(prop, *replay))
	case *one != "":
		at := strings.LastIndex(*one, "@")
		idx, _ := strconv.ParseInt((*one)[at+1:], 10, 64)
		fails, _, _ := runOne(prop, tier, (*one)[:at], idx)
		for _, f := range fails {
			fmt.Printf("FAIL %s: %s\n", f.Sig, f.Msg)
		}
		if len(fails) > 0 {
			os.Exit(1)
		}
		return
	case *child != "":
		b := *budget
		if b == 0 {
			b = defaultBudget(tier)
		}
		os.Exit(explore(prop, tier, *root, *child, b))
	default:
		os.Exit(supervise(prop, tier, *root, *budget))
	}
}

func defaultBudget(tier string) time.Duration {
	if tier == "thorough" {
		return 690 * time.Second
	}
	return 240 * time.Second
}

func findFamily(prop *Property, tier, name string) *Family {
	for _, f := range prop.Families(tier) {
		if f.Name == name {
			f := f
			return &f
		}
	}
	return nil
}

func newW(id int) *W {
	return &W{id: id, states: map[uint64]struct{}{}, outcomes: map[string]int64{}}
}

func runCase(w *W, f *Family, i int64) []failure {
	w.fails = nil
	w.desc, w.failDesc = nil, ""
	f.Run(w, i)
	if d := w.failDesc; d != "" {
		w.desc = func() string { return d }
	}
	fs := w.fails
	w.fails = nil
	return fs
}

func runOne(prop *Property, tier, family string, i int64) ([]failure, string, error) {
	f := findFamily(prop, tier, family)
	if f == nil {
		return nil, "", fmt.Errorf("no family %s", family)
	}
	w := newW(0)
	fs := runCase(w, f, i)
	d := ""
	if w.desc != nil {
		d = w.desc()
	}
	return fs, d, nil
}

func doReplay(prop *Property, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fs, d, err := runOne(prop, r.Tier, r.Family, r.Index)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("input: %s\n", d)
	for _, f := range fs {
		fmt.Printf("FAIL %s: %s\n", f.Sig, f.Msg)
	}
	if len(fs) > 0 {
		return 1
	}
	fmt.Println("no violation")
	return 0
}

// loadKnown reads the committed list of known findings for a property.
func loadKnown(root, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+prop+" ")
		if !strings.HasPrefix(rest, "sig=") {
			continue
		}
		rest = strings.TrimPrefix(rest, "sig=")
		sig, what, _ := strings.Cut(rest, " ")
		out[sig] = what
	}
	return out
}

func explore(prop *Property, tier, root, progress string, budget time.Duration) int {
	start := time.Now()
	deadline := start.Add(budget)
	known := loadKnown(root, prop.ID)
	families := prop.Families(tier)

	nw := runtime.GOMAXPROCS(0)
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		nw = n
	}
	if nw > maxWorkers {
		nw = maxWorkers
	}
	pf, err := os.OpenFile(progress, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer pf.Close()
	mm, unmap, err := mapFile(pf, maxWorkers*16)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer unmap()

	var (
		mu        sync.Mutex
		found     = map[string]violation{}
		knownSeen = map[string]int64{}
		stop      atomic.Bool
		timedOut  atomic.Bool
		samples   []any
		perFamily []map[string]any
		samp      = map[string]bool{}
	)
	workers := make([]*W, nw)
	type slot struct {
		fam   atomic.Int64
		idx   atomic.Int64
		since atomic.Int64
	}
	slots := make([]slot, nw)
	for i := range workers {
		workers[i] = newW(i)
		slots[i].fam.Store(-1)
	}

	// watchdog: a behaviour that runs for minutes or eats all memory is a
	// violation in itself (every behaviour takes well under a second).
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			worst, since := -1, int64(0)
			now := time.Now().UnixNano()
			for i := range slots {
				if slots[i].fam.Load() < 0 {
					continue
				}
				s := slots[i].since.Load()
				if worst < 0 || s < since {
					worst, since = i, s
				}
			}
			if worst < 0 {
				continue
			}
			why := ""
			if now-since > int64(120*time.Second) {
				why = "did not finish within 120 s"
			} else {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 14<<30 {
					why = fmt.Sprintf("memory grew to %d MB", ms.HeapAlloc>>20)
				}
			}
			if why == "" {
				continue
			}
			f := families[slots[worst].fam.Load()]
			idx := slots[worst].idx.Load()
			v := violation{family: f.Name, index: idx, fail: failure{"runaway", why}, reruns: "not re-run"}
			path := writeReplay(root, prop, tier, v, 0)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
			fmt.Printf("  %s #%d: %s\n", f.Name, idx, why)
			os.Exit(1)
		}
	}()

	total := int64(0)
	for fi := range families {
		f := &families[fi]
		if stop.Load() || timedOut.Load() {
			break
		}
		before := covered(workers)
		famStart := time.Now()
		var next atomic.Int64
		var done atomic.Int64
		chunk := int64(256)
		if f.Heavy {
			chunk = 1
		} else if f.N < int64(nw)*2048 {
			chunk = f.N/int64(nw*8) + 1
		}
		sampleAt := map[int64]bool{0: true, f.N / 2: true, f.N - 1: true}
		var wg sync.WaitGroup
		for k := 0; k < nw; k++ {
			wg.Add(1)
			go func(w *W, s *slot) {
				defer wg.Done()
				rec := mm[w.id*16 : w.id*16+16]
				for {
					lo := next.Add(chunk) - chunk
					if lo >= f.N || stop.Load() {
						return
					}
					if time.Now().After(deadline) {
						timedOut.Store(true)
						return
					}
					hi := lo + chunk
					if hi > f.N {
						hi = f.N
					}
					for i := lo; i < hi; i++ {
						binary.LittleEndian.PutUint64(rec, uint64(fi)+1)
						binary.LittleEndian.PutUint64(rec[8:], uint64(i))
						s.idx.Store(i)
						s.since.Store(time.Now().UnixNano())
						s.fam.Store(int64(fi))
						fs := runCase(w, f, i)
						if sampleAt[i] {
							d := ""
							if w.desc != nil {
								d = w.desc()
							}
							mu.Lock()
							key := f.Name + d
							if d != "" && !samp[key] && len(samples) < 40 {
								samp[key] = true
								samples = append(samples, map[string]any{"family": f.Name, "index": i, "case": clip(d, 400)})
							}
							mu.Unlock()
						}
						if len(fs) > 0 {
							input := ""
							if w.desc != nil {
								input = w.desc()
							}
							mu.Lock()
							for _, fl := range fs {
								if _, ok := known[fl.Sig]; ok {
									knownSeen[fl.Sig]++
									continue
								}
								if _, ok := found[fl.Sig]; ok {
									continue
								}
								found[fl.Sig] = violation{family: f.Name, index: i, fail: fl, input: input}
								if len(found) >= 12 {
									stop.Store(true)
								}
							}
							mu.Unlock()
						}
					}
					done.Add(hi - lo)
					s.fam.Store(-1)
				}
			}(workers[k], &slots[k])
		}
		wg.Wait()
		for k := range slots {
			slots[k].fam.Store(-1)
		}
		after := covered(workers)
		total += done.Load()
		perFamily = append(perFamily, map[string]any{
			"family": f.Name, "bound": f.Bound, "behaviours": f.N, "executed": done.Load(),
			"replayed": after.traces - before.traces, "steps": after.steps - before.steps,
			"seconds": float64(time.Since(famStart).Milliseconds()) / 1000,
		})
	}
	for i := 0; i < maxWorkers*16; i++ {
		mm[i] = 0
	}
	cov := covered(workers)
	all := map[uint64]struct{}{}
	outcomes := map[string]int64{}
	for _, w := range workers {
		for h := range w.states {
			all[h] = struct{}{}
		}
		for o, n := range w.outcomes {
			outcomes[o] += n
		}
	}
	exhaustive := !timedOut.Load() && !stop.Load()

	// confirm every violation by running it five more times
	var vs []violation
	for _, v := range found {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(a, b int) bool { return vs[a].fail.Sig < vs[b].fail.Sig })
	for k := range vs {
		again := 0
		f := findFamily(prop, tier, vs[k].family)
		for r := 0; r < 5; r++ {
			for _, fl := range runCase(newW(0), f, vs[k].index) {
				if fl.Sig == vs[k].fail.Sig {
					again++
					break
				}
			}
		}
		vs[k].reruns = fmt.Sprintf("failed again in %d of 5 re-runs", again)
	}

	seedV, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var vlist []any
	for k, v := range vs {
		path := writeReplay(root, prop, tier, v, k)
		vlist = append(vlist, map[string]any{"signature": v.fail.Sig, "what": v.fail.Msg, "replay": path})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
		fmt.Printf("  %s #%d [%s] %s\n  input: %s (%s)\n", v.family, v.index, v.fail.Sig, v.fail.Msg, clip(v.input, 600), v.reruns)
	}
	var ks []string
	for s := range knownSeen {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s (%d behaviours)\n", prop.ID, s, known[s], knownSeen[s])
	}
	ev := map[string]any{
		"property": prop.ID,
		"tier":     tier,
		"seed":     seedV,
		"level":    "model_checking",
		"wall_s":   float64(time.Since(start).Milliseconds()) / 1000,
		"coverage": map[string]any{
			"states":                        int64(len(all)) + cov.distinct,
			"transitions":                   cov.steps,
			"traces_validated_against_impl": cov.traces,
			"behaviours_enumerated":         total,
			"distinct_outcomes":             len(outcomes),
			"outcomes":                      topOutcomes(outcomes),
			"exhaustive":                    exhaustive,
			"families":                      perFamily,
			"known_findings_seen":           len(knownSeen),
			"samples":                       samples,
		},
		"violations":  vlist,
		"assumptions": prop.Assumptions,
	}
	if vlist == nil {
		ev["violations"] = []any{}
	}
	if prop.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if err := writeJSON(filepath.Join(root, "evidence", prop.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d behaviours, %d states, %d transitions, %d outcomes, exhaustive=%v, %.1fs\n",
		prop.ID, tier, total, int64(len(all))+cov.distinct, cov.steps, len(outcomes), exhaustive, time.Since(start).Seconds())
	if len(vs) > 0 {
		return 1
	}
	if cov.traces == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	return 0
}

func topOutcomes(m map[string]int64) map[string]int64 {
	type kv struct {
		k string
		v int64
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(a, b int) bool {
		if l[a].v != l[b].v {
			return l[a].v > l[b].v
		}
		return l[a].k < l[b].k
	})
	out := map[string]int64{}
	for i, e := range l {
		if i == 60 {
			break
		}
		out[e.k] = e.v
	}
	return out
}

type cover struct{ distinct, steps, traces int64 }

func covered(ws []*W) cover {
	var c cover
	for _, w := range ws {
		c.distinct += w.distinct
		c.steps += w.steps
		c.traces += w.traces
	}
	return c
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + "…"
}

func writeReplay(root string, prop *Property, tier string, v violation, k int) string {
	path := filepath.Join(root, "out", "replay", fmt.Sprintf("%s-%d.json", prop.ID, k))
	writeJSON(path, replayFile{
		Property: prop.ID, Tier: tier, Family: v.family, Index: v.index, Input: v.input,
		Sig: v.fail.Sig, What: v.fail.Msg, Reruns: v.reruns,
		Command: fmt.Sprintf("bash %s/run.sh %s --replay %s", root, prop.ID, path),
	})
	return path
}

func writeJSON(path string, v any) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// supervise runs the exploration in a child process, so that a behaviour that
// kills the process (stack exhaustion, fatal runtime error) is still reported
// as a violation of that behaviour.
func supervise(prop *Property, tier, root string, budget time.Duration) int {
	start := time.Now()
	dir := filepath.Join(root, "out", "progress")
	os.MkdirAll(dir, 0o755)
	progress := filepath.Join(dir, fmt.Sprintf("%s-%d", prop.ID, os.Getpid()))
	defer os.Remove(progress)
	os.WriteFile(progress, make([]byte, maxWorkers*16), 0o644)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Remove(filepath.Join(root, "evidence", prop.ID+".json"))
	cmd := exec.Command(self, prop.ID, "-child", progress, "-root", root, "-tier", tier, "-budget", budget.String())
	cmd.Stdout = os.Stdout
	tail := &tailWriter{}
	cmd.Stderr = tail
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if err == nil || code == 1 {
		os.Stderr.Write(tail.buf)
		return code
	}
	// The child died. Find which behaviour was responsible.
	b, _ := os.ReadFile(progress)
	families := prop.Families(tier)
	for k := 0; k+16 <= len(b); k += 16 {
		fi := binary.LittleEndian.Uint64(b[k:])
		idx := int64(binary.LittleEndian.Uint64(b[k+8:]))
		if fi == 0 || int(fi) > len(families) {
			continue
		}
		f := families[fi-1]
		c := exec.Command(self, prop.ID, "-tier", tier, "-one", fmt.Sprintf("%s@%d", f.Name, idx))
		out, err := c.CombinedOutput()
		if err == nil {
			continue
		}
		v := violation{family: f.Name, index: idx, fail: failure{"crash", "the process died: " + clip(firstLine(string(out)), 300)}, reruns: "died again when run alone"}
		if c.ProcessState.ExitCode() == 1 {
			v.fail, v.reruns = failure{"failed", clip(string(out), 600)}, "failed again when run alone"
		}
		return died(root, prop, tier, v)
	}
	if prop.Concurrent {
		return died(root, prop, tier, violation{fail: failure{"crash", "the process died of several behaviours at once: " + clip(firstLine(string(tail.buf)), 300)}, reruns: "not re-run"})
	}
	if os.Getenv("VERIF_WORKERS") == "" {
		// No behaviour fails by itself, so they were killed by running at the
		// same time, which most properties say nothing about: go on with one
		// at a time.
		os.Setenv("VERIF_WORKERS", "1")
		if budget == 0 {
			budget = defaultBudget(tier)
		}
		return supervise(prop, tier, root, max(budget-time.Since(start), time.Minute))
	}
	os.Stderr.Write(tail.buf)
	fmt.Fprintf(os.Stderr, "exploration ended with status %d\n", code)
	return 2
}

func died(root string, prop *Property, tier string, v violation) int {
	path := writeReplay(root, prop, tier, v, 0)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
	fmt.Printf("  %s #%d: %s\n", v.family, v.index, v.fail.Msg)
	return 1
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal") || strings.Contains(l, "runtime:") || strings.Contains(l, "panic") {
			return l
		}
	}
	l, _, _ := strings.Cut(s, "\n")
	return l
}

type tailWriter struct{ buf []byte }

func (t *tailWriter) Write(p []byte) (int, error) {
	if room := 1<<16 - len(t.buf); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		t.buf = append(t.buf, p[:room]...)
	}
	return len(p), nil
}
