package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Fail describes how one execution broke the property. Key classifies it (used to
// report one violation per kind and to match known findings), Msg explains it.
type Fail struct {
	Key string
	Msg string
}

func failf(key, format string, args ...interface{}) *Fail {
	return &Fail{Key: key, Msg: fmt.Sprintf(format, args...)}
}

// Ctx collects what one run of a check covered and found.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int64
	Thorough bool
	Verif    string
	Workers  int

	start    time.Time
	deadline time.Time

	Level       string
	Rule        string
	Assumptions []string

	Evaluations int64
	Transitions int64
	Traces      int64

	mu       sync.Mutex
	distinct map[string]struct{}
	dcount   int64
	states   map[string]struct{}
	samples  []interface{}
	extra    map[string]interface{}
	capped   []string
	parts    []string
	repeats  int // of confirmed violations
	viol     []violation
	known    map[string]string // key -> what
	knownHit map[string]bool
	unconf   []string
	replay   *replayFile
	replayed bool
}

type violation struct {
	Key, Msg, Path string
}

type replayFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Key      string          `json:"key"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Tier     string          `json:"tier"`
}

func newCtx(prop, tier, verif string, seed int64, budget time.Duration) *Ctx {
	c := &Ctx{
		Prop: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough", Verif: verif,
		Workers:  runtime.NumCPU(),
		start:    time.Now(),
		distinct: map[string]struct{}{}, states: map[string]struct{}{},
		extra: map[string]interface{}{}, known: map[string]string{}, knownHit: map[string]bool{},
		Level: "model_checking",
	}
	if c.Workers > 8 {
		c.Workers = 8
	}
	c.deadline = c.start.Add(budget)
	c.loadKnown()
	return c
}

// loadKnown reads /verif/known-findings.jsonl: {"property","key","what"}.
func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.Verif, "known-findings.jsonl"))
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		var k struct{ Property, Key, What, Fixed string }
		if json.Unmarshal([]byte(line), &k) != nil || k.Property != c.Prop || k.Key == "" || k.Fixed != "" {
			continue
		}
		c.known[k.Key] = k.What
	}
}

// Out reports whether the internal time budget is used up.
func (c *Ctx) Out() bool { return time.Now().After(c.deadline) }

// Cap records that a part was cut short by a bound of the run (time).
func (c *Ctx) Cap(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, x := range c.capped {
		if x == s {
			return
		}
	}
	c.capped = append(c.capped, s)
}

func (c *Ctx) Set(k string, v interface{}) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }

func (c *Ctx) Add(k string, n int64) {
	c.mu.Lock()
	v, _ := c.extra[k].(int64)
	c.extra[k] = v + n
	c.mu.Unlock()
}

// State registers a distinct system state (by digest).
func (c *Ctx) State(d string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.states[d]; ok {
		return false
	}
	c.states[d] = struct{}{}
	return true
}

// Outcome registers a distinct non-trivial observed outcome.
func (c *Ctx) Outcome(d string) {
	c.mu.Lock()
	if len(c.distinct) < 2000000 {
		c.distinct[d] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Sample(s interface{}) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 6 || c.repeats >= 300
}

// reported tells whether a failure of this kind was already confirmed (or listed).
func (c *Ctx) reported(key string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.knownHit[key] {
		return true
	}
	for _, v := range c.viol {
		if v.Key == key {
			c.repeats++
			return true
		}
	}
	return false
}

// report records a confirmed failure.
func (c *Ctx) report(part string, f *Fail, cs interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if what, ok := c.known[f.Key]; ok {
		if !c.knownHit[f.Key] {
			c.knownHit[f.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, what)
		}
		return
	}
	for _, v := range c.viol {
		if v.Key == f.Key {
			return
		}
	}
	raw, err := json.Marshal(cs)
	if err != nil {
		raw, _ = json.Marshal(fmt.Sprintf("%#v", cs))
	}
	dir := filepath.Join(c.Verif, "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, len(c.viol)+1))
	b, _ := json.MarshalIndent(replayFile{Property: c.Prop, Part: part, Key: f.Key, Message: f.Msg, Case: raw, Tier: c.Tier}, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	c.viol = append(c.viol, violation{f.Key, f.Msg, path})
	msg := f.Msg
	if len(msg) > 3000 {
		msg = msg[:3000] + "…"
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  part %s, key %s\n  %s\n  case %s\n", c.Prop, path, part, f.Key, msg, trunc(string(raw), 1500))
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Ctx) unconfirmed(part string, f *Fail) {
	c.mu.Lock()
	if len(c.unconf) < 20 {
		c.unconf = append(c.unconf, part+": "+f.Key+": "+trunc(f.Msg, 300))
	}
	c.mu.Unlock()
}

// finish writes the evidence file and returns the exit code.
func (c *Ctx) finish() int {
	cov := map[string]interface{}{}
	for k, v := range c.extra {
		cov[k] = v
	}
	cov["parts"] = c.parts
	cov["rule"] = c.Rule
	cov["samples"] = c.samples
	if c.samples == nil {
		cov["samples"] = []interface{}{}
	}
	cov["exhaustive"] = len(c.capped) == 0 && len(c.viol) == 0
	if len(c.capped) > 0 {
		cov["capped"] = c.capped
	}
	if len(c.unconf) > 0 {
		cov["unconfirmed"] = c.unconf
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = len(c.states)
		cov["transitions"] = atomic.LoadInt64(&c.Transitions)
		cov["traces_validated_against_impl"] = atomic.LoadInt64(&c.Traces)
		if c.Evaluations > 0 {
			cov["evaluations"] = c.Evaluations
			cov["distinct_nontrivial"] = len(c.distinct)
		}
	default:
		cov["evaluations"] = atomic.LoadInt64(&c.Evaluations)
		cov["distinct_nontrivial"] = len(c.distinct)
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	if c.replay == nil {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Println("evidence:", err)
			return 2
		}
		_ = os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(c.Verif, "evidence", c.Prop+".json"), b, 0o644); err != nil {
			fmt.Println("evidence:", err)
			return 2
		}
	} else if !c.replayed {
		fmt.Println("replay: no part named", c.replay.Part)
		return 2
	}
	if len(c.viol) > 0 {
		return 1
	}
	fmt.Printf("%s %s: ok, %d states, %d transitions, %d traces, %d evaluations, %d distinct outcomes, %.1fs",
		c.Prop, c.Tier, len(c.states), c.Transitions, c.Traces, c.Evaluations, len(c.distinct), time.Since(c.start).Seconds())
	if len(c.capped) > 0 {
		fmt.Printf(", capped: %v", c.capped)
	}
	fmt.Println()
	return 0
}

// Worker is the private state of one exploring goroutine; S is for the check's own use.
type Worker struct {
	ID int
	C  *Ctx
	S  map[string]interface{}

	mu      sync.Mutex
	busyAt  time.Time
	busyDoc func() string
	closers []func()
}

func newWorker(c *Ctx, id int) *Worker { return &Worker{ID: id, C: c, S: map[string]interface{}{}} }

func (w *Worker) OnClose(f func()) { w.closers = append(w.closers, f) }

func (w *Worker) Close() {
	for i := len(w.closers) - 1; i >= 0; i-- {
		w.closers[i]()
	}
	w.closers = nil
	w.S = map[string]interface{}{}
}

func (w *Worker) begin(doc func() string) {
	w.mu.Lock()
	w.busyAt, w.busyDoc = time.Now(), doc
	w.mu.Unlock()
}
func (w *Worker) end() {
	w.mu.Lock()
	w.busyDoc = nil
	w.mu.Unlock()
}

const hangLimit = 180 * time.Second

// watch ends the process with a violation when one execution does not terminate.
func watch(c *Ctx, ws []*Worker, part string, stop chan struct{}) {
	t := time.NewTicker(5 * time.Second)
	defer t.Stop()
	for {
		select {
		case <-stop:
			return
		case <-t.C:
			for _, w := range ws {
				w.mu.Lock()
				doc, at := w.busyDoc, w.busyAt
				w.mu.Unlock()
				if doc != nil && time.Since(at) > hangLimit {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					c.report(part, failf("hang", "execution did not terminate within %s\n%s", hangLimit, trunc(string(buf[:n]), 4000)), json.RawMessage(doc()))
					os.Exit(1)
				}
			}
		}
	}
}

// harnessPanic is raised by the harness itself (never blamed on the code under test).
type harnessPanic struct{ msg string }

func (h harnessPanic) Error() string { return h.msg }

func hp(format string, args ...interface{}) { panic(harnessPanic{fmt.Sprintf(format, args...)}) }

func must(err error) {
	if err != nil {
		hp("harness: %v", err)
	}
}

// guard runs f and turns a panic of the code under test into a Fail.
func guard(f func() *Fail) (res *Fail) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessPanic); ok {
				fmt.Fprintln(os.Stdout, "HARNESS ERROR:", h.msg)
				fmt.Fprintln(os.Stdout, string(debug.Stack()))
				os.Exit(3)
			}
			st := string(debug.Stack())
			res = &Fail{Key: "panic:" + panicSite(st), Msg: fmt.Sprintf("panic: %v\n%s", r, trunc(st, 4000))}
		}
	}()
	return f()
}

// panicSite extracts the topmost repository function of a stack for classification.
func panicSite(st string) string {
	after := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			after = true
			continue
		}
		if after && strings.HasPrefix(l, "github.com/fdymylja/tmos/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/fdymylja/tmos/")
		}
	}
	return "outside"
}

// try runs f, reporting a panic as text.
func try(f func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessPanic); ok {
				panic(h)
			}
			pan = fmt.Sprintf("%v", r)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	f()
	return ""
}

// Explore runs run on every case emitted by gen, in parallel, confirming each failure
// several times on fresh workers before reporting it.
func Explore[C any](c *Ctx, part string, gen func(emit func(C) bool), run func(w *Worker, cs C) *Fail) {
	if c.replay != nil {
		if c.replay.Part != part {
			return
		}
		c.replayed = true
		var cs C
		must(json.Unmarshal(c.replay.Case, &cs))
		w := newWorker(c, 0)
		defer w.Close()
		if f := guard(func() *Fail { return run(w, cs) }); f != nil {
			c.report(part, f, cs)
		}
		return
	}
	c.mu.Lock()
	c.parts = append(c.parts, part)
	c.mu.Unlock()
	t0 := time.Now()
	var n int64
	ch := make(chan C, 64)
	var wg sync.WaitGroup
	ws := make([]*Worker, c.Workers)
	for i := range ws {
		ws[i] = newWorker(c, i)
	}
	stop := make(chan struct{})
	go watch(c, ws, part, stop)
	for i := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			defer w.Close()
			for cs := range ch {
				if c.tooMany() {
					continue
				}
				cs := cs
				w.begin(func() string { b, _ := json.Marshal(cs); return string(b) })
				f := guard(func() *Fail { return run(w, cs) })
				w.end()
				atomic.AddInt64(&n, 1)
				if f == nil {
					continue
				}
				if c.reported(f.Key) {
					continue
				}
				// confirm on fresh workers
				w.Close()
				okc := true
				for k := 0; k < 4; k++ {
					fw := newWorker(c, 100+w.ID)
					f2 := guard(func() *Fail { return run(fw, cs) })
					fw.Close()
					if f2 == nil {
						okc = false
						break
					}
				}
				if okc {
					c.report(part, f, cs)
				} else {
					c.unconfirmed(part, f)
				}
			}
		}(ws[i])
	}
	first := true
	gen(func(cs C) bool {
		if c.Out() {
			c.Cap("time budget in " + part)
			return false
		}
		if c.tooMany() {
			return false
		}
		if first {
			first = false
			c.Sample(map[string]interface{}{"part": part, "case": cs})
		}
		ch <- cs
		return true
	})
	close(ch)
	wg.Wait()
	close(stop)
	atomic.AddInt64(&c.Evaluations, n)
	c.Set("n:"+part, n)
	c.Set("s:"+part, float64(int(time.Since(t0).Seconds()*10))/10)
}

// ---- small enumeration helpers ----

// words emits every word over [0,k) of length 0..max.
func words(k, max int, emit func([]int) bool) bool {
	for l := 0; l <= max; l++ {
		if !wordsLen(k, l, emit) {
			return false
		}
	}
	return true
}

// wordsLen emits every word over [0,k) of exactly length l (fresh slices).
func wordsLen(k, l int, emit func([]int) bool) bool {
	w := make([]int, l)
	for {
		cp := append([]int{}, w...)
		if !emit(cp) {
			return false
		}
		i := l - 1
		for i >= 0 {
			w[i]++
			if w[i] < k {
				break
			}
			w[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// perms emits every permutation of 0..n-1.
func perms(n int, emit func([]int) bool) bool {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return emit(append([]int{}, p...))
		}
		for v := 0; v < n; v++ {
			if used[v] {
				continue
			}
			used[v] = true
			p[i] = v
			if !rec(i + 1) {
				return false
			}
			used[v] = false
		}
		return true
	}
	return rec(0)
}

// deBruijn returns a sequence over [0,k) whose linear form contains every word of length n.
func deBruijn(k, n int) []int {
	a := make([]int, k*n+1)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// sizesTo lists the sizes worth trying: all small ones, and those next to the powers of
// two and ten, up to max.
func sizesTo(max int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n > 0 && n <= max && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for i := 1; i <= 20; i++ {
		add(i)
	}
	for _, b := range []int{32, 50, 64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000} {
		add(b - 1)
		add(b)
		add(b + 1)
	}
	return
}

// placesIn lists positions in a list of n: all of a short one, else those near its ends,
// its middle and every power of two.
func placesIn(n int) (out []int) {
	for i := 0; i < n; i++ {
		if n <= 20 || i < 2 || i >= n-2 || i == n/2 || i&(i-1) == 0 {
			out = append(out, i)
		}
	}
	return
}

func addN(p *int64, n int) { atomic.AddInt64(p, int64(n)) }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
