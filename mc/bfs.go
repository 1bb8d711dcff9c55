package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	badger "github.com/dgraph-io/badger/v3"
)

// system is a live instance of the code under test, with the reference model beside it.
// Step performs one operation on the real code in the state described by m, judges it and
// returns the model of the new state. Models are values: Step never changes m.
type system[M any] struct {
	dbs     []*badger.DB
	genesis Dump
	m0      M
	step    func(m M, op int) (M, *Fail)
	// onRestore resets what the harness itself keeps about the run.
	onRestore func()
	close     func()
	// renew is the number of operations after which a system is replaced by a fresh one
	// (the engine keeps old versions, which makes full dumps slower and slower).
	renew int
	used  int
}

type bfsNode[M any] struct {
	path []int
	d    Dump
	m    M
}

type bfsCase struct{ Path []int }

// BFS explores every operation in every distinct state of the real system up to maxDepth
// operations from genesis. States are byte dumps of the real stores (plus mkey, for model
// parts that are not in the stores). name renders an operation in reports. Failures are
// confirmed by replaying the whole path from genesis on a fresh system.
func BFS[M any](c *Ctx, part string, nops, maxDepth, maxStates int, name func(op int) string,
	mk func() *system[M], mkey func(m M) string) {

	get := func(w *Worker) *system[M] {
		k := "bfs:" + part
		if s, ok := w.S[k].(*system[M]); ok {
			s.used++
			if s.renew == 0 || s.used < s.renew {
				return s
			}
			s.close()
			s2 := mk()
			w.S[k] = s2
			return s2
		}
		w.S[k] = mk()
		w.OnClose(func() { w.S[k].(*system[M]).close() })
		return w.S[k].(*system[M])
	}
	var mu sync.Mutex
	cur := map[string]*bfsNode[M]{}
	var next []*bfsNode[M]
	seen := map[string]bool{}
	key := func(d Dump, m M) string {
		k := d.digest()
		if mkey != nil {
			k += mkey(m)
		}
		return k
	}
	desc := func(p []int) string {
		s := ""
		for _, o := range p {
			s += " ; " + name(o)
		}
		if s == "" {
			return "genesis"
		}
		return s[3:]
	}
	run := func(w *Worker, cs bfsCase) *Fail {
		s := get(w)
		n := len(cs.Path)
		node := cur[fmt.Sprint(cs.Path[:n-1])]
		if w.ID >= 100 || c.replay != nil || node == nil {
			// replay from genesis
			restore(s.dbs, s.genesis)
			if s.onRestore != nil {
				s.onRestore()
			}
			m := s.m0
			for i, op := range cs.Path {
				var f *Fail
				if m, f = s.step(m, op); f != nil {
					f.Msg = desc(cs.Path[:i+1]) + ":\n  " + f.Msg
					return f
				}
			}
			return nil
		}
		restore(s.dbs, node.d)
		if s.onRestore != nil {
			s.onRestore()
		}
		m, f := s.step(node.m, cs.Path[n-1])
		atomic.AddInt64(&c.Transitions, 1)
		atomic.AddInt64(&c.Traces, 1)
		if f != nil {
			f.Msg = desc(cs.Path) + ":\n  " + f.Msg
			return f
		}
		d := dump(s.dbs)
		k := key(d, m)
		c.State(part + k)
		mu.Lock()
		if !seen[k] {
			seen[k] = true
			next = append(next, &bfsNode[M]{cs.Path, d, m})
		}
		mu.Unlock()
		return nil
	}
	if c.replay != nil {
		Explore(c, part, func(func(bfsCase) bool) {}, run)
		return
	}
	s := mk()
	root := &bfsNode[M]{nil, s.genesis, s.m0}
	s.close()
	seen[key(root.d, root.m)] = true
	c.State(part + key(root.d, root.m))
	level := []*bfsNode[M]{root}
	complete := false
	depth := 0
	for ; depth < maxDepth && !c.tooMany() && !c.Out(); depth++ {
		if len(level) == 0 {
			complete = true
			break
		}
		cur = map[string]*bfsNode[M]{}
		for _, n := range level {
			cur[fmt.Sprint(n.path)] = n
		}
		next = nil
		lv := level
		exploreQuiet(c, part, depth == 0, func(emit func(bfsCase) bool) {
			for _, n := range lv {
				for op := 0; op < nops; op++ {
					if !emit(bfsCase{append(append([]int{}, n.path...), op)}) {
						return
					}
				}
			}
		}, run)
		level = next
		if maxStates > 0 && len(seen) > maxStates {
			c.Set("statecap:"+part, len(seen))
			depth++
			break
		}
	}
	if len(level) == 0 {
		complete = true
	}
	c.Set("depth:"+part, depth)
	c.Set("fixpoint:"+part, complete)
	c.Set("states:"+part, len(seen))
}

func exploreQuiet[C any](c *Ctx, part string, first bool, gen func(emit func(C) bool), run func(w *Worker, cs C) *Fail) {
	if !first {
		c.mu.Lock()
		saved, keep := append([]string{}, c.parts...), c.extra["n:"+part]
		savedT := c.extra["s:"+part]
		c.mu.Unlock()
		Explore(c, part, gen, run)
		c.mu.Lock()
		c.parts = saved
		if n, ok := keep.(int64); ok {
			if m, ok := c.extra["n:"+part].(int64); ok {
				c.extra["n:"+part] = n + m
			}
		}
		if n, ok := savedT.(float64); ok {
			if m, ok := c.extra["s:"+part].(float64); ok {
				c.extra["s:"+part] = n + m
			}
		}
		c.mu.Unlock()
		return
	}
	Explore(c, part, gen, run)
}

// Walk drives one never-reset system through each of the given operation sequences.
func Walk[M any](c *Ctx, part string, seqs [][]int, name func(op int) string, mk func() *system[M]) {
	Explore(c, part, func(emit func(bfsCase) bool) {
		for _, q := range seqs {
			if !emit(bfsCase{q}) {
				return
			}
		}
	}, func(w *Worker, cs bfsCase) *Fail {
		s := mk()
		defer s.close()
		if s.onRestore != nil {
			s.onRestore()
		}
		m := s.m0
		for i, op := range cs.Path {
			var f *Fail
			if m, f = s.step(m, op); f != nil {
				lo := i - 6
				if lo < 0 {
					lo = 0
				}
				h := ""
				for _, o := range cs.Path[lo : i+1] {
					h += " ; " + name(o)
				}
				f.Msg = fmt.Sprintf("after %d operations, ending%s:\n  %s", i, h, f.Msg)
				return f
			}
			atomic.AddInt64(&c.Transitions, 1)
		}
		atomic.AddInt64(&c.Traces, 1)
		return nil
	})
}

// windows cuts a de Bruijn walk over k operations and length n into pieces of about size
// operations that overlap so that every n-gram stays inside one piece.
func windows(k, n, size int) [][]int {
	seq := deBruijn(k, n)
	var out [][]int
	for i := 0; i < len(seq); i += size {
		j := i + size + n - 1
		if j > len(seq) {
			j = len(seq)
		}
		out = append(out, seq[i:j])
		if j == len(seq) {
			break
		}
	}
	return out
}
