package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	badger "github.com/dgraph-io/badger/v3"
	"github.com/fdymylja/tmos/runtime/kv"
)

func init() { register("C04", c04) }

type kvOp struct {
	Op  int `json:"op"` // 0 delete, 1.. set value
	Key int `json:"key"`
}

var kvVals = []string{"", "v", "w" + strings.Repeat("x", 300)}

type kvPool struct {
	s  *kv.Badger
	db []*badger.DB
	n  int
}

func kvFresh(w *Worker) *kv.Badger {
	p, _ := w.S["kv"].(*kvPool)
	if p == nil {
		p = &kvPool{}
		w.S["kv"] = p
		w.OnClose(func() {
			for _, d := range p.db {
				_ = d.Close()
			}
		})
	}
	if p.s != nil && p.n > 150 {
		for _, d := range p.db {
			_ = d.Close()
		}
		p.s, p.n = nil, 0
	}
	if p.s == nil {
		p.s = kv.NewBadger()
		p.db = findDBs(p.s)
	} else {
		restore(p.db, Dump{map[string]string{}})
	}
	p.n++
	return p.s
}

func iterate(it kv.Iterator, limit int) (out [][2]string) {
	defer it.Close()
	for it.Valid() {
		k := string(it.Key())
		v := it.Value()
		out = append(out, [2]string{k, string(v)})
		for i := range v {
			v[i] ^= 0xff
		}
		if len(out) > limit {
			return out
		}
		it.Next()
	}
	return out
}

func showKV(l [][2]string) string {
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "%q=%q ", trunc(x[0], 20), trunc(x[1], 10))
	}
	return b.String()
}

func eqKV(a, b [][2]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// kvCheck compares every read of the store with the model.
func kvCheck(s kv.KV, m map[string]string, keys, prefixes []string) *Fail {
	for _, k := range keys {
		want, ok := m[k]
		for pass := 0; pass < 2; pass++ {
			v, exists := s.Get([]byte(k))
			if exists != ok {
				return failf("get-exists", "get %q exists=%v, want %v", k, exists, ok)
			}
			if string(v) != want {
				return failf("get-value", "get %q (read %d) is %q, want %q", k, pass+1, trunc(string(v), 40), trunc(want, 40))
			}
			for i := range v { // the caller owns what it was given
				v[i] ^= 0x55
			}
		}
		if s.Has([]byte(k)) != ok {
			return failf("has", "has %q is %v, want %v", k, !ok, ok)
		}
	}
	all := sortedKeys(m)
	for _, p := range prefixes {
		var want [][2]string
		for _, k := range all {
			if strings.HasPrefix(k, p) {
				want = append(want, [2]string{k[len(p):], m[k]})
			}
		}
		if got := iterate(s.IteratePrefix([]byte(p)), len(want)+3); !eqKV(got, want) {
			return failf("prefix-iteration", "prefix %q yields %s, want %s", p, showKV(got), showKV(want))
		}
	}
	for _, a := range prefixes {
		for _, b := range prefixes {
			var want [][2]string
			for _, k := range all {
				if k >= a && (b == "" || k <= b) {
					want = append(want, [2]string{k, m[k]})
				}
			}
			if got := iterate(s.Iterate([]byte(a), []byte(b)), len(want)+3); !eqKV(got, want) {
				return failf("range-iteration", "range %q..%q yields %s, want %s", a, b, showKV(got), showKV(want))
			}
		}
	}
	return nil
}

func kvApply(s kv.KV, m map[string]string, keys []string, op kvOp) *Fail {
	k := []byte(keys[op.Key])
	if op.Op == 0 {
		_, present := m[keys[op.Key]]
		if got := s.Delete(k); got != present {
			return failf("delete-reports", "delete %q reported %v, existed=%v", keys[op.Key], got, present)
		}
		delete(m, keys[op.Key])
	} else {
		v := []byte(kvVals[op.Op-1])
		s.Set(k, v)
		m[keys[op.Key]] = kvVals[op.Op-1]
		for i := range v {
			v[i] = 'Z'
		}
	}
	if !bytes.Equal(k, []byte(keys[op.Key])) {
		return failf("argument-mutated", "key argument became %q", k)
	}
	for i := range k {
		k[i] = 'Z'
	}
	return nil
}

func c04(c *Ctx) {
	c.Rule = "set/delete histories over prefix-related keys; after every step every get, has, prefix iteration and range iteration over the alphabet is compared with a sorted Go map; all slices passed in or returned are overwritten by the caller"
	c.Assumptions = []string{"the empty key and keys over 65000 bytes are outside the alphabet (the engine refuses them)"}
	keys := []string{"a", "ab", "b", "a\x00", "a\xff", "\xff", "\x00", "aa"}
	prefixes := []string{"", "a", "ab", "b", "a\x00", "a\xff", "\xff", "c", "\x00", "a\xff\xff"}

	run := func(nk int) func(w *Worker, h []kvOp) *Fail {
		return func(w *Worker, h []kvOp) *Fail {
			s := kvFresh(w)
			m := map[string]string{}
			for i, op := range h {
				f := kvApply(s, m, keys, op)
				if f == nil && (len(h) <= 2 || i == len(h)-1) {
					f = kvCheck(s, m, keys[:nk], prefixes)
				}
				if f != nil {
					f.Msg = fmt.Sprintf("step %d of %v: %s", i, h, f.Msg)
					return f
				}
				c.State(fmt.Sprint(m))
			}
			addN(&c.Transitions, len(h))
			addN(&c.Traces, 1)
			c.Outcome(fmt.Sprint(m))
			return nil
		}
	}
	gen := func(nk, nv, depth int) func(emit func([]kvOp) bool) {
		per := nv + 1
		return func(emit func([]kvOp) bool) {
			wordsLen(nk*per, depth, func(w []int) bool {
				h := make([]kvOp, len(w))
				for i, x := range w {
					h[i] = kvOp{x % per, x / per}
				}
				return emit(h)
			})
		}
	}
	Explore(c, "depth1-keys8-values3", gen(8, 3, 1), run(8))
	Explore(c, "depth2-keys8-values3", gen(8, 3, 2), run(8))
	Explore(c, "depth3-keys5-values2", gen(5, 2, 3), run(5))
	Explore(c, "depth4-keys3-values2", gen(3, 2, 4), run(3))
	if c.Thorough {
		Explore(c, "depth3-keys8-values3", gen(8, 3, 3), run(8))
		Explore(c, "depth4-keys5-values2", gen(5, 2, 4), run(5))
		Explore(c, "depth6-keys3-values1", gen(3, 1, 6), run(3))
	}

	// all subsets of the keys, every query
	type subset struct {
		Mask int `json:"mask"`
	}
	Explore(c, "subsets", func(emit func(subset) bool) {
		for i := 0; i < 1<<len(keys); i++ {
			emit(subset{i})
		}
	}, func(w *Worker, sc subset) *Fail {
		s := kvFresh(w)
		m := map[string]string{}
		for i := len(keys) - 1; i >= 0; i-- {
			if sc.Mask>>uint(i)&1 == 1 {
				s.Set([]byte(keys[i]), []byte(keys[i]+"!"))
				m[keys[i]] = keys[i] + "!"
			}
		}
		addN(&c.Transitions, len(m))
		addN(&c.Traces, 1)
		return kvCheck(s, m, keys, prefixes)
	})

	// a store that is never reset
	type walkCase struct {
		NK, NV, K int
	}
	Explore(c, "walk", func(emit func(walkCase) bool) {
		emit(walkCase{5, 2, 2})
		emit(walkCase{3, 2, 3})
		if c.Thorough {
			emit(walkCase{5, 2, 3})
			emit(walkCase{8, 3, 2})
		}
	}, func(w *Worker, wc walkCase) *Fail {
		s := kv.NewBadger()
		defer closeDBs(s)
		m := map[string]string{}
		per := wc.NV + 1
		for i, x := range deBruijn(wc.NK*per, wc.K) {
			f := kvApply(s, m, keys, kvOp{x % per, x / per})
			if f == nil {
				f = kvCheck(s, m, keys[:wc.NK], prefixes)
			}
			if f != nil {
				f.Msg = fmt.Sprintf("step %d: %s", i, f.Msg)
				return f
			}
			addN(&c.Transitions, 1)
		}
		addN(&c.Traces, 1)
		return nil
	})

	// two open stores do not share anything
	type pairCase struct{ Mask int }
	Explore(c, "two-stores", func(emit func(pairCase) bool) {
		for i := 0; i < 16; i++ {
			emit(pairCase{i})
		}
	}, func(w *Worker, pc pairCase) *Fail {
		a, b := kv.NewBadger(), kv.NewBadger()
		defer closeDBs(a)
		defer closeDBs(b)
		ma, mb := map[string]string{}, map[string]string{}
		for i := 0; i < 4; i++ {
			s, m := a, ma
			if pc.Mask>>uint(i)&1 == 1 {
				s, m = b, mb
			}
			k := keys[i%2]
			s.Set([]byte(k), []byte{byte('0' + i)})
			m[k] = string([]byte{byte('0' + i)})
		}
		if f := kvCheck(a, ma, keys[:3], prefixes[:3]); f != nil {
			return f
		}
		addN(&c.Transitions, 4)
		addN(&c.Traces, 1)
		return kvCheck(b, mb, keys[:3], prefixes[:3])
	})

	// keys and values of every size, next to each other
	type longCase struct{ L, Mask int }
	Explore(c, "long keys", func(emit func(longCase) bool) {
		for _, l := range append(sizesTo(most(c, 4097, 10001)), 60000) {
			for m := 1; m < 64; m++ {
				if !c.Thorough && l > 3 && (m*5+l)%8 != 0 && m&(m-1) != 0 && m != 63 {
					continue
				}
				if !emit(longCase{l, m}) {
					return
				}
			}
		}
	}, func(w *Worker, lc longCase) *Fail {
		s := kvFresh(w)
		m := map[string]string{}
		k := strings.Repeat("k", lc.L)
		ks := []string{k, k + "\x00", k[1:] + "l", k + "k", k[1:] + "\xff", k[1:]}
		pre := append([]string{k + "m", ""}, ks...)
		if lc.L == 1 {
			ks = ks[:5]
		}
		for i := range ks {
			if lc.Mask>>uint(i)&1 == 1 {
				v := strings.Repeat(string(rune('a'+i)), lc.L+i-2+1/lc.L*2)
				s.Set([]byte(ks[i]), []byte("before"))
				s.Set([]byte(ks[i]), []byte(v))
				m[ks[i]] = v
			}
		}
		addN(&c.Transitions, len(m))
		addN(&c.Traces, 1)
		return kvCheck(s, m, ks, pre)
	})

	// many keys and all lengths
	type bulkCase struct {
		N int `json:"n"`
	}
	Explore(c, "bulk", func(emit func(bulkCase) bool) {
		emit(bulkCase{300})
		emit(bulkCase{3000})
	}, func(w *Worker, bc bulkCase) *Fail {
		s := kv.NewBadger()
		defer closeDBs(s)
		m := map[string]string{}
		var ks []string
		for i := 0; i < bc.N; i++ {
			k := fmt.Sprintf("%d", i*7919%bc.N)
			if bc.N == 300 {
				k = strings.Repeat("k", i+1)
			}
			ks = append(ks, k)
			s.Set([]byte(k), []byte(fmt.Sprint("value", i)))
			m[k] = fmt.Sprint("value", i)
		}
		for i, k := range ks {
			if i%3 == 0 {
				if !s.Delete([]byte(k)) {
					return failf("delete-reports", "delete of existing %q reported false", trunc(k, 30))
				}
				delete(m, k)
			}
		}
		sort.Strings(ks)
		pre := []string{"", "1", "29", "k", strings.Repeat("k", 200), ks[len(ks)/2]}
		addN(&c.Transitions, bc.N)
		addN(&c.Traces, 1)
		return kvCheck(s, m, ks, pre)
	})
}
