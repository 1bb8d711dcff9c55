package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/fdymylja/tmos/runtime/module"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func init() { register("C37", c37) }

// records are the accounts as stored.
func records(d Dump) map[string]*authnv1.Account {
	out := map[string]*authnv1.Account{}
	eachObject(d, func(k, v string) {
		if strings.HasPrefix(k, "tmos.x.authn.v1alpha1.Account/") {
			x := new(authnv1.Account)
			must(proto.Unmarshal([]byte(v), x))
			out[x.Address] = x
		}
	})
	return out
}

// keyBytes is the key registered with the account.
func keyBytes(a *authnv1.Account) ([]byte, error) {
	if a.PubKey == nil {
		return nil, nil
	}
	m, err := a.PubKey.UnmarshalNew()
	if err != nil {
		return nil, err
	}
	fd := m.ProtoReflect().Descriptor().Fields().ByName("key")
	if fd == nil {
		return nil, fmt.Errorf("%s has no key", m.ProtoReflect().Descriptor().FullName())
	}
	return m.ProtoReflect().Get(fd).Bytes(), nil
}

// judgeRecords compares the account records around a delivery: either the transaction was
// authenticated, and exactly its signers' sequences grew by one and their missing keys were
// registered, or nothing changed.
func judgeRecords(before, after map[string]*authnv1.Account, t txSpec, ok bool) *Fail {
	signers := map[string][]byte{}
	for _, s := range t.Signers {
		signers[key(s.Key).addr] = key(s.Key).pub
	}
	authenticated := ok
	for a := range signers {
		if b, x := before[a], after[a]; b != nil && x != nil && b.Sequence != x.Sequence {
			authenticated = true
		}
	}
	for _, a := range sortedKeys(before) {
		b, x := before[a], after[a]
		if x == nil {
			return failf("gone", "the account %s is gone", nick(a))
		}
		pub, signed := signers[a]
		want := proto.Clone(b).(*authnv1.Account)
		if authenticated && signed {
			want.Sequence++
			if b.PubKey == nil {
				got, err := keyBytes(x)
				if err != nil || !bytes.Equal(got, pub) {
					return failf("key-not-registered", "%s signed with the key %x and had none registered: registered now is %x %v (%v)", nick(a), pub, got, err, x)
				}
				want.PubKey = x.PubKey
			}
		}
		if !proto.Equal(x, want) {
			return failf("record", "the account %s was %v, is %v, should be %v (authenticated: %v, a signer: %v)", nick(a), b, x, want, authenticated, signed)
		}
	}
	for _, a := range sortedKeys(after) {
		if before[a] == nil && (after[a].PubKey != nil || after[a].Sequence != 0) {
			return failf("new", "the new account %s is %v", nick(a), after[a])
		}
	}
	return nil
}

func c37(c *Ctx) {
	c.Rule = "transactions by every ordered set of up to 3 (thorough: 4) out of 6 accounts of which two have no key, two their own and two another's, with messages that succeed, fail at each stage or transfer to new addresses, each followed by a second transaction; histories; up to 33 (129) signers; every account record before and after each delivery"
	for i := 0; i < 9; i++ {
		key(i)
	}
	cfg := func() appCfg {
		var g []genAcct
		for i := 0; i < 6; i++ {
			a := genAcct{Addr: key(i).addr, Balance: []cn{{"test", "100"}}}
			switch i % 3 {
			case 1:
				a.Pub = key(i).pub
			case 2:
				a.Pub = key(i + 2).pub
			}
			if i >= 3 {
				a.Seq = uint64(i * 50)
			}
			g = append(g, a)
		}
		return appCfg{Accounts: withCollector(append(g, genAcct{Addr: key(7).addr, NoAcct: true, Balance: []cn{{"test", "5"}}})),
			Extra: []module.Module{postAuthModule{"p1"}, postAuthModule{"p2"}}}
	}
	msgs := [][]msgSpec{
		{putMsg("n1", "x", "")},
		{putMsg("n1", "x", "fail")},
		{putMsg("n1", "x", ""), putMsg("n2", "x", "panic")},
		{putMsg("n1", "x", "refuse1")},
		{putMsg("n1", "x", "post")},
		{hiddenMsg("n", "x")},
		nil, // replaced by a transfer of the first signer to a new address and to another account
		nil, // replaced by a transfer that is not covered
	}
	build := func(w world, ks []int, m int) txSpec {
		ms := msgs[m]
		if ms == nil {
			ms = []msgSpec{sendMsg(key(ks[0]).addr, key(6).addr, cn{"test", []string{"1", "100000"}[m-6]}), sendMsg(key(ks[0]).addr, key((ks[0]+1)%6).addr, cn{"test", "1"})}
		}
		return mkSimple(ks, ms...)(w)
	}
	deliver := func(a *App, w world, t txSpec, desc func() string) (world, *Fail) {
		bd := dump(a.dbs)
		raw := t.bytes()
		a.check(raw)
		if d := dump(a.dbs); !d.equal(bd) {
			if f := judgeRecords(records(bd), records(d), txSpec{}, false); f != nil {
				f.Msg = "CheckTx: " + desc() + ": " + f.Msg
				return w, f
			}
		}
		r := a.deliver(raw)
		ad := dump(a.dbs)
		addN(&c.Transitions, 1)
		if f := judgeRecords(records(bd), records(ad), t, r.Code == 0); f != nil {
			f.Msg = fmt.Sprintf("%s (code %d %s): %s", desc(), r.Code, trunc(r.Log, 100), f.Msg)
			return w, f
		}
		return observeDump(ad), nil
	}

	type recCase struct {
		Signers []int `json:"signers"`
		Msg     int   `json:"msg"`
		Then    int   `json:"then"` // who signs the second one
		Bad     int   `json:"bad"`  // 1 the last signature is wrong, 2 the first sequence is, 3 4 a module fails after authentication
	}
	sets := func(n int, emit func([]int) bool) bool {
		for l := 1; l <= n; l++ {
			if !wordsLen(6, l, func(w []int) bool {
				for i := range w {
					for j := 0; j < i; j++ {
						if w[i] == w[j] {
							return true
						}
					}
				}
				return emit(append([]int{}, w...))
			}) {
				return false
			}
		}
		return true
	}
	Explore(c, "signers", func(emit func(recCase) bool) {
		sets(most(c, 3, 4), func(s []int) bool {
			for m := range msgs {
				for then := 0; then < 6; then++ {
					if !c.Thorough && len(s) > 2 && (then+m+s[0]+s[1])%4 != 0 {
						continue
					}
					if !emit(recCase{s, m, then, 0}) {
						return false
					}
				}
				for bad := 1; bad < 5; bad++ {
					if !c.Thorough && len(s) > 2 && (bad+m+s[1]+s[2])%4 != 0 {
						continue
					}
					if !emit(recCase{s, m, s[0], bad}) {
						return false
					}
				}
			}
			return true
		})
	}, func(w *Worker, rc recCase) *Fail {
		e := getApp(w, "c37", 5, cfg)
		t := build(e.w, rc.Signers, rc.Msg)
		switch rc.Bad {
		case 1:
			t.Signers[len(t.Signers)-1].Num += 1
		case 2:
			t.Signers[0].Seq++
		case 3:
			t.Memo = "p1:fail"
		case 4:
			t.Memo = "p2:fail"
		}
		cur, f := deliver(e.a, e.w, t, func() string { return fmt.Sprintf("%+v: %s", rc, t) })
		if f == nil && rc.Bad > 0 && !dump(e.a.dbs).equal(e.g) {
			return failf("refused-effect", "%+v: %s was refused with effect:%s", rc, t, e.g.diff(dump(e.a.dbs)))
		}
		if f == nil {
			t2 := build(cur, []int{rc.Then}, (rc.Msg+rc.Then)%len(msgs))
			cur, f = deliver(e.a, cur, t2, func() string { return fmt.Sprintf("%+v: second: %s", rc, t2) })
		}
		if f == nil {
			// the address which may have got its account now signs for the first time
			t3 := build(cur, []int{6}, 0)
			cur, f = deliver(e.a, cur, t3, func() string { return fmt.Sprintf("%+v: the new account: %s", rc, t3) })
		}
		addN(&c.Traces, 1)
		c.State(cur.json())
		return f
	})

	// all reachable records of few accounts
	ops := func() []appOp {
		var out []appOp
		add := func(name string, mk func(w world) txSpec) {
			out = append(out, appOp{name, func(a *App, w world) (world, *Fail) {
				t := mk(w)
				return deliver(a, w, t, func() string { return name + ": " + t.String() })
			}})
		}
		for _, s := range [][]int{{0}, {2}, {6}, {0, 1}, {3, 0}} {
			s := s
			for _, m := range []int{0, 1, 3} {
				m := m
				add(fmt.Sprintf("%v signs, messages %d", s, m), func(w world) txSpec { return build(w, s, m) })
			}
		}
		add("0 transfers to the new address", func(w world) txSpec { return build(w, []int{0}, 6) })
		add("3 transfers to the new address", func(w world) txSpec { return build(w, []int{3}, 6) })
		add("an unknown signer", func(w world) txSpec { return build(w, []int{7, 0}, 0) })
		return out
	}
	nops, name, mk := appSystem(cfg(), 5, ops)
	BFS(c, "histories", nops, most(c, 3, 4), 150000, name, mk, nil)

	bigSequences(c, "large sequences", "c37", cfg, func(before, after world, bd, ad Dump, t txSpec, check, code uint32) *Fail {
		f := judgeRecords(records(bd), records(ad), t, code == 0)
		if f != nil {
			f.Msg = fmt.Sprintf("%s (code %d): %s", t, code, f.Msg)
		}
		return f
	})

	// many signers
	const kinds = 4
	max := most(c, 33, 129)
	manyKeys(max + 2)
	Explore(c, "many signers", func(emit func(manyCase) bool) {
		manyGen(sizesTo(max), kinds, manyThin(c, kinds, 10), emit)
	}, func(w *Worker, cs manyCase) *Fail {
		e := getApp(w, "c37 many", 5, func() appCfg { return appCfg{Accounts: withCollector(manyAccounts(max + 2))} })
		cur := e.w
		order := upTo(cs.N)
		if cs.At >= 0 { // begins elsewhere
			order = append(order[cs.At:], order[:cs.At]...)
		}
		mode := []string{"", "fail", "refuse1", "panic"}[cs.Kind]
		for i := 0; i < 2; i++ {
			t := mkSimple(order, putMsg("n", "x", mode))(cur)
			var f *Fail
			if cur, f = deliver(e.a, cur, t, func() string { return fmt.Sprintf("%d signers from %d, %s, time %d", cs.N, cs.At, mode, i) }); f != nil {
				return f
			}
			order = order[:(len(order)+1)/2]
		}
		addN(&c.Traces, 1)
		return nil
	})
}
