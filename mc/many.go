package main

import (
	"fmt"
	"sort"
	"strings"
)

// This file has the long lists: many signers, many denominations, many accounts. Each
// swept over sizesTo and placesIn, so that nothing depends on a list being short.

// manyCase is a list of n elements with something odd at one place, or nowhere (-1).
type manyCase struct {
	N, At, Kind int
}

// manyGen emits every size, every place and every kind.
func manyGen(sizes []int, kinds int, thin func(manyCase) bool, emit func(manyCase) bool) {
	for _, n := range sizes {
		for _, p := range append([]int{-1}, placesIn(n)...) {
			for k := 0; k < kinds; k++ {
				if cs := (manyCase{n, p, k}); (p < 0 && k > 0) || thin != nil && thin(cs) {
					continue
				} else if !emit(cs) {
					return
				}
			}
		}
	}
}

// manyThin keeps one kind per place in long lists, unless thorough.
func manyThin(c *Ctx, kinds, from int) func(manyCase) bool {
	return func(cs manyCase) bool {
		return !c.Thorough && cs.N > from && cs.Kind > 0 && cs.Kind != 1+(cs.N+cs.At)%(kinds-1)
	}
}

// manyAccounts are n accounts, every third of which has not registered its key.
func manyAccounts(n int) []genAcct {
	var out []genAcct
	for i := 0; i < n; i++ {
		g := genAcct{Addr: key(i).addr, Pub: key(i).pub, Balance: []cn{{"test", "10"}, {"foo", fmt.Sprint(i%4 + 1)}}}
		if i%3 == 2 {
			g.Pub = nil
		}
		out = append(out, g)
	}
	return out
}

func upTo(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// manyKeys makes the keys in advance: workers share them.
func manyKeys(n int) {
	for i := 0; i < n; i++ {
		key(i)
	}
	key(900)
}

func most(c *Ctx, quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// manySequences: one wrong sequence among many signers.
func manySequences(c *Ctx) {
	const kinds = 5
	max := most(c, 33, 129)
	manyKeys(max + 2)
	cfg := func() appCfg { return appCfg{Accounts: withCollector(manyAccounts(max + 2))} }
	Explore(c, "many signers", func(emit func(manyCase) bool) {
		manyGen(sizesTo(max), kinds, manyThin(c, kinds, 10), emit)
	}, func(w *Worker, cs manyCase) *Fail {
		e := getApp(w, "c12 many", 5, cfg)
		cur := e.w
		deliver := func(t txSpec) *Fail {
			raw := t.bytes()
			bd := dump(e.a.dbs)
			ck := e.a.check(raw).Code
			r := e.a.deliver(raw)
			ad := dump(e.a.dbs)
			after := observeDump(ad)
			_, f := seqJudge(cur, after, bd, ad, t, ck, r.Code, false)
			cur = after
			addN(&c.Transitions, 1)
			return f
		}
		t := mkSimple(upTo(cs.N), putMsg("n", "x", ""))(cur)
		single := func(k int) txSpec { return mkSimple([]int{k}, putMsg("o", "x", ""))(cur) }
		switch {
		case cs.At < 0:
		case cs.Kind == 0:
			t.Signers[cs.At].Seq = 1
		case cs.Kind == 1:
			if f := deliver(single(cs.At)); f != nil { // it advances before
				return f
			}
		case cs.Kind == 2:
			if f := deliver(single(cs.At)); f != nil {
				return f
			}
			t.Signers[cs.At].Seq = 1 // and the transaction knows
		case cs.Kind == 3:
			if f := deliver(t); f != nil {
				return f
			}
			s := single(cs.At)
			s.Signers[0].Seq = 0 // that signer tries the used sequence alone
			if f := deliver(s); f != nil {
				return f
			}
			if f := deliver(single(cs.At)); f != nil {
				return f
			}
			t = mkSimple(upTo(cs.N), putMsg("n", "x", ""))(cur)
		case cs.Kind == 4:
			t.Signers[cs.At].Seq = 1 << 32
		}
		for i := 0; i < 2; i++ { // the second is a replay
			if f := deliver(t); f != nil {
				return f
			}
		}
		addN(&c.Traces, 1)
		return nil
	})
}

// manySignatures: one bad signature among many.
func manySignatures(c *Ctx) {
	const kinds = 9
	max := most(c, 66, 201)
	manyKeys(max + 2)
	cfg := func() appCfg { return appCfg{Accounts: withCollector(manyAccounts(max + 2))} }
	Explore(c, "many signers", func(emit func(manyCase) bool) {
		manyGen(sizesTo(max), kinds, manyThin(c, kinds, 8), emit)
	}, func(w *Worker, cs manyCase) *Fail {
		e := getApp(w, "c13 many", 5, cfg)
		t := mkSimple(upTo(cs.N), putMsg("n", "x", ""))(e.w)
		body, auth := t.parts()
		var sigs [][]byte
		for _, s := range t.Signers {
			sigs = append(sigs, key(s.Key).sign(signDoc(body, auth, chainID, s.Num)))
		}
		p := cs.At
		if p >= 0 {
			s := t.Signers[p]
			switch cs.Kind {
			case 0:
				sigs[p] = key(900).sign(signDoc(body, auth, chainID, s.Num))
			case 1:
				sigs[p] = key(s.Key).sign(signDoc(body, auth, chainID, s.Num+1))
			case 2:
				sigs = append(sigs[:p:p], sigs[p+1:]...)
			case 3:
				sigs = append(append(append([][]byte{}, sigs[:p]...), sigs[p]), sigs[p:]...)
			case 4:
				sigs[p] = nil
			case 5:
				sigs[p] = key(s.Key).sign(signDoc(body, nil, chainID, s.Num))
			case 6:
				if cs.N == 1 {
					return nil
				}
				sigs[p] = sigs[(p+1)%cs.N]
			case 7:
				sigs[p] = highS(sigs[p])
			case 8:
				if cs.N == 1 {
					return nil
				}
				q := cs.N - 1 - p
				if q == p {
					return nil
				}
				sigs[p], sigs[q] = sigs[q], sigs[p]
			}
		}
		raw := wTx(body, auth, sigs...)
		ck := e.a.check(raw)
		d1 := dump(e.a.dbs)
		r := e.a.deliver(raw)
		d2 := dump(e.a.dbs)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint("many ", ck.Code, r.Code))
		what := fmt.Sprintf("%d signers, alteration %d at signer %d: CheckTx %d %s, DeliverTx %d %s", cs.N, cs.Kind, p, ck.Code, trunc(ck.Log, 100), r.Code, trunc(r.Log, 100))
		if (ck.Code == 0) != (p < 0) || (r.Code == 0) != (p < 0) {
			if p < 0 {
				return failf("valid-refused", "%s", what)
			}
			return failf("forged-accepted", "%s", what)
		}
		if p >= 0 && (!d1.equal(e.g) || !d2.equal(e.g)) {
			return failf("refused-effect", "%s, with effect:%s", what, e.g.diff(d2))
		}
		return nil
	})
}

// manySpenders: many signers and many transfers, of which one has no signature.
func manySpenders(c *Ctx) {
	const kinds = 4
	max := most(c, 33, 129)
	manyKeys(max + 2)
	cfg := func() appCfg { return appCfg{Accounts: withCollector(manyAccounts(max + 2))} }
	Explore(c, "many spenders", func(emit func(manyCase) bool) {
		manyGen(sizesTo(max), kinds, manyThin(c, kinds, 10), emit)
	}, func(w *Worker, cs manyCase) *Fail {
		e := getApp(w, "c15 many", 5, cfg)
		var ms []msgSpec
		var ss []int
		for i := 0; i < cs.N; i++ {
			ms = append(ms, sendMsg(key(i).addr, key(max+1).addr, cn{"test", "2"}))
			ss = append(ss, i)
		}
		p := cs.At
		forged := -1
		if p >= 0 {
			switch cs.Kind {
			case 0: // spends from somebody who is not there
				ms[p] = sendMsg(key(max).addr, key(p).addr, cn{"test", "2"})
			case 1: // one of the spenders does not sign
				if cs.N == 1 {
					return nil
				}
				ss = append(ss[:p:p], ss[p+1:]...)
			case 2: // nor does this one, whose signature is made up
				forged = p
			case 3: // only this one signs for all the transfers
				if cs.N == 1 {
					return nil
				}
				ss = []int{p}
			}
		}
		t := mkSimple(ss, ms...)(e.w)
		body, auth := t.parts()
		signed := map[string]bool{}
		var sigs [][]byte
		for _, s := range t.Signers {
			k := key(s.Key)
			if s.Key == forged {
				k = key(900)
			} else {
				signed[k.addr] = true
			}
			sigs = append(sigs, k.sign(signDoc(body, auth, chainID, s.Num)))
		}
		o := e.a.obs(e.w, t, wTx(body, auth, sigs...), defLimits)
		addN(&c.Transitions, cs.N)
		addN(&c.Traces, 1)
		if f := c15Judge(e.a, o, signed); f != nil {
			return f
		}
		if forged >= 0 {
			if o.Resp.Code == 0 || !o.BeforeD.equal(o.AfterD) {
				return failf("forged-accepted", "%s\n  has effects although %d did not sign", o, forged)
			}
			return nil
		}
		if o.Out.OK && o.Resp.Code != 0 {
			return failf("owner-refused", "%s\n  the owners signed and it is refused", o)
		}
		return nil
	})
}

// manyCoins are lists of n coins in several orders, with an odd one at a place.
func manyCoins(cs manyCase, order int) []cn {
	var l []cn
	for i := 0; i < cs.N; i++ {
		l = append(l, cn{fmt.Sprintf("d%03d", i), fmt.Sprint(1 + i%3)})
	}
	if p := cs.At; p >= 0 {
		switch cs.Kind {
		case 0: // more than there is
			l[p].A = "51"
		case 1:
			l[p].A = "0"
		case 2: // everything
			l[p].A = "50"
		case 3:
			l[p].A = "-1"
		case 4: // unknown denomination
			l[p].D = "zzz"
		case 5: // the same denomination again
			l[p].D = fmt.Sprintf("d%03d", (p+cs.N/2)%cs.N)
		case 6:
			l[p].D = ""
		}
	}
	switch order {
	case 1:
		sort.SliceStable(l, func(i, j int) bool { return l[i].D > l[j].D })
	case 2:
		l = append(append([]cn{}, l[cs.N/2:]...), l[:cs.N/2]...)
	}
	return l
}

const coinKinds = 7

// manyBalance holds 50 of every denomination that step divides.
func manyBalance(n, step int) (out []cn) {
	for i := 0; i < n; i += step {
		out = append(out, cn{fmt.Sprintf("d%03d", i), "50"})
	}
	return
}

type coinsCase struct {
	manyCase
	Order, To int
}

// manyDenominations: transfers of many denominations, and among many accounts.
func manyDenominations(c *Ctx) {
	max := most(c, 66, 257)
	const accounts = 140
	manyKeys(accounts)
	cfg := func() appCfg {
		acc := manyAccounts(accounts)
		acc[0].Balance = manyBalance(max+1, 1)
		acc[1].Balance = manyBalance(max+1, 2)
		acc[2].Balance = manyBalance(1, 1)
		return appCfg{Accounts: acc[:4]}
	}
	Explore(c, "many denominations", func(emit func(coinsCase) bool) {
		i := 0
		manyGen(sizesTo(max), coinKinds, manyThin(c, coinKinds, 8), func(cs manyCase) bool {
			i++
			for o := 0; o < 3; o++ {
				for to := 0; to < 5; to++ {
					if to > 0 && !c.Thorough && to != 1+(i+o)%4 {
						continue
					}
					if to == 0 && (i+o)%4 != 0 && !c.Thorough {
						continue
					}
					if !emit(coinsCase{cs, o, to}) {
						return false
					}
				}
			}
			return true
		})
	}, func(w *Worker, cs coinsCase) *Fail {
		e := getApp(w, "c14 many", 5, cfg)
		t := mkSimple([]int{0}, sendMsg(key(0).addr, key(cs.To).addr, manyCoins(cs.manyCase, cs.Order)...))(e.w)
		t.Fee = []cn{{"d000", "0"}}
		o := e.deliverTx(e.w, t, defLimits)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint("many ", o.Resp.Code))
		return c14Judge(e.a, o)
	})

	type pairCase struct{ From, To int }
	Explore(c, "many accounts", func(emit func(pairCase) bool) {
		for _, i := range placesIn(accounts) {
			for j := 0; j < accounts; j++ {
				if !c.Thorough && (i+j)%5 != 0 && i != j {
					continue
				}
				if !emit(pairCase{i, j}) {
					return
				}
			}
		}
	}, func(w *Worker, cs pairCase) *Fail {
		e := getApp(w, "c14 accounts", 5, func() appCfg { return appCfg{Accounts: manyAccounts(accounts)} })
		o := e.deliverTx(e.w, mkSimple([]int{cs.From}, sendMsg(key(cs.From).addr, key(cs.To).addr, cn{"test", "5"}, cn{"foo", "1"}))(e.w), defLimits)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		return c14Judge(e.a, o)
	})
}

// manyFees: fees of many denominations, and the payer among many signers.
func manyFees(c *Ctx) {
	max := most(c, 66, 257)
	manyKeys(max + 2)
	cfg := func(col bool) func() appCfg {
		return func() appCfg {
			acc := manyAccounts(max + 2)
			acc[0].Balance = manyBalance(max+1, 1)
			acc[1].Balance = manyBalance(max+1, 2)
			cf := appCfg{Accounts: acc[:4]}
			if col {
				cf.Accounts = append(cf.Accounts, genAcct{Addr: feeCollector, Balance: manyBalance(max+1, 3)})
			}
			return cf
		}
	}
	Explore(c, "many denominations", func(emit func(coinsCase) bool) {
		manyGen(sizesTo(max), coinKinds, manyThin(c, coinKinds, 8), func(cs manyCase) bool {
			for o := 0; o < 3; o++ {
				for k := 0; k < 4; k++ {
					if !c.Thorough && (k+cs.N+cs.At+o)%4 != 0 {
						continue
					}
					if !emit(coinsCase{cs, o, k}) {
						return false
					}
				}
			}
			return true
		})
	}, func(w *Worker, cs coinsCase) *Fail {
		e := getApp(w, fmt.Sprint("c16 many", cs.To&1), 5, cfg(cs.To&1 == 0))
		m := putMsg("n", "x", "")
		if cs.To&2 != 0 {
			m = putMsg("n", "x", "fail")
		}
		t := mkSimple([]int{0}, m)(e.w)
		t.Fee = manyCoins(cs.manyCase, cs.Order)
		o, f := c16Tx(e, e.w, t)
		addN(&c.Transitions, 2)
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint("many ", o.Resp.Code))
		return f
	})
	const kinds = 3
	max = most(c, 33, 101)
	Explore(c, "many signers", func(emit func(manyCase) bool) {
		manyGen(sizesTo(max), kinds, manyThin(c, kinds, 20), emit)
	}, func(w *Worker, cs manyCase) *Fail {
		e := getApp(w, "c16 signers", 5, func() appCfg { return appCfg{Accounts: withCollector(manyAccounts(max + 2))} })
		cur := e.w
		order := upTo(cs.N)
		fee := []cn{{"test", "4"}}
		payer := ""
		if p := cs.At; p >= 0 {
			switch cs.Kind {
			case 0: // states who pays
				payer = key(p).addr
			case 1: // pays by signing first
				order[0], order[p] = order[p], order[0]
			case 2: // states who pays, which it cannot
				payer = key(p).addr
				fee[0].A = "11"
			}
		}
		t := mkSimple(order, putMsg("n", "x", ""))(cur)
		t.Fee, t.Payer = fee, payer
		o, f := c16Tx(e, cur, t)
		addN(&c.Transitions, 2)
		addN(&c.Traces, 1)
		c.Outcome(strings.Join([]string{"signers", fmt.Sprint(o.Resp.Code)}, " "))
		return f
	})
}
