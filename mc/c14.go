package main

import (
	"encoding/hex"
	"fmt"
	"net/url"
	"strings"
	"unicode/utf8"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func init() {
	register("C14", c14)
	register("C15", c15)
	register("C16", c16)
}

// c14Judge: exact movement on success, no movement beyond the fee otherwise.
func c14Judge(a *App, o txObs) *Fail {
	if b := badBalance(o.After); b != "" {
		return failf("malformed-balance", "%s\n  %s", o, b)
	}
	if x, y := totalStr(o.Before.total()), totalStr(o.After.total()); x != y {
		return failf("not-conserved", "%s\n  the total was %s and is %s: %s", o, x, y, balDiff(o.Before, o.After))
	}
	if o.Resp.Code == 0 {
		if !o.Out.OK {
			return failf("invalid-transfer", "%s\n  the transfer is accepted: %s", o, balDiff(o.Before, o.After))
		}
		if d := balDiff(o.Want, o.After); d != "" {
			return failf("wrong-movement", "%s\n  %s", o, d)
		}
		return nil
	}
	if o.Out.OK {
		return failf("valid-refused", "%s\n  a valid transfer is refused", o)
	}
	// nothing but the fee may have moved
	payer := o.Spec.Payer
	if payer == "" && len(o.Spec.Signers) > 0 {
		payer = key(o.Spec.Signers[0].Key).addr
	}
	for _, h := range holders(o.Before, o.After) {
		for _, d := range denoms(o.Before, o.After) {
			x := delta(o.Before, o.After, h, d)
			if x.Sign() == 0 || h == payer && x.Sign() < 0 || h == feeCollector && x.Sign() > 0 {
				continue
			}
			return failf("refused-effect", "%s\n  the refused transfer moved coins: %s", o, balDiff(o.Before, o.After))
		}
	}
	return nil
}

type xferCase struct {
	From, To int
	Amt      []cn
	Two      bool // a second, valid transfer follows
}

func c14Accounts() []genAcct {
	return append(stdAccounts(),
		genAcct{Addr: key(4).addr, Pub: key(4).pub, Balance: []cn{{"test", "5"}, {"foo", pow2s(255, -3)}, {"big", pow2s(255, -1)}}},
		genAcct{Addr: key(5).addr, Pub: key(5).pub, Balance: []cn{{"test", pow2s(64, 5)}, {"foo", pow2s(64, 0)}, {"big", "3"}}},
		genAcct{Addr: feeCollector, Balance: []cn{{"test", "1"}}},
	)
}

func xferTo(i int) string {
	switch i {
	case 6:
		return feeCollector
	case 7:
		return "somebody"
	case 8:
		return ""
	case 9:
		return "x/y z"
	case 10:
		return strings.Repeat("n", 200)
	}
	return key(i).addr
}

func c14(c *Ctx) {
	c.Rule = "every transfer between colliding accounts (self, unknown, without balance, fee collector, unusual names) over an alphabet of amount lists (0, 1, boundary, overdraft, 2^64, 2^255, several denominations in every order, duplicates, malformed), as a signed transaction; breadth-first histories of transfers. After each: exact movement per denomination, everybody else untouched, totals constant."
	for i := 0; i < 6; i++ {
		key(i)
	}
	cfg := func() appCfg { return appCfg{Accounts: c14Accounts()} }
	run := func(w *Worker, cs xferCase) *Fail {
		e := getApp(w, "c14", 5, cfg)
		ms := []msgSpec{sendMsg(key(cs.From).addr, xferTo(cs.To), cs.Amt...)}
		if cs.Two {
			ms = append(ms, sendMsg(key(cs.From).addr, key(0).addr, cn{"test", "1"}))
		}
		o := e.deliverTx(e.w, mkSimple([]int{cs.From}, ms...)(e.w), defLimits)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.State(o.After.json())
		return c14Judge(e.a, o)
	}
	var lists [][]cn
	one := []cn{}
	for _, d := range []string{"test", "foo", "big", "zzz"} {
		for _, a := range []string{"0", "1", "2", "3", "4", "5", "9", "10", "11", pow2s(64, -1), pow2s(64, 0), pow2s(64, 4), pow2s(64, 5), pow2s(255, -4), pow2s(255, -3), pow2s(255, -1)} {
			one = append(one, cn{d, a})
		}
	}
	lists = append(lists, nil)
	for _, x := range one {
		lists = append(lists, []cn{x})
	}
	two := []cn{{"test", "0"}, {"test", "1"}, {"test", "9"}, {"test", "10"}, {"foo", "0"}, {"foo", "1"}, {"foo", "3"}, {"foo", "4"}, {"big", "2"}, {"zzz", "1"}, {"zzz", "0"}}
	for _, x := range two {
		for _, y := range two {
			lists = append(lists, []cn{x, y})
		}
	}
	var bad [][]cn
	for _, x := range []cn{{"test", "-1"}, {"test", ""}, {"test", "1.5"}, {"test", "0.5"}, {"test", "1e0"}, {"test", "0x1"}, {"test", " 1"}, {"test", "+1"}, {"", "1"}, {"", ""}, {"te", "1"}, {"1test", "1"}, {"test", "1foo,1"}, {"foo,1test", "1"}, {"te st", "1"}, {"test", pow2s(255, 0)}, {"test", pow2s(256, 1)}, {"test\x00", "1"}} {
		bad = append(bad, []cn{x}, []cn{x, {"foo", "1"}}, []cn{{"foo", "1"}, x}, []cn{x, {"test", "1"}})
	}
	Explore(c, "transfers", func(emit func(xferCase) bool) {
		for _, l := range append(append([][]cn{}, lists...), bad...) {
			tos := []int{0, 1, 3, 7}
			if len(l) < 2 {
				tos = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
			}
			for _, from := range []int{0, 2, 4, 5} {
				if from == 2 && len(l) > 1 {
					continue
				}
				for _, to := range tos {
					if !emit(xferCase{from, to, l, false}) {
						return
					}
				}
			}
			if c.Thorough || len(l) == 1 {
				for _, from := range []int{0, 4} {
					for _, to := range []int{0, 1, 3} {
						if !emit(xferCase{from, to, l, true}) {
							return
						}
					}
				}
			}
		}
	}, run)

	three := func(emit func(xferCase) bool) {
		ds := []string{"test", "foo", "big"}
		perms(3, func(p []int) bool {
			return wordsLen(3, 3, func(ix []int) bool {
				var l []cn
				for i, x := range p {
					l = append(l, cn{ds[x], []string{"0", "1", "6"}[ix[i]]})
				}
				for _, to := range []int{1, 3, 4, 5} {
					for _, from := range []int{4, 5} {
						if !emit(xferCase{from, to, l, false}) {
							return false
						}
					}
				}
				return true
			})
		})
	}
	Explore(c, "three denominations", three, run)
	manyDenominations(c)

	// balances as they may be stored: in every order, with and without zero amounts
	stored := func() appCfg {
		cfg := appCfg{Accounts: stdAccounts()}
		held := []cn{{"test", "9"}, {"foo", "7"}, {"big", "5"}}
		i := 0
		perms(3, func(p []int) bool {
			g := genAcct{Addr: fmt.Sprintf("s%d", i)}
			for _, x := range p {
				g.Balance = append(g.Balance, held[x])
			}
			cfg.Accounts = append(cfg.Accounts, g)
			i++
			return true
		})
		for _, b := range [][]cn{{{"foo", "7"}, {"big", "5"}}, {{"test", "9"}, {"foo", "7"}}, {{"test", "9"}, {"foo", "0"}, {"big", "5"}}, {{"test", "0"}}} {
			cfg.Accounts = append(cfg.Accounts, genAcct{Addr: fmt.Sprintf("s%d", i), Balance: b})
			i++
		}
		return cfg
	}
	type storedCase struct {
		From, To int
		Amt      []cn
	}
	Explore(c, "stored balances", func(emit func(storedCase) bool) {
		var lists [][]cn
		for mask := 1; mask < 8; mask++ {
			var ds []string
			for i, d := range []string{"test", "foo", "big"} {
				if mask>>i&1 == 1 {
					ds = append(ds, d)
				}
			}
			perms(len(ds), func(p []int) bool {
				return wordsLen(3, len(ds), func(ix []int) bool {
					var l []cn
					for i, x := range p {
						l = append(l, cn{ds[x], []string{"1", "5", "0"}[ix[i]]})
					}
					if c.Thorough || len(l) < 3 || ix[0] != 2 && ix[1] != 2 {
						lists = append(lists, l)
					}
					return true
				})
			})
		}
		for from := 0; from < 10; from++ {
			for to := 0; to < 10; to++ {
				if !c.Thorough && to != 0 && to != from && to != 5 && to != 8 {
					continue
				}
				for _, l := range lists {
					if !emit(storedCase{from, to, l}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs storedCase) *Fail {
		e := getApp(w, "c14 stored", 5, stored)
		from, to := fmt.Sprintf("s%d", cs.From), fmt.Sprintf("s%d", cs.To)
		before := e.w
		for i := 0; i < 2; i++ { // the second finds them as the first stores them
			want := before.clone()
			ok := want.move(from, to, cs.Amt)
			err := e.a.rt.Deliver(user.NewUsersFromString(from), &bankv1.MsgSendCoins{FromAddress: from, ToAddress: to, Amount: toCoins(cs.Amt)})
			after := e.a.observe()
			addN(&c.Transitions, 1)
			what := fmt.Sprintf("%s sends %v to %s (%v, %v), error %v", from, cs.Amt, to, before.Bal[from], before.Bal[to], err)
			if ok != (err == nil) {
				return failf(fmt.Sprintf("stored-%v", ok), "%s, want success=%v", what, ok)
			}
			if d := balDiff(want, after); d != "" {
				return failf("wrong-movement", "%s: %s", what, d)
			}
			c.Outcome(fmt.Sprint("stored ", ok))
			before = after
		}
		addN(&c.Traces, 1)
		return nil
	})

	ops := func() []appOp {
		var out []appOp
		add := func(k int, ms ...msgSpec) {
			t := mkSimple([]int{k}, ms...)
			out = append(out, txOp(fmt.Sprint(t(world{})), defLimits, t, c14Judge))
		}
		A, B, C, D := key(0).addr, key(1).addr, key(2).addr, key(3).addr
		add(0, sendMsg(A, B, cn{"test", "4"}))
		add(0, sendMsg(A, B, cn{"foo", "2"}, cn{"test", "1"}))
		add(0, sendMsg(A, A, cn{"test", "3"}))
		add(0, sendMsg(A, D, cn{"test", "1"}, cn{"foo", "1"}))
		add(1, sendMsg(B, A, cn{"test", "5"}))
		add(1, sendMsg(B, A, cn{"foo", "2"}), sendMsg(B, C, cn{"test", "1"}))
		add(2, sendMsg(C, D, cn{"test", "1"}))
		add(2, sendMsg(C, B, cn{"test", "0"}))
		add(2, sendMsg(C, feeCollector, cn{"test", "2"}))
		out = append(out, txOp("D gives everything back", defLimits, func(w world) txSpec {
			t := mkSimple([]int{3}, sendMsg(D, A, cn{"foo", "1"}))(w)
			return t
		}, c14Judge))
		return out
	}
	n, name, mk := appSystem(appCfg{Accounts: stdAccounts()}, 5, ops)
	depth := 3
	if c.Thorough {
		depth = 5
	}
	BFS(c, "histories", n, depth, 150000, name, mk, nil)
}

// ---- C15 ----

type spendCase struct {
	Signers []int // who is declared
	Forged  []int // declared signers whose signature is made with another key
	Payer   int   // index, -1 for none; 6 is the fee collector
	Msgs    []int
}

// c15Msgs: transfers out of everybody, and every internal operation.
func c15Msgs() []msgSpec {
	A, B, C, D := key(0).addr, key(1).addr, key(2).addr, key(3).addr
	ms := []msgSpec{
		putMsg("n", "x", ""),
		sendMsg(A, B, cn{"test", "1"}), sendMsg(B, A, cn{"test", "1"}), sendMsg(C, A, cn{"test", "1"}),
		sendMsg(feeCollector, A, cn{"test", "1"}), sendMsg("bank", A, cn{"test", "1"}),
		sendMsg(A, D, cn{"test", "2"}, cn{"foo", "1"}), sendMsg(B, D, cn{"test", "2"}),
	}
	alias := sendMsg(B, A, cn{"test", "2"})
	alias.URL = "/cosmos.bank.v1beta1.MsgSend"
	return append(ms, alias)
}

func c15Judge(a *App, o txObs, signed map[string]bool) *Fail {
	for _, h := range holders(o.Before, o.After) {
		if signed[h] {
			continue
		}
		for _, d := range denoms(o.Before, o.After) {
			if delta(o.Before, o.After, h, d).Sign() < 0 {
				return failf("spent-without-signature", "%s\n  %s did not sign and loses coins: %s", o, nick(h), balDiff(o.Before, o.After))
			}
		}
	}
	return nil
}

func c15(c *Ctx) {
	c.Rule = "every combination of declared signers, forged signatures, fee payer and one or two messages over transfers out of every account; nobody who did not really sign loses coins, and the owner's own transfers work. Every transition that is not external, with empty and filled bodies, by every signer set, is refused without any effect beyond fee and sequence."
	for i := 0; i < 6; i++ {
		key(i)
	}
	msgs := c15Msgs()
	cfg := func() appCfg { return appCfg{Accounts: withCollector(stdAccounts())} }
	run := func(w *Worker, cs spendCase) *Fail {
		e := getApp(w, "c15", 5, cfg)
		var ms []msgSpec
		for _, i := range cs.Msgs {
			ms = append(ms, msgs[i])
		}
		t := mkSimple(cs.Signers, ms...)(e.w)
		if cs.Payer >= 0 {
			t.Payer = xferTo(cs.Payer)
		}
		body, auth := t.parts()
		signed := map[string]bool{}
		var sigs [][]byte
		for _, s := range t.Signers {
			k := key(s.Key)
			forged := false
			for _, f := range cs.Forged {
				forged = forged || f == s.Key
			}
			if forged {
				k = key(5)
			} else {
				signed[k.addr] = true
			}
			sigs = append(sigs, k.sign(signDoc(body, auth, chainID, s.Num)))
		}
		o := e.a.obs(e.w, t, wTx(body, auth, sigs...), defLimits)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.State(o.After.json())
		if f := c15Judge(e.a, o, signed); f != nil {
			return f
		}
		if len(cs.Forged) > 0 {
			if o.Resp.Code == 0 || !o.BeforeD.equal(o.AfterD) {
				return failf("forged-accepted", "%s\n  has effects although %v did not sign", o, cs.Forged)
			}
			return nil
		}
		if o.Out.OK && o.Resp.Code != 0 {
			return failf("owner-refused", "%s\n  the owners signed and it is refused", o)
		}
		return nil
	}
	Explore(c, "spending", func(emit func(spendCase) bool) {
		var mseqs [][]int
		for i := range msgs {
			mseqs = append(mseqs, []int{i})
		}
		for i := range msgs {
			for j := range msgs {
				mseqs = append(mseqs, []int{i, j})
			}
		}
		sets := [][]int{{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 1}, {0, 1, 2}, {0, 0}, {2, 0}, {1, 2}}
		for _, ss := range sets {
			for p := -1; p <= 6; p++ {
				if p > 3 && p != 6 {
					continue
				}
				for _, m := range mseqs {
					if len(m) == 2 && p > 1 && !c.Thorough {
						continue
					}
					if !emit(spendCase{ss, nil, p, m}) {
						return
					}
					if len(m) == 1 {
						for mask := 1; mask < 1<<len(ss); mask++ {
							var f []int
							for i, k := range ss {
								if mask>>i&1 == 1 {
									f = append(f, k)
								}
							}
							if !emit(spendCase{ss, f, p, m}) {
								return
							}
						}
					}
				}
			}
		}
	}, run)

	manySpenders(c)
	namesake(c)

	internal := internalMsgs()
	c.Set("internal transitions", len(internal))
	type intCase struct {
		Msg     int
		Signers []int
		Before  bool // after a valid message
	}
	Explore(c, "internal operations", func(emit func(intCase) bool) {
		for m := range internal {
			for _, ss := range [][]int{{0}, {0, 1}, {2}} {
				for _, b := range []bool{false, true} {
					if !emit(intCase{m, ss, b}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs intCase) *Fail {
		e := getApp(w, "c15", 5, cfg)
		ms := []msgSpec{internal[cs.Msg]}
		if cs.Before {
			ms = append([]msgSpec{putMsg("n", "x", "")}, ms...)
		}
		o := e.deliverTx(e.w, mkSimple(cs.Signers, ms...)(e.w), defLimits)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		if o.Resp.Code == 0 {
			return failf("internal-accepted", "%s\n  %s %x succeeds for external accounts", o, internal[cs.Msg].URL, internal[cs.Msg].Body)
		}
		for i := range o.BeforeD {
			for k, v := range o.AfterD[i] {
				if x, ok := o.BeforeD[i][k]; (!ok || x != v) && !feeKey(k) {
					return failf("internal-effect", "%s\n  refused %s changed %s", o, internal[cs.Msg].URL, q(k))
				}
			}
			for k := range o.BeforeD[i] {
				if _, ok := o.AfterD[i][k]; !ok {
					return failf("internal-effect", "%s\n  refused %s removed %s", o, internal[cs.Msg].URL, q(k))
				}
			}
		}
		for _, h := range holders(o.Before, o.After) {
			for _, d := range denoms(o.Before, o.After) {
				x := delta(o.Before, o.After, h, d)
				if x.Sign() > 0 && h != feeCollector || x.Sign() < 0 && h != key(cs.Signers[0]).addr {
					return failf("internal-effect", "%s\n  refused %s moved coins: %s", o, internal[cs.Msg].URL, balDiff(o.Before, o.After))
				}
			}
		}
		return nil
	})
}

// ---- C16 ----

type feeCase struct {
	Fee     []cn
	Signers []int
	Payer   int
	Msgs    []int
	Twice   bool
}

func c16Judge(a *App, o txObs) *Fail {
	if o.Out.Paid {
		if d := balDiff(o.Want, o.After); d != "" {
			if balDiff(o.Before, o.After) == "" {
				return failf("fee-not-charged", "%s\n  %s", o, d)
			}
			return failf("fee-wrong", "%s\n  %s", o, d)
		}
		if o.Out.OK && o.Resp.Code != 0 {
			return failf("coverable-refused", "%s\n  the payer covers the fee", o)
		}
		return nil
	}
	if o.Resp.Code == 0 {
		return failf("uncovered-accepted", "%s\n  accepted: %s", o, balDiff(o.Before, o.After))
	}
	if !o.BeforeD.equal(o.AfterD) {
		return failf("uncovered-effect", "%s\n  refused with effect:%s", o, o.BeforeD.diff(o.AfterD))
	}
	return nil
}

// c16Tx checks the transaction and then delivers it: the mempool refuses what the payer
// cannot pay for, too.
func c16Tx(e *appEntry, w world, t txSpec) (txObs, *Fail) {
	ch := e.a.check(t.bytes())
	o := e.deliverTx(w, t, defLimits)
	if !o.Out.Paid && ch.Code == 0 {
		return o, failf("uncovered-checked", "%s\n  CheckTx admits it", o)
	}
	if o.Out.OK && ch.Code != 0 {
		return o, failf("coverable-unchecked", "%s\n  CheckTx refuses it: %s", o, ch.Log)
	}
	return o, c16Judge(e.a, o)
}

func c16(c *Ctx) {
	c.Rule = "every combination of fee list, signers, stated payer and succeeding or failing messages (including ones that move the payer's and the collector's coins), with a present and an absent fee collector, as delivered transactions; breadth-first histories. Balances afterwards compared with exactly one fee movement plus the messages' own."
	for i := 0; i < 6; i++ {
		key(i)
	}
	A, B, D := key(0).addr, key(1).addr, key(3).addr
	msgs := []msgSpec{putMsg("n", "x", ""), putMsg("n", "x", "fail"), putMsg("n", "x", "panic"), putMsg("n", "x", "refuse1"), hiddenMsg("n", "x"),
		sendMsg(A, B, cn{"test", "8"}), sendMsg(B, A, cn{"test", "6"}), sendMsg(A, feeCollector, cn{"test", "1"}), sendMsg(B, D, cn{"test", "1"}), sendMsg(A, A, cn{"test", "10"}), putMsg("n", "x", "post")}
	cfg := func(col bool) func() appCfg {
		return func() appCfg {
			if col {
				return appCfg{Accounts: withCollector(stdAccounts())}
			}
			return appCfg{Accounts: stdAccounts()}
		}
	}
	fees := [][]cn{{{"test", "0"}}, {{"test", "1"}}, {{"test", "3"}}, {{"test", "4"}}, {{"test", "6"}}, {{"test", "7"}}, {{"test", "10"}}, {{"test", "11"}}, {{"foo", "3"}}, {{"foo", "4"}},
		{{"foo", "1"}, {"test", "2"}}, {{"test", "2"}, {"foo", "1"}}, {{"test", "2"}, {"foo", "4"}}, {{"foo", "0"}, {"test", "1"}}, {{"zzz", "1"}}, {{"zzz", "0"}},
		{{"test", "1"}, {"test", "1"}}, {{"test", "1"}, {"test", "0"}}, {{"test", "-1"}}, {{"test", "1.9"}}, {{"test", ""}}, {{"", "1"}}, {{"", ""}}, {{"test", pow2s(64, 0)}}, {{"test", pow2s(256, 0)}}, {{"te", "1"}}, {{"test", "1"}, {"foo", "-1"}}, {{"test", "1,"}, {"foo", "1"}}}
	run := func(col bool) func(w *Worker, cs feeCase) *Fail {
		return func(w *Worker, cs feeCase) *Fail {
			e := getApp(w, fmt.Sprint("c16", col), 5, cfg(col))
			var ms []msgSpec
			for _, i := range cs.Msgs {
				ms = append(ms, msgs[i])
			}
			cur := e.w
			for i := 0; i < 2; i++ {
				t := mkSimple(cs.Signers, ms...)(cur)
				t.Fee = cs.Fee
				if cs.Payer >= 0 {
					t.Payer = xferTo(cs.Payer)
				}
				o, f := c16Tx(e, cur, t)
				addN(&c.Transitions, 1)
				c.State(o.After.json())
				if f != nil {
					return f
				}
				if !cs.Twice {
					break
				}
				cur = o.After
			}
			addN(&c.Traces, 1)
			return nil
		}
	}
	gen := func(emit func(feeCase) bool) {
		for _, f := range fees {
			for _, ss := range [][]int{{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 0, 1}, {0, 0}} {
				for _, p := range []int{-1, 0, 1, 2, 3, 6} {
					for m := range msgs {
						if !emit(feeCase{f, ss, p, []int{m}, m < 3 && p < 1}) {
							return
						}
					}
					if p < 1 {
						for _, two := range [][]int{{0, 1}, {5, 1}, {5, 5}, {6, 5}, {7, 2}, {1, 5}} {
							if !emit(feeCase{f, ss, p, two, false}) {
								return
							}
						}
					}
				}
			}
		}
	}
	Explore(c, "fees", gen, run(true))
	few := func(emit func(feeCase) bool) {
		gen(func(cs feeCase) bool {
			if !c.Thorough && (cs.Payer > 0 || len(cs.Msgs) > 1) {
				return true
			}
			return emit(cs)
		})
	}
	Explore(c, "first fee ever", few, run(false))

	// every short list of coins as fee: zero, coverable and uncoverable amounts in every order
	type listCase struct{ Fee []cn }
	Explore(c, "fee lists", func(emit func(listCase) bool) {
		letters := []cn{{"test", "0"}, {"test", "1"}, {"test", "10"}, {"test", "11"}, {"foo", "0"}, {"foo", "3"}, {"foo", "4"}, {"zzz", "0"}, {"zzz", "1"}}
		if c.Thorough {
			letters = append(letters, cn{"test", "00"}, cn{"test", "-1"}, cn{"aaa", "0"}, cn{"aaa", "1"}, cn{"foo", ""}, cn{"Test", "1"})
		}
		for l := 0; l <= 3; l++ {
			if !wordsLen(len(letters), l, func(ix []int) bool {
				var fee []cn
				for _, i := range ix {
					fee = append(fee, letters[i])
				}
				return emit(listCase{fee})
			}) {
				return
			}
		}
	}, func(w *Worker, cs listCase) *Fail {
		e := getApp(w, "c16 lists", 5, cfg(true))
		t := mkSimple([]int{0}, msgs[0])(e.w)
		t.Fee = cs.Fee
		o, f := c16Tx(e, e.w, t)
		addN(&c.Traces, 1)
		addN(&c.Transitions, 2)
		c.State(o.After.json())
		return f
	})

	manyFees(c)

	// a collector that cannot take some of the denominations
	cols := [][]cn{{{"test", pow2s(255, -1)}}, {{"foo", pow2s(255, -1)}}, {{"foo", pow2s(255, -2)}, {"test", pow2s(255, -3)}}, {{"test", "1"}, {"zzz", "1"}}, {}}
	type colCase struct {
		Col, Msg int
		Fee      []cn
	}
	Explore(c, "collectors", func(emit func(colCase) bool) {
		for col := range cols {
			for m := range msgs {
				for mask := 1; mask < 8; mask++ {
					var ds []string
					for i, d := range []string{"test", "foo", "zzz"} {
						if mask>>i&1 == 1 {
							ds = append(ds, d)
						}
					}
					if !perms(len(ds), func(p []int) bool {
						return wordsLen(4, len(ds), func(ix []int) bool {
							var l []cn
							for i, x := range p {
								l = append(l, cn{ds[x], fmt.Sprint(ix[i])})
							}
							if !c.Thorough && (m > 1 && len(l) > 2 || len(l) > 2 && (ix[2]|ix[1]) > 1) {
								return true
							}
							return emit(colCase{col, m, l})
						})
					}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs colCase) *Fail {
		e := getApp(w, fmt.Sprint("c16 collector", cs.Col), 5, func() appCfg {
			return appCfg{Accounts: append(stdAccounts(), genAcct{Addr: feeCollector, Balance: cols[cs.Col]})}
		})
		t := mkSimple([]int{0}, msgs[cs.Msg])(e.w)
		t.Fee = cs.Fee
		addN(&c.Traces, 1)
		addN(&c.Transitions, 1)
		o := e.deliverTx(e.w, t, defLimits)
		c.State(o.After.json())
		return c16Judge(e.a, o)
	})

	// who pays, for signers with every relation between their sequences
	type payCase struct {
		Prior, Signers []int
		Payer          int
	}
	Explore(c, "payers", func(emit func(payCase) bool) {
		for _, prior := range [][]int{nil, {0}, {1}, {2}, {0, 0}, {1, 1}, {0, 1}, {0, 0, 1}, {1, 1, 0}, {2, 2, 1}, {1, 1, 2}} {
			for l := 1; l <= 3; l++ {
				if !wordsLen(3, l, func(ss []int) bool {
					for p := -1; p < 3; p++ {
						if !emit(payCase{prior, append([]int{}, ss...), p}) {
							return false
						}
					}
					return true
				}) {
					return
				}
			}
		}
	}, func(w *Worker, cs payCase) *Fail {
		e := getApp(w, "c16 payers", 5, cfg(true))
		cur := e.w
		for _, k := range cs.Prior {
			t := mkSimple([]int{k}, putMsg("p", "x", ""))(cur)
			t.Fee = []cn{{"test", "0"}}
			o := e.deliverTx(cur, t, defLimits)
			if f := c16Judge(e.a, o); f != nil {
				return f
			}
			cur = o.After
		}
		t := mkSimple(cs.Signers, putMsg("n", "x", ""))(cur)
		t.Fee = []cn{{"test", "2"}}
		if cs.Payer >= 0 {
			t.Payer = key(cs.Payer).addr
		}
		o, f := c16Tx(e, cur, t)
		c.State(o.After.json())
		addN(&c.Traces, 1)
		addN(&c.Transitions, 1+len(cs.Prior))
		return f
	})

	ops := func() []appOp {
		var out []appOp
		add := func(keys []int, fee []cn, payer string, ms ...msgSpec) {
			mk := func(w world) txSpec {
				t := mkSimple(keys, ms...)(w)
				t.Fee, t.Payer = fee, payer
				return t
			}
			out = append(out, txOp(fmt.Sprint(mk(world{})), defLimits, mk, c16Judge))
		}
		add([]int{0}, []cn{{"test", "3"}}, "", msgs[0])
		add([]int{0}, []cn{{"foo", "2"}}, "", msgs[1])
		add([]int{0, 1}, []cn{{"test", "2"}}, B, msgs[5])
		add([]int{1}, []cn{{"test", "4"}}, "", msgs[6])
		add([]int{1, 0}, []cn{{"test", "1"}, {"foo", "1"}}, A, msgs[2])
		add([]int{1}, []cn{{"foo", "1"}}, "", msgs[8])
		add([]int{2}, []cn{{"test", "3"}}, "", msgs[4])
		add([]int{2}, []cn{{"test", "1"}}, A, msgs[0])
		add([]int{0, 1}, []cn{{"test", "1"}}, "", msgs[0])
		add([]int{1, 0}, []cn{{"test", "1"}}, "", msgs[0])
		return out
	}
	n, name, mk := appSystem(cfg(false)(), 5, ops)
	depth := 3
	if c.Thorough {
		depth = 6
	}
	BFS(c, "histories", n, depth, 150000, name, mk, nil)
}

// likeNames are the names that differ from one or two signers' in little.
func likeNames() (out []string) {
	a, b := key(0).addr, key(1).addr
	seen := map[string]bool{a: true, b: true, key(2).addr: true}
	for _, x := range []string{
		" " + a, a + " ", " " + a + " ", "\t" + a, a + "\n", a + "\r\n", "\u00a0" + a, a + "\u200b", a + "\x00", "\x00" + a,
		strings.ToUpper(a), strings.Title(a), a[:len(a)-1] + strings.ToUpper(a[len(a)-1:]), strings.ToUpper(a[:6]) + a[6:],
		a[:len(a)-1], a[1:], a[:len(a)/2], a[:1], a[len(a)-6:], a[strings.IndexByte(a, '1')+1:], a[:strings.IndexByte(a, '1')], a[:strings.IndexByte(a, '1')+1],
		a + "x", "x" + a, a + a, a + "/", "/" + a, "bank/" + a, a + "/bank", "user:" + a, "system:" + a, "account:" + a, a + ":0", a + "@test", a + "*", "*", "%", ".*", "^" + a, "?",
		a + "," + b, b + "," + a, a + " " + b, a + b, a + "|" + b, a + ";", "[" + a + "]", "[" + a + " " + b + "]", "\"" + a + "\"", "'" + a + "'", "<nil>", "nil", "null", "0", "1", "cosmos", "bank", "authn", "distribution", "fee_collector", "runtime", "rbac",
		hex.EncodeToString(key(0).pub), hex.EncodeToString([]byte(a)), string(key(0).pub[:20]), url.QueryEscape(" " + a), "..", a + "\\", "{" + a + "}", a + "#", "~" + a,
	} {
		// the state's text cannot be but UTF-8, and no account is named alike twice
		if !seen[x] && x != "" && utf8.ValidString(x) {
			seen[x] = true
			out = append(out, x)
		}
	}
	return
}

// isModuleName: these have a role of their own and are no accounts.
var isModuleName = map[string]bool{"bank": true, "authn": true, "distribution": true, "runtime": true, "rbac": true}

// namesake: owners whose names are like those of the signers' keep their coins, whatever the signers
// ask for and whoever they say pays.
func namesake(c *Ctx) {
	type nameCase struct {
		Name   int
		Amount int // 0: 1, 1: all there is
		Set    int // of signers
		Payer  int // -1: none, 0: the namesake, 1: the second signer
		Msg    int // 0: from the namesake, 1: from the signer to the namesake, 2: both
	}
	names := likeNames()
	c.Set("namesakes", len(names))
	sets := [][]int{{0}, {1}, {0, 1}, {1, 0}}
	cfg := func() appCfg {
		as := withCollector(stdAccounts())
		have := map[string]bool{}
		for _, a := range as {
			have[a.Addr] = true
		}
		for _, n := range names {
			if !have[n] {
				as = append(as, genAcct{Addr: n, Balance: []cn{{"test", "7"}}, NoAcct: isModuleName[n]})
			}
		}
		return appCfg{Accounts: as}
	}
	Explore(c, "namesakes", func(emit func(nameCase) bool) {
		for n := range names {
			for s := range sets {
				for p := -1; p <= 1; p++ {
					for m := 0; m < 3; m++ {
						for am := 0; am < 2; am++ {
							if !emit(nameCase{n, am, s, p, m}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(w *Worker, cs nameCase) *Fail {
		e := getApp(w, "c15 namesakes", 5, cfg)
		name, amount := names[cs.Name], []string{"1", "7"}[cs.Amount]
		first := key(sets[cs.Set][0]).addr
		var ms []msgSpec
		if cs.Msg != 1 {
			ms = append(ms, sendMsg(name, key(2).addr, cn{"test", amount}))
		}
		if cs.Msg != 0 {
			ms = append(ms, sendMsg(first, name, cn{"test", "1"}))
		}
		t := mkSimple(sets[cs.Set], ms...)(e.w)
		switch cs.Payer {
		case 0:
			t.Payer = name
		case 1:
			t.Payer = key(1).addr
		}
		o := e.deliverTx(e.w, t, defLimits)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		signed := map[string]bool{}
		for _, k := range sets[cs.Set] {
			signed[key(k).addr] = true
		}
		if f := c15Judge(e.a, o, signed); f != nil {
			return f
		}
		if o.Out.OK && o.Resp.Code != 0 {
			return failf("owner-refused", "%s\n  the owners signed and it is refused", o)
		}
		if cs.Payer == 0 && o.Resp.Code == 0 {
			return failf("foreign-payer", "%s\n  %q pays and did not sign", o, name)
		}
		return nil
	})
}
