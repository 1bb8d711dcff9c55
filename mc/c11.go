package main

import (
	"fmt"
	"strings"

	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/module"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

func init() { register("C11", c11) }

// postAuthModule registers a post-authentication handler that fails or panics on demand.
type postAuthModule struct{ name string }

func (m postAuthModule) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named(m.name).WithPostAuthenticationHandler(postAuthFunc(func(req authentication.PostAuthenticationRequest) (r authentication.PostAuthenticationResponse, err error) {
		memo, cause := splitMode(req.Tx.Raw().(*authnv1.Tx).Body.Memo)
		switch memo {
		case m.name + ":fail":
			return r, refusal(cause, "post authentication failure")
		case m.name + ":panic":
			panic("post authentication panic")
		}
		return r, nil
	})).Build()
}

type postAuthFunc func(req authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error)

func (f postAuthFunc) Exec(req authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	return f(req)
}

func c11Msgs() []msgSpec {
	A, B, D := key(0).addr, key(1).addr, key(3).addr
	return []msgSpec{
		putMsg("n1", "x", ""), putMsg("n1", "y", ""), putMsg("n2", "x", "fail"), putMsg("n1", "z", "early"),
		putMsg("n3", "x", "post"), putMsg("n1", "w", "panic"), putMsg("n1", "", "delete"), putMsg("n4", "x", "refuse2"),
		putMsg("n2", "x", "notfound"),
		nestMsg("n1", "v", "n2", ""), nestMsg("n2", "v", "n1", "fail"), nestMsg("n2", "v", "n1", "panic"),
		hiddenMsg("n1", "h"),
		sendMsg(A, B, cn{"test", "2"}), sendMsg(A, D, cn{"test", "1"}), sendMsg(A, B, cn{"test", "1"}, cn{"foo", "9"}), sendMsg(B, A, cn{"test", "1"}),
		createMsg(D, nil), createMsg(B, nil),
	}
}

// c11Judge: all or nothing, and exactly the fee and sequence of an admitted failure.
func c11Judge(a *App, o txObs) *Fail {
	if o.Resp.Code == 0 {
		if !o.Out.OK {
			return failf("success-reported", "%s\n  DeliverTx reports success although a message fails", o)
		}
		if d := o.Want.diff(o.After); d != "" {
			return failf("partial-success", "%s\n  %s", o, d)
		}
		return nil
	}
	if o.Out.OK {
		return failf("failure-reported", "%s\n  DeliverTx reports failure although every message is valid; %s", o, o.Before.diff(o.After))
	}
	if d := o.Want.diff(o.After); d != "" {
		return failf("partial-failure", "%s\n  %s", o, d)
	}
	if !o.Out.Paid {
		if !o.BeforeD.equal(o.AfterD) {
			return failf("refused-effect", "%s\n  the stores changed:%s", o, o.BeforeD.diff(o.AfterD))
		}
		return nil
	}
	// beyond the world: nothing else in the stores may have changed
	if _, ok := o.Before.Bal[feeCollector]; !ok {
		return nil
	}
	for i := range o.BeforeD {
		for k, v := range o.AfterD[i] {
			if w, ok := o.BeforeD[i][k]; (!ok || w != v) && !feeKey(k) {
				return failf("failed-effect", "%s\n  store key %s changed", o, q(k))
			}
		}
		for k := range o.BeforeD[i] {
			if _, ok := o.AfterD[i][k]; !ok {
				return failf("failed-effect", "%s\n  store key %s vanished", o, q(k))
			}
		}
	}
	return nil
}

func feeKey(k string) bool {
	return strings.HasPrefix(k, "tmos.x.authn.v1alpha1.Account/") || strings.HasPrefix(k, "tmos.x.bank.v1alpha1.Balance/")
}

func withCollector(a []genAcct) []genAcct {
	return append(a, genAcct{Addr: feeCollector, Balance: []cn{{"test", "1"}}})
}

type seqCase struct {
	Msgs    []int
	Signers []int
	Col     bool
}

func c11(c *Ctx) {
	c.Rule = "every message sequence up to a length over succeeding and (early, late, nested, post-execution, panicking, unauthorized, refused) failing messages, as one delivered transaction; all stores compared before and after, as are long transactions with one failing message. Breadth-first over histories of such transactions. Post-authentication failures and panics in every module position."
	msgs := c11Msgs()
	small := []int{0, 1, 2, 5, 6, 9, 10, 13, 14, 15, 17}
	cfg := func(col bool) appCfg {
		acc := stdAccounts()
		if col {
			acc = withCollector(acc)
		}
		return appCfg{Accounts: acc}
	}
	type sysEntry struct {
		a *App
		g Dump
		n int
	}
	get := func(w *Worker, col bool) *sysEntry {
		k := fmt.Sprint("app", col)
		if e, ok := w.S[k].(*sysEntry); ok {
			if e.n++; e.n < 400 {
				return e
			}
			e.a.close()
		} else {
			w.OnClose(func() { w.S[k].(*sysEntry).a.close() })
		}
		a := newApp(cfg(col))
		a.begin(5)
		e := &sysEntry{a, dump(a.dbs), 0}
		w.S[k] = e
		return e
	}
	run := func(w *Worker, cs seqCase) *Fail {
		e := get(w, cs.Col)
		restore(e.a.dbs, e.g)
		e.a.hm.take()
		var ms []msgSpec
		for _, i := range cs.Msgs {
			ms = append(ms, msgs[i])
		}
		w0 := observeDump(e.g)
		w1, f := txOp("", defLimits, mkSimple(cs.Signers, ms...), c11Judge).do(e.a, w0)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.State(w1.json())
		return f
	}
	Explore(c, "message sequences", func(emit func(seqCase) bool) {
		for _, col := range []bool{true, false} {
			for _, sg := range [][]int{{0}, {0, 1}} {
				for l := 1; l <= 2; l++ {
					if !wordsLen(len(msgs), l, func(ix []int) bool { return emit(seqCase{ix, sg, col}) }) {
						return
					}
				}
			}
		}
		words3 := func(max int, set []int) bool {
			return wordsLen(len(set), max, func(ix []int) bool {
				m := make([]int, len(ix))
				for i, x := range ix {
					m[i] = set[x]
				}
				return emit(seqCase{m, []int{0, 1}, true})
			})
		}
		if !words3(3, small) {
			return
		}
		if c.Thorough {
			all := make([]int, len(msgs))
			for i := range all {
				all[i] = i
			}
			if words3(3, all) {
				words3(4, small)
			}
		}
	}, run)

	// whatever the error of a failing step is, it is a failure
	type kindCase struct {
		Where, Kind, Pos int
		Col              bool
	}
	at := []msgSpec{putMsg("n2", "x", "early~"), putMsg("n2", "x", "fail~"), putMsg("n2", "x", "post~"), putMsg("n2", "x", "refuse1~"), putMsg("n2", "x", "refuse2~"),
		nestMsg("n2", "v", "n1", "early~"), nestMsg("n2", "v", "n1", "fail~")}
	Explore(c, "kinds of failures", func(emit func(kindCase) bool) {
		for wh := range at {
			for k := range refusals {
				for pos := 0; pos < 3; pos++ {
					for _, col := range []bool{true, false} {
						if !emit(kindCase{wh, k, pos, col}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, cs kindCase) *Fail {
		e := get(w, cs.Col)
		restore(e.a.dbs, e.g)
		e.a.hm.take()
		bad := at[cs.Where]
		if bad.Mode == "nest" {
			bad = nestMsg(bad.ID, bad.Val, bad.Nest, fmt.Sprint(bad.NestMode, cs.Kind))
		} else {
			bad = putMsg(bad.ID, bad.Val, fmt.Sprint(bad.Mode, cs.Kind))
		}
		ms := []msgSpec{putMsg("n1", "x", ""), sendMsg(key(0).addr, key(1).addr, cn{"test", "2"})}
		ms = append(ms[:cs.Pos:cs.Pos], append([]msgSpec{bad}, ms[cs.Pos:]...)...)
		w1, f := txOp("", defLimits, mkSimple([]int{0, 1}, ms...), c11Judge).do(e.a, observeDump(e.g))
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.State(w1.json())
		return f
	})

	// many messages, one of which fails
	type longCase struct {
		N, At, Bad int
		Col        bool
	}
	most := 129
	if c.Thorough {
		most = 1001
	}
	bads := []msgSpec{putMsg("bad", "x", "fail"), putMsg("bad", "x", "panic"), putMsg("bad", "x", "post"), sendMsg(key(0).addr, key(1).addr, cn{"foo", "99999999"}), putMsg("bad", "x", "refuse2"), hiddenMsg("bad", "h")}
	Explore(c, "many messages", func(emit func(longCase) bool) {
		for _, n := range sizesTo(most) {
			if !emit(longCase{n, -1, 0, n%2 == 0}) {
				return
			}
			for b := range bads {
				if n > 40 && b != 0 && !c.Thorough {
					continue
				}
				for _, p := range placesIn(n) {
					if !emit(longCase{n, p, b, (n+p)%2 == 0}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs longCase) *Fail {
		e := get(w, cs.Col)
		restore(e.a.dbs, e.g)
		e.a.hm.take()
		var ms []msgSpec
		for i := 0; i < cs.N; i++ {
			m := putMsg(fmt.Sprint("m", i), "x", "")
			switch {
			case i == cs.At:
				m = bads[cs.Bad]
			case i%5 == 3:
				m = sendMsg(key(0).addr, key(3).addr, cn{"test", "1"})
			}
			ms = append(ms, m)
		}
		_, f := txOp("", defLimits, mkSimple([]int{0, 1}, ms...), c11Judge).do(e.a, observeDump(e.g))
		addN(&c.Transitions, cs.N)
		addN(&c.Traces, 1)
		return f
	})

	// histories
	ops := func() []appOp {
		var out []appOp
		add := func(keys []int, ms ...msgSpec) {
			t := mkSimple(keys, ms...)
			out = append(out, txOp(fmt.Sprint(t(world{})), defLimits, t, c11Judge))
		}
		add([]int{0}, msgs[0])
		add([]int{1}, msgs[1], msgs[2])
		add([]int{0}, msgs[6], msgs[1])
		add([]int{0}, msgs[6], msgs[5])
		add([]int{0}, msgs[9], msgs[10])
		add([]int{0}, msgs[13], msgs[15])
		add([]int{0, 1}, msgs[14], msgs[17])
		add([]int{0}, msgs[17], msgs[14])
		add([]int{2}, msgs[0], msgs[13])
		add([]int{0}, msgs[0], msgs[7])
		out = append(out, appOp{"next block", func(a *App, w world) (world, *Fail) {
			n := w.clone()
			n.Height++
			a.begin(int64(n.Height))
			return observeDump(dump(a.dbs)), nil
		}})
		return out
	}
	n, name, mk := appSystem(cfg(false), 5, ops)
	depth := 3
	if c.Thorough {
		depth = 5
	}
	BFS(c, "histories", n, depth, 200000, name, mk, nil)

	// failures between admission and execution
	type paCase struct {
		Order int
		Memo  string
		Msg   int
	}
	Explore(c, "post-authentication", func(emit func(paCase) bool) {
		for o := 0; o < 2; o++ {
			for _, memo := range []string{"", "p1:fail", "p2:fail", "p1:panic", "p2:panic"} {
				for m := range msgs {
					if !emit(paCase{o, memo, m}) {
						return
					}
				}
			}
			for k := range refusals {
				for _, memo := range []string{"p1:fail~", "p2:fail~"} {
					if !emit(paCase{o, fmt.Sprint(memo, k), 0}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs paCase) *Fail {
		k := fmt.Sprint("pa", cs.Order)
		e, ok := w.S[k].(*sysEntry)
		if !ok {
			cf := cfg(true)
			cf.Extra = []module.Module{postAuthModule{"p1"}, postAuthModule{"p2"}}
			if cs.Order == 1 {
				cf.Extra = []module.Module{postAuthModule{"p2"}, postAuthModule{"p1"}}
			}
			a := newApp(cf)
			a.begin(5)
			e = &sysEntry{a, dump(a.dbs), 0}
			w.S[k] = e
			w.OnClose(a.close)
		}
		restore(e.a.dbs, e.g)
		e.a.hm.take()
		w0 := observeDump(e.g)
		mkTx := func(w world) txSpec {
			t := mkSimple([]int{0, 1}, msgs[cs.Msg])(w)
			t.Memo = cs.Memo
			return t
		}
		op := txOp("", defLimits, mkTx, func(a *App, o txObs) *Fail {
			if cs.Memo != "" {
				o.Want, o.Out = o.Before, outcome{Why: "post-authentication"}
			}
			f := c11Judge(a, o)
			if f == nil && cs.Memo != "" && len(a.hm.take()) > 0 && false {
				return nil
			}
			return f
		})
		_, f := op.do(e.a, w0)
		addN(&c.Transitions, 1)
		return f
	})
}
