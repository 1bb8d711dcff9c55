package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	abcitypes "github.com/tendermint/tendermint/abci/types"
)

// appOp is one operation on an application: it is judged against the world before it.
type appOp struct {
	name string
	do   func(a *App, w world) (world, *Fail)
}

// appSystem makes BFS/Walk systems over an application configuration.
func appSystem(cfg appCfg, height int64, ops func() []appOp) (int, func(int) string, func() *system[world]) {
	list := ops()
	mk := func() *system[world] {
		a := newApp(cfg)
		if height > 0 {
			a.begin(height)
		}
		g := dump(a.dbs)
		s := &system[world]{dbs: a.dbs, genesis: g, m0: observeDump(g), close: a.close, renew: 400,
			onRestore: func() { a.hm.take() }}
		s.step = func(w world, op int) (world, *Fail) { return list[op].do(a, w) }
		return s
	}
	return len(list), func(op int) string { return list[op].name }, mk
}

// judge compares what a transaction did with what the model says.
type txObs struct {
	Spec          txSpec
	Before, After world
	BeforeD       Dump
	AfterD        Dump
	Want          world
	Out           outcome
	Resp          abcitypes.ResponseDeliverTx
}

// txOp delivers the transaction made for the current world and judges it.
func txOp(name string, lim txLimits, mkTx func(w world) txSpec, judge func(a *App, o txObs) *Fail) appOp {
	return appOp{name, func(a *App, w world) (world, *Fail) {
		t := mkTx(w)
		o := txObs{Spec: t, Before: w}
		o.Want, o.Out = w.apply(t, lim)
		o.BeforeD = dump(a.dbs)
		o.Resp = a.deliver(t.bytes())
		o.AfterD = dump(a.dbs)
		o.After = observeDump(o.AfterD)
		return o.After, judge(a, o)
	}}
}

func (o txObs) String() string {
	return fmt.Sprintf("%s -> code %d %q; model: %+v", o.Spec, o.Resp.Code, trunc(o.Resp.Log, 200), o.Out)
}

// mkSimple is a transaction by the given keys with current sequences and the standard fee.
func mkSimple(keys []int, msgs ...msgSpec) func(w world) txSpec {
	return func(w world) txSpec {
		t := txSpec{Msgs: msgs, Fee: []cn{appFee}}
		for _, k := range keys {
			t.Signers = append(t.Signers, w.signer(k))
		}
		return t
	}
}

// appEntry is an application that a worker reuses from case to case.
type appEntry struct {
	a *App
	g Dump
	w world // the state of g
	n int
}

// getApp gives a worker's application of that name, in its genesis state at the height.
func getApp(w *Worker, name string, height int64, cfg func() appCfg) *appEntry {
	k := "app:" + name
	e, ok := w.S[k].(*appEntry)
	if ok {
		if e.n++; e.n < 500 {
			restore(e.a.dbs, e.g)
			e.a.hm.take()
			return e
		}
		e.a.close()
	} else {
		w.OnClose(func() {
			if e, ok := w.S[k].(*appEntry); ok {
				e.a.close()
			}
		})
	}
	a := newApp(cfg())
	if height > 0 {
		a.begin(height)
	}
	e = &appEntry{a: a, g: dump(a.dbs)}
	e.w = observeDump(e.g)
	w.S[k] = e
	return e
}

// deliverTx delivers t in the current state, which is w, and compares with the model.
func (e *appEntry) deliverTx(w world, t txSpec, lim txLimits) txObs {
	return e.a.obs(w, t, t.bytes(), lim)
}

func (a *App) obs(w world, t txSpec, raw []byte, lim txLimits) txObs {
	o := txObs{Spec: t, Before: w}
	o.Want, o.Out = w.apply(t, lim)
	o.BeforeD = dump(a.dbs)
	o.Resp = a.deliver(raw)
	o.AfterD = dump(a.dbs)
	o.After = observeDump(o.AfterD)
	return o
}

// balances compares only the coins of two worlds.
func balDiff(want, got world) string {
	var d []string
	keys := map[string]bool{}
	for k := range want.Bal {
		keys[k] = true
	}
	for k := range got.Bal {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		x, _ := json.Marshal(nz(want.Bal[k]))
		y, _ := json.Marshal(nz(got.Bal[k]))
		if string(x) != string(y) {
			d = append(d, fmt.Sprintf("balance of %s: expected %s, is %s", nick(k), x, y))
		}
	}
	return strings.Join(d, "; ")
}

// badBalance finds an amount that is not a canonical non-negative integer.
func badBalance(w world) string {
	for a, b := range w.Bal {
		for d, x := range b {
			if n := bi(x); n == nil || n.Sign() < 0 || n.String() != x || strings.HasPrefix(d, "dup!") {
				return fmt.Sprintf("%s has %q of %q", nick(a), x, d)
			}
		}
	}
	return ""
}

// delta is what an account's balance changed by.
func delta(before, after world, addr, denom string) *big.Int {
	g := func(w world) *big.Int {
		if x := bi(w.Bal[addr][denom]); x != nil {
			return x
		}
		return new(big.Int)
	}
	return new(big.Int).Sub(g(after), g(before))
}

// denoms lists every denomination anyone holds.
func denoms(ws ...world) []string {
	m := map[string]bool{}
	for _, w := range ws {
		for _, b := range w.Bal {
			for d := range b {
				m[d] = true
			}
		}
	}
	return sortedKeys(m)
}

func holders(ws ...world) []string {
	m := map[string]bool{}
	for _, w := range ws {
		for a := range w.Bal {
			m[a] = true
		}
	}
	return sortedKeys(m)
}
