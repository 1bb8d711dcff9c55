package main

import (
	"encoding/json"
	"fmt"
	"strings"

	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func init() {
	register("C22", c22)
	register("C31", c31)
	register("C32", c32)
}

// accJudge checks how the set of accounts changed: new accounts get the next numbers,
// sequence zero and the external role, old ones keep what they had.
// created is the exact list expected (nil: any).
func accJudge(desc string, before, after world, created []string, seqs map[string]uint64) *Fail {
	var fresh []string
	for _, a := range sortedKeys(after.Acc) {
		x := after.Acc[a]
		b, old := before.Acc[a]
		if old {
			if x.Num != b.Num {
				return failf("renumbered", "%s\n  the number of %s changes from %d to %d", desc, nick(a), b.Num, x.Num)
			}
			if want := b.Seq + seqs[a]; x.Seq != want {
				return failf("reset", "%s\n  the sequence of %s becomes %d, expected %d", desc, nick(a), x.Seq, want)
			}
			if b.Pub != "" && x.Pub != b.Pub {
				return failf("replaced", "%s\n  the key of %s changes", desc, nick(a))
			}
			continue
		}
		fresh = append(fresh, a)
		if x.Seq != 0 {
			return failf("sequence", "%s\n  new account %s starts with sequence %d", desc, nick(a), x.Seq)
		}
		if r := after.Bind[a]; r != "external_account" {
			return failf("role", "%s\n  new account %s has role %q", desc, nick(a), r)
		}
		if x.Num < before.Next || x.Num >= before.Next+uint64(len(after.Acc)-len(before.Acc)) {
			return failf("number", "%s\n  new account %s has number %d, the next unused one was %d", desc, nick(a), x.Num, before.Next)
		}
	}
	for a := range before.Acc {
		if _, ok := after.Acc[a]; !ok {
			return failf("vanished", "%s\n  account %s is gone", desc, nick(a))
		}
	}
	nums := map[uint64]string{}
	for a, x := range after.Acc {
		if o, ok := nums[x.Num]; ok {
			return failf("number", "%s\n  %s and %s share number %d", desc, nick(a), nick(o), x.Num)
		}
		nums[x.Num] = a
	}
	if after.Next != before.Next+uint64(len(fresh)) {
		return failf("number", "%s\n  %d accounts were created and the next number goes from %d to %d", desc, len(fresh), before.Next, after.Next)
	}
	if created != nil {
		if len(fresh) != len(created) {
			return failf("created", "%s\n  created accounts %v, expected %v", desc, nicks(fresh), nicks(created))
		}
		for i, a := range created {
			if x, ok := after.Acc[a]; !ok || x.Num != before.Next+uint64(i) {
				return failf("number", "%s\n  account %s has number %d, expected %d", desc, nick(a), x.Num, before.Next+uint64(i))
			}
		}
	}
	for s, r := range before.Bind {
		if after.Bind[s] != r {
			return failf("role", "%s\n  the role of %s changes from %q to %q", desc, nick(s), r, after.Bind[s])
		}
	}
	return nil
}

func nicks(as []string) (out []string) {
	for _, a := range as {
		out = append(out, nick(a))
	}
	return
}

// accTxJudge: the accounts the model creates, in order.
func accTxJudge(a *App, o txObs) *Fail {
	seqs := map[string]uint64{}
	if o.Out.Paid {
		for _, s := range o.Spec.Signers {
			seqs[key(s.Key).addr] = 1
		}
	}
	created := make([]string, o.Want.Next-o.Before.Next)
	for x, s := range o.Want.Acc {
		if _, ok := o.Before.Acc[x]; !ok {
			created[s.Num-o.Before.Next] = x
		}
	}
	return accJudge(o.String(), o.Before, o.After, created, seqs)
}

func c22(c *Ctx) {
	c.Rule = "breadth-first histories of account creations (explicit, with preset numbers, sequences and keys, of existing, empty and reserved names, several in one transaction, in failing transactions) and first transfers, by signed transactions and by module calls; after each step every account's number, sequence, key and role compared. Long chains of creations past the encoding boundaries."
	for i := 0; i < 6; i++ {
		key(i)
	}
	A, B, D, E := key(0).addr, key(1).addr, key(3).addr, key(4).addr
	preset := cat(fBytes(2, wAny("some", []byte("key"))), fUint(3, 77), fUint(4, 9))
	empty := msgSpec{URL: "/tmos.x.authn.v1alpha1.MsgCreateAccount", Kind: "create"}
	noaddr := msgSpec{URL: "/tmos.x.authn.v1alpha1.MsgCreateAccount", Body: fBytes(1, fUint(4, 3)), Kind: "create"}
	cfg := appCfg{Accounts: stdAccounts()}
	ops := func() []appOp {
		var out []appOp
		tx := func(k int, ms ...msgSpec) {
			t := mkSimple([]int{k}, ms...)
			out = append(out, txOp(fmt.Sprint(t(world{})), defLimits, t, accTxJudge))
		}
		tx(0, createMsg(D, nil))
		tx(0, createMsg(E, preset))
		tx(1, createMsg("x", nil), createMsg("y", preset))
		tx(1, createMsg("z", nil), putMsg("n", "v", "fail"))
		tx(0, createMsg("w", nil), createMsg("w", nil))
		tx(0, createMsg(B, preset))
		tx(1, createMsg("bank", nil))
		tx(0, empty)
		tx(0, createMsg("v", nil), noaddr)
		tx(0, sendMsg(A, D, cn{"test", "1"}))
		tx(0, sendMsg(A, E, cn{"test", "0"}), createMsg("x", nil))
		tx(1, createMsg(E, nil), sendMsg(B, E, cn{"test", "1"}))
		tx(0, sendMsg(A, D), sendMsg(A, E, cn{"foo", "0"}, cn{"test", "1"}))
		tx(1, sendMsg(B, "y", cn{"test", "100"}))
		out = append(out, txOp("D sends to x", defLimits, mkSimple([]int{3}, sendMsg(D, "x", cn{"test", "0"})), accTxJudge))
		mod := func(name string, created func(w world) []string, f func(a *App) error) {
			out = append(out, appOp{name, func(a *App, w world) (world, *Fail) {
				bd := dump(a.dbs)
				err := f(a)
				ad := dump(a.dbs)
				n := observeDump(ad)
				want := created(w)
				if (err == nil) != (want != nil) {
					return n, failf("module-call", "%s: error %v, expected success %v", name, err, want != nil)
				}
				if err != nil {
					if !bd.equal(ad) {
						return n, failf("refused-effect", "%s: refused (%v) with effect:%s", name, err, bd.diff(ad))
					}
					return n, nil
				}
				return n, accJudge(name, w, n, want, nil)
			}})
		}
		fresh := func(x string) func(w world) []string {
			return func(w world) []string {
				if _, ok := w.Acc[x]; ok {
					return nil
				}
				return []string{x}
			}
		}
		for _, x := range []string{D, "p", B} {
			x := x
			mod("module creates "+nick(x), fresh(x), func(a *App) error {
				return a.hm.c.Deliver(&authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: x, Sequence: 4, AccountNumber: 1}})
			})
		}
		no := func(world) []string { return nil }
		mod("module creates nothing", no, func(a *App) error { return a.hm.c.Deliver(&authnv1.MsgCreateAccount{}) })
		mod("module creates the empty address", no, func(a *App) error {
			return a.hm.c.Deliver(&authnv1.MsgCreateAccount{Account: &authnv1.Account{Sequence: 1}})
		})
		mod("owner sends to q", func(w world) []string {
			if _, ok := w.Acc["q"]; ok {
				return []string{}
			}
			return []string{"q"}
		}, func(a *App) error {
			return a.rt.Deliver(user.NewUsersFromString(key(2).addr), &bankv1.MsgSendCoins{FromAddress: key(2).addr, ToAddress: "q", Amount: toCoins([]cn{{"test", "0"}})})
		})
		return out
	}
	grants := func() appCfg { c := cfg; c.Grant = []protoTransition{&authnv1.MsgCreateAccount{}}; return c }
	n, name, mk := appSystem(grants(), 5, ops)
	depth := 4
	if c.Thorough {
		depth = 6
	}
	BFS(c, "histories", n, depth, 120000, name, mk, nil)

	bigNumbers(c, grants)

	// many accounts
	type manyCase struct{ Mode int }
	count := 300
	if c.Thorough {
		count = 1200
	}
	Explore(c, "many accounts", func(emit func(manyCase) bool) {
		for m := 0; m < 3; m++ {
			emit(manyCase{m})
		}
	}, func(w *Worker, cs manyCase) *Fail {
		cf := grants()
		cf.Accounts = stdAccounts()
		cf.Accounts[0].Balance = []cn{{"test", "100000"}}
		a := newApp(cf)
		defer a.close()
		a.begin(5)
		cur := a.observe()
		for i := 0; i < count; i++ {
			x := fmt.Sprintf("acc%d", i)
			m := createMsg(x, nil)
			switch {
			case cs.Mode == 1:
				m = sendMsg(A, x, cn{"test", "1"})
			case cs.Mode == 2 && i%3 == 0:
				m = sendMsg(A, x, cn{"test", "1"})
			}
			t := mkSimple([]int{0}, m)(cur)
			o := a.obs(cur, t, t.bytes(), defLimits)
			addN(&c.Transitions, 1)
			if o.Resp.Code != 0 {
				return failf("refused", "creating account number %d: %s", i, o)
			}
			if f := accTxJudge(a, o); f != nil {
				return f
			}
			cur = o.After
		}
		addN(&c.Traces, 1)
		return nil
	})
}

// ---- C31 ----

type limCase struct {
	Params           int
	Height, Timeout  uint64
	Memo, Sigs       int
	Unknown          int // position of a signer without account, -1 for none
	Fee              string
	End              bool // checked after the end of the block
	SignerBalanceIdx int
	Unit             int   // of memoUnits
	Who              []int `json:",omitempty"` // the signers, instead of the first Sigs ones
}

// memoUnits are what memos are made of: characters of one to four bytes, blanks.
var memoUnits = []string{"m", "é", "€", "😀", "e\u0301", " ", "\n", "\x00", "%", "\u200d"}

// memoOf makes a memo of n bytes out of the unit, filled up with letters.
func memoOf(unit string, n int) string {
	m := strings.Repeat(unit, n/len(unit))
	return m + strings.Repeat("m", n-len(m))
}

func c31(c *Ctx) {
	c.Rule = "every combination of limits, heights, timeout heights, memo lengths, signature counts, unknown signers and fees at and around each boundary, alone and combined: refused exactly when one limit is exceeded, without effect, and CheckTx and DeliverTx decide alike."
	for i := 0; i < 8; i++ {
		key(i)
	}
	params := []txLimits{{5, 3}, {0, 1}, {1, 2}, {300, 5}}
	few, keys := len(params), 6
	for _, n := range sizesTo(66) {
		if n >= 6 {
			params = append(params, txLimits{5, uint64(n)})
		}
	}
	cfg := func(p int) func() appCfg {
		return func() appCfg {
			acc := []genAcct{}
			n := keys
			if p >= few {
				n = int(params[len(params)-1].sigs) + 3 // one application for all these limits
			}
			for i := 0; i < n; i++ {
				if p >= few && i == 7 {
					continue
				}
				acc = append(acc, genAcct{Addr: key(i).addr, Pub: key(i).pub, Balance: []cn{{"test", "10"}}})
			}
			return appCfg{Accounts: acc, Params: &authnv1.Params{MaxMemoCharacters: params[p].memo, TxSigLimit: params[p].sigs}}
		}
	}
	run := func(w *Worker, cs limCase) *Fail {
		h := int64(cs.Height)
		name := fmt.Sprint("c31", cs.Params)
		if cs.Params >= few {
			name = "c31many"
		}
		e := getApp(w, name, 5, cfg(cs.Params))
		if h != 5 {
			e.a.begin(h)
		}
		if l := params[cs.Params]; cs.Params >= few {
			if f := e.a.setLimits(l.memo, l.sigs); f != nil {
				return f
			}
		}
		if cs.End {
			e.a.endBlock(h)
		}
		t := txSpec{Msgs: []msgSpec{putMsg("n", "x", "")}, Fee: []cn{{"test", cs.Fee}}, Timeout: cs.Timeout, Memo: memoOf(memoUnits[cs.Unit], cs.Memo)}
		for i := 0; i < cs.Sigs; i++ {
			k := i
			if cs.Who != nil {
				k = cs.Who[i]
			} else if cs.Params >= few && k >= 7 {
				k++
			}
			if i == cs.Unknown {
				k = 7
			}
			t.Signers = append(t.Signers, e.w.signer(k))
		}
		raw := t.bytes()
		bd := dump(e.a.dbs)
		ck := e.a.check(raw)
		cd := dump(e.a.dbs)
		r := e.a.deliver(raw)
		ad := dump(e.a.dbs)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		lim := params[cs.Params]
		var over []string
		if cs.Timeout != 0 && cs.Timeout < cs.Height {
			over = append(over, "timeout")
		}
		if uint64(cs.Memo) > lim.memo {
			over = append(over, "memo")
		}
		if uint64(cs.Sigs) > lim.sigs {
			over = append(over, "signatures")
		}
		if cs.Unknown >= 0 {
			over = append(over, "account")
		}
		if bi(cs.Fee).Cmp(bi("10")) > 0 {
			over = append(over, "fee")
		}
		c.Outcome(strings.Join(over, ",") + fmt.Sprint(r.Code))
		c.State(ad.digest())
		desc := fmt.Sprintf("limits %+v, height %d, timeout %d, memo of %d bytes of %q, %d signatures %v, unknown signer %d, fee %s of 10", lim, cs.Height, cs.Timeout, cs.Memo, memoUnits[cs.Unit], cs.Sigs, cs.Who, cs.Unknown, cs.Fee)
		if !bd.equal(cd) {
			return failf("check-effect", "%s: CheckTx changes the state", desc)
		}
		for _, x := range []struct {
			n string
			c uint32
			l string
		}{{"CheckTx", ck.Code, ck.Log}, {"DeliverTx", r.Code, r.Log}} {
			if x.c == 0 && len(over) > 0 {
				return failf("accepted:"+over[0], "%s: %s accepts beyond the limit of %v", desc, x.n, over)
			}
			if x.c != 0 && len(over) == 0 {
				return failf("refused-within-limits", "%s: %s refuses within the limits: %s", desc, x.n, x.l)
			}
		}
		if len(over) > 0 && !cd.equal(ad) {
			return failf("refused-effect", "%s: refused with effect:%s", desc, cd.diff(ad))
		}
		return nil
	}
	around := func(x uint64, d ...int) (out []uint64) {
		for _, y := range d {
			if y < 0 && x < uint64(-y) {
				continue
			}
			out = append(out, x+uint64(y))
		}
		return
	}
	Explore(c, "timeouts", func(emit func(limCase) bool) {
		for _, h := range []uint64{0, 1, 2, 3, 127, 128, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1} {
			ts := []uint64{0, 1, 2, 1 << 31, 1 << 32, 1 << 63, 1<<64 - 1}
			ts = append(ts, around(h, -2, -1, 0, 1, 2, 256, -256, 1<<32)...)
			for _, t := range ts {
				for _, end := range []bool{false, true} {
					if h == 0 && end {
						continue
					}
					if !emit(limCase{Height: h, Timeout: t, Sigs: 1, Unknown: -1, Fee: "1", End: end}) {
						return
					}
				}
			}
		}
	}, run)
	Explore(c, "many signers", func(emit func(limCase) bool) {
		for p := few; p < len(params); p++ {
			l := int(params[p].sigs)
			if l > 20 && l < 64 && !c.Thorough {
				continue
			}
			for n := l - 1; n <= l+1; n++ {
				for _, u := range append([]int{-1}, placesIn(n)...) {
					if !emit(limCase{Params: p, Height: 5, Sigs: n, Unknown: u, Fee: "1"}) {
						return
					}
				}
			}
		}
		for p := few; p < few+3; p++ {
			for s := 1; s < 6; s++ {
				if !emit(limCase{Params: p, Height: 5, Sigs: s, Unknown: -1, Fee: "1"}) {
					return
				}
			}
		}
	}, run)
	Explore(c, "memos", func(emit func(limCase) bool) {
		for p, lim := range params[:few] {
			for m := 0; m <= int(lim.memo)+3; m++ {
				if d := int(lim.memo) - m; !c.Thorough && m > 20 && d > 4 && m%16 > 1 {
					continue
				}
				for _, s := range []int{1, int(lim.sigs)} {
					for u := range memoUnits {
						if !emit(limCase{Params: p, Height: 5, Memo: m, Sigs: s, Unknown: -1, Fee: "1", Unit: u}) {
							return
						}
					}
				}
			}
		}
	}, run)
	Explore(c, "signers", func(emit func(limCase) bool) {
		for p := range params[:few] {
			l := 4
			if c.Thorough {
				l = 6
			}
			if !words(3, l, func(ix []int) bool {
				if len(ix) == 0 {
					return true
				}
				return emit(limCase{Params: p, Height: 5, Sigs: len(ix), Unknown: -1, Fee: "1", Who: append([]int{}, ix...)})
			}) {
				return
			}
		}
	}, run)
	Explore(c, "combinations", func(emit func(limCase) bool) {
		for p, lim := range params[:few] {
			for _, t := range []uint64{0, 4, 5, 6} {
				for _, m := range around(lim.memo, -1, 0, 1) {
					for s := 1; s <= int(lim.sigs)+1 && s <= 6; s++ {
						for u := -1; u < s; u++ {
							for _, f := range []string{"0", "1", "9", "10", "11", pow2s(64, 0)} {
								if !emit(limCase{Params: p, Height: 5, Timeout: t, Memo: int(m), Sigs: s, Unknown: u, Fee: f}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, run)

	// the default limits, at their own size
	Explore(c, "default limits", func(emit func(int) bool) {
		for _, m := range []int{999999, 1000000, 1000001} {
			emit(m)
		}
	}, func(w *Worker, m int) *Fail {
		e := getApp(w, "c31def", 5, func() appCfg { return appCfg{Accounts: stdAccounts()} })
		t := mkSimple([]int{0}, putMsg("n", "x", ""))(e.w)
		t.Memo = strings.Repeat("m", m)
		raw := t.bytes()
		ck := e.a.check(raw)
		r := e.a.deliver(raw)
		if (ck.Code == 0) != (m <= 1000000) || (r.Code == 0) != (m <= 1000000) {
			return failf("default-memo", "a memo of %d bytes: CheckTx %d, DeliverTx %d", m, ck.Code, r.Code)
		}
		return nil
	})

	largeLimits(c)

	// limits keep their meaning while the state moves: parameters, height and balances change
	mvOps := func() []appOp {
		var out []appOp
		for _, memo := range []int{0, 2, 3} {
			for _, to := range []uint64{0, 5, 6} {
				memo, to := memo, to
				mkTx := func(w world) txSpec {
					t := mkSimple([]int{0}, putMsg("n", "x", ""))(w)
					t.Fee = []cn{{"test", "4"}}
					t.Memo, t.Timeout = strings.Repeat("m", memo), to
					return t
				}
				out = append(out, appOp{fmt.Sprintf("memo %d timeout %d", memo, to), func(a *App, w world) (world, *Fail) {
					t := mkTx(w)
					raw := t.bytes()
					ck := a.check(raw)
					o := a.obs(w, t, raw, txLimits{a.memoLimit(), 3})
					if (ck.Code == 0) != o.Out.OK || (o.Resp.Code == 0) != o.Out.OK {
						return o.After, failf("history", "limits %d: CheckTx %d, %s", a.memoLimit(), ck.Code, o)
					}
					return o.After, nil
				}})
			}
		}
		out = append(out, appOp{"next height", func(a *App, w world) (world, *Fail) {
			a.begin(int64(w.Height) + 1)
			return a.observe(), nil
		}}, appOp{"memo limit 2", func(a *App, w world) (world, *Fail) {
			return w, a.setLimits(2, 3)
		}}, appOp{"memo limit 3", func(a *App, w world) (world, *Fail) {
			return w, a.setLimits(3, 3)
		}})
		return out
	}
	n, name, mk := appSystem(cfg(0)(), 5, mvOps)
	d := 3
	if c.Thorough {
		d = 5
	}
	BFS(c, "histories", n, d, 100000, name, mk, nil)
}

// memoLimit reads the stored limit.
func (a *App) memoLimit() uint64 {
	for _, m := range dump(a.dbs) {
		for k, v := range m {
			if strings.HasPrefix(k, "tmos.x.authn.v1alpha1.Params/") {
				return protoMsgUint([]byte(v), 1)
			}
		}
	}
	hp("no parameters")
	return 0
}

func (a *App) setLimits(memo, sigs uint64) *Fail {
	a.rt.DisableAuthorization()
	err := a.rt.Update(user.NewUsersFromString("authn"), &authnv1.Params{MaxMemoCharacters: memo, TxSigLimit: sigs})
	a.rt.EnableAuthorization()
	if err != nil {
		return failf("params", "updating the parameters: %v", err)
	}
	return nil
}

func (a *App) endBlock(h int64) abcitypes.ResponseEndBlock {
	return a.abci.EndBlock(abcitypes.RequestEndBlock{Height: h})
}

// ---- C32 ----

// admModule adds an admission handler for the harness transition.
type admModule struct {
	name string
	hm   **harnessModule
}

func (m admModule) Initialize(cl module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named(m.name).
		HandlesAdmission(appT().put.trans(), statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			tr := req.Transition.(*DynTrans)
			(*m.hm).log("admission-" + m.name + " " + tr.str("id"))
			if mode, cause := splitMode(tr.str("mode")); mode == "refuse-"+m.name {
				return refusal(cause, "refused by "+m.name)
			}
			return nil
		})).
		WithAuthAdmissionHandler(authAdmFunc(func(tx authentication.Tx) error {
			memo, cause := splitMode(tx.Raw().(*authnv1.Tx).Body.Memo)
			if memo == "refuse-"+m.name {
				return refusal(cause, "refused by "+m.name)
			}
			return nil
		})).Build()
}

type authAdmFunc func(tx authentication.Tx) error

func (f authAdmFunc) Validate(tx authentication.Tx) error { return f(tx) }

type admCase struct {
	Order int // arrangement of the modules
	Msgs  []int
	Sg    []int
	Check int    // 0: delivered directly, 1: checked first, 2: checked twice
	Kind  int    `json:",omitempty"` // of the refusals
	Memo  string `json:",omitempty"`
}

func c32Msgs() []msgSpec {
	A, B, D := key(0).addr, key(1).addr, key(3).addr
	r := func(mode string) msgSpec { return putMsg("i"+mode, "x", mode) }
	return []msgSpec{r(""), r("refuse1"), r("refuse2"), r("refuse-m1"), r("refuse-m2"),
		sendMsg(A, B, cn{"test", "1"}), sendMsg(B, A, cn{"test", "1"}), createMsg(D, nil),
		{URL: "/tmos.x.authn.v1alpha1.MsgCreateAccount", Kind: "create"},
		{URL: "/tmos.x.authn.v1alpha1.MsgCreateAccount", Body: fBytes(1, fUint(4, 3)), Kind: "create"},
		putMsg("i2", "y", "")}
}

// c32Many is the number of further modules in the arrangements with many of them.
const c32Many = 40

// refused tells whether some admission handler refuses the message.
func c32Refused(m msgSpec, signers []int) bool {
	switch m.Kind {
	case "put":
		return strings.HasPrefix(m.Mode, "refuse")
	case "send":
		for _, s := range signers {
			if key(s).addr == m.From {
				return false
			}
		}
		return true
	case "create":
		return m.To == ""
	}
	return false
}

func c32(c *Ctx) {
	c.Rule = "every sequence of up to 3 messages, and long ones refused at every place, with accepting and refusing admission handlers (two of the owning module, one of a module before and one of a module after it in the registration order, the account and transfer handlers), delivered directly and after one or two checks, in every module arrangement, of up to 40 further modules with handlers: a refused message never runs and makes the transaction fail, handlers are consulted in registration order before the message runs, and CheckTx refuses exactly when one refuses."
	for i := 0; i < 6; i++ {
		key(i)
	}
	msgs := c32Msgs()
	few := len(msgs)
	for i := 1; i <= c32Many; i++ {
		m := fmt.Sprint("refuse-m", i)
		msgs = append(msgs, putMsg("i"+m, "x", m))
	}
	chain := [][]string{{"-m1", "1", "2", "-m2"}, {"-m2", "1", "2", "-m1"}, {"-m1", "-m2", "1", "2"}, {"1", "2", "-m2", "-m1"}, nil, nil}
	for i := 1; i <= c32Many; i++ {
		if i == c32Many/2 {
			chain[4] = append(chain[4], "1", "2")
		}
		chain[4] = append(chain[4], fmt.Sprint("-m", i))
		chain[5] = append(chain[5], fmt.Sprint("-m", c32Many+1-i))
	}
	chain[5] = append(chain[5], "1", "2")
	cfg := func(order int) func() appCfg {
		return func() appCfg {
			cf := appCfg{Accounts: stdAccounts()}
			cf.HM = new(*harnessModule)
			m1, m2 := admModule{"m1", cf.HM}, admModule{"m2", cf.HM}
			switch order {
			case 0:
				cf.First, cf.Extra = []module.Module{m1}, []module.Module{m2}
			case 1:
				cf.First, cf.Extra = []module.Module{m2}, []module.Module{m1}
			case 2:
				cf.First = []module.Module{m1, m2}
			case 3:
				cf.Extra = []module.Module{m2, m1}
			case 4, 5:
				own := false
				for _, h := range chain[order] {
					switch {
					case h[0] != '-':
						own = true
					case own:
						cf.Extra = append(cf.Extra, admModule{h[1:], cf.HM})
					default:
						cf.First = append(cf.First, admModule{h[1:], cf.HM})
					}
				}
			}
			return cf
		}
	}
	run := func(w *Worker, cs admCase) *Fail {
		e := getApp(w, fmt.Sprint("c32", cs.Order), 5, cfg(cs.Order))
		var ms []msgSpec
		refusedAt := -1
		for i, x := range cs.Msgs {
			m := msgs[x]
			if cs.Kind > 0 && strings.HasPrefix(m.Mode, "refuse") {
				m = putMsg(m.ID, m.Val, fmt.Sprint(m.Mode, "~", cs.Kind))
			}
			ms = append(ms, m)
			if refusedAt < 0 && c32Refused(msgs[x], cs.Sg) {
				refusedAt = i
			}
		}
		t := mkSimple(cs.Sg, ms...)(e.w)
		if t.Memo = cs.Memo; t.Memo != "" {
			return c32Transaction(c, e, t)
		}
		raw := t.bytes()
		for i := 0; i < cs.Check; i++ {
			ck := e.a.check(raw)
			if (ck.Code != 0) != (refusedAt >= 0) {
				return failf("check", "%s: CheckTx %d %s, refusing message %d", t, ck.Code, ck.Log, refusedAt)
			}
			for _, x := range e.a.hm.take() {
				if !strings.HasPrefix(x, "admission") {
					return failf("check-executes", "%s: CheckTx runs %s", t, x)
				}
			}
		}
		bd := dump(e.a.dbs)
		r := e.a.deliver(raw)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		_, out := e.w.apply(t, defLimits)
		tr := e.a.hm.take()
		ad := dump(e.a.dbs)
		before, after := observeDump(bd), observeDump(ad)
		c.State(ad.digest())
		c.Outcome(strings.Join(tr, ","))
		desc := fmt.Sprintf("%s (arrangement %d, %d checks before): code %d %s, handlers %v", t, cs.Order, cs.Check, r.Code, trunc(r.Log, 100), tr)
		if refusedAt >= 0 {
			if r.Code == 0 {
				return failf("refused-executed", "%s\n  message %d is refused and the transaction succeeds", desc, refusedAt)
			}
			if d := notesDiff(before, after); d != "" {
				return failf("refused-effect", "%s\n  %s", desc, d)
			}
			if len(after.Acc) != len(before.Acc)+newCollector(before, after) {
				return failf("refused-effect", "%s\n  accounts were created", desc)
			}
		} else if r.Code != 0 {
			// whether the messages succeed is judged by the model
			if out.OK {
				return failf("accepted-refused", "%s\n  no handler refuses", desc)
			}
		}
		// the trace: for every executed message its whole chain ran before it
		pos := map[string]int{}
		for i, x := range tr {
			if strings.HasPrefix(x, "put ") {
				id := x[4:]
				if strings.Contains(id, "refuse") {
					return failf("refused-ran", "%s\n  the refused message ran", desc)
				}
				last := -1
				for _, h := range chain[cs.Order] {
					p, ok := pos["admission"+h+" "+id]
					if !ok || p < last {
						return failf("order", "%s\n  before message %s its admission handlers did not run in order %v", desc, id, chain[cs.Order])
					}
					last = p
				}
				for k := range pos {
					if strings.HasSuffix(k, " "+id) {
						delete(pos, k)
					}
				}
				continue
			}
			pos[x] = i
		}
		// a refusal is final: later handlers of that message are not needed, but none may
		// be skipped before it
		if refusedAt >= 0 && ms[refusedAt].Kind == "put" && out.Why == fmt.Sprintf("message %d fails", refusedAt) {
			m := ms[refusedAt]
			for _, h := range chain[cs.Order] {
				if !contains(tr, "admission"+h+" "+m.ID) {
					return failf("consulted", "%s\n  handler %s was not consulted before the refusal", desc, h)
				}
				if mode, _ := splitMode(m.Mode); mode == "refuse"+h {
					break
				}
			}
		}
		return nil
	}
	Explore(c, "kinds of refusals", func(emit func(admCase) bool) {
		for o := 0; o < 4; o++ {
			for k := 1; k < len(refusals); k++ {
				for ck := 0; ck < 2; ck++ {
					for m := 1; m <= 4; m++ {
						for _, ix := range [][]int{{m}, {0, m}, {m, 0}} {
							if !emit(admCase{Order: o, Msgs: ix, Sg: []int{0}, Check: ck, Kind: k}) {
								return
							}
						}
					}
				}
			}
			for k := range refusals {
				for _, m := range []string{"m1", "m2"} {
					for _, ix := range [][]int{{0}, {10, 0}} {
						if !emit(admCase{Order: o, Msgs: ix, Sg: []int{0}, Memo: fmt.Sprintf("refuse-%s~%d", m, k)}) {
							return
						}
					}
				}
			}
		}
	}, run)
	Explore(c, "many handlers", func(emit func(admCase) bool) {
		for o := 4; o < 6; o++ {
			for ck := 0; ck < 2; ck++ {
				for m := few; m < len(msgs); m++ {
					for _, ix := range [][]int{{m}, {0, m}, {10, 5, m, 0}} {
						if !emit(admCase{Order: o, Msgs: ix, Sg: []int{0}, Check: ck}) {
							return
						}
					}
				}
				for m := 0; m < 3; m++ {
					if !emit(admCase{Order: o, Msgs: []int{0, m, 10}, Sg: []int{0}, Check: ck}) {
						return
					}
				}
			}
			for m := 1; m <= c32Many; m++ {
				for _, ix := range [][]int{{0}, {10, 0}} {
					if !emit(admCase{Order: o, Msgs: ix, Sg: []int{0}, Memo: fmt.Sprint("refuse-m", m)}) {
						return
					}
				}
			}
		}
	}, run)
	Explore(c, "many messages", func(emit func(admCase) bool) {
		most := 65
		if c.Thorough {
			most = 301
		}
		for o := 0; o < 2; o++ {
			for _, n := range sizesTo(most) {
				for _, p := range append([]int{-1}, placesIn(n)...) {
					for _, bad := range []int{1, 2, 3, 4, 8} {
						if p < 0 && bad > 1 || n > 10 && bad != 1+(n+p)%4 && !c.Thorough {
							continue
						}
						ix := make([]int, n)
						for i := range ix {
							ix[i] = i % 2 * 10
						}
						if p >= 0 {
							ix[p] = bad
						}
						if !emit(admCase{Order: o, Msgs: ix, Sg: []int{0}, Check: n % 2}) {
							return
						}
					}
				}
			}
		}
	}, run)
	Explore(c, "messages", func(emit func(admCase) bool) {
		for _, sg := range [][]int{{0}, {1, 0}, {1}} {
			for o := 0; o < 4; o++ {
				for ck := 0; ck < 3; ck++ {
					for l := 1; l <= 3; l++ {
						if l == 3 && !c.Thorough && (ck == 2 || o > 1 && sg[0] == 1 || len(sg) == 1 && sg[0] == 1) {
							continue
						}
						if !wordsLen(few, l, func(ix []int) bool { return emit(admCase{Order: o, Msgs: ix, Sg: sg, Check: ck}) }) {
							return
						}
					}
				}
			}
		}
	}, run)
}

// c32Transaction: a refusal of the transaction itself, whatever its error is, is final.
func c32Transaction(c *Ctx, e *appEntry, t txSpec) *Fail {
	raw := t.bytes()
	bd := dump(e.a.dbs)
	ck := e.a.check(raw)
	r := e.a.deliver(raw)
	tr := e.a.hm.take()
	ad := dump(e.a.dbs)
	addN(&c.Transitions, 2)
	addN(&c.Traces, 1)
	c.State(ad.digest())
	desc := fmt.Sprintf("%s refused by a transaction admission handler (%s): CheckTx %d %s, DeliverTx %d %s, handlers %v", t, t.Memo, ck.Code, trunc(ck.Log, 100), r.Code, trunc(r.Log, 100), tr)
	switch {
	case ck.Code == 0:
		return failf("check-tx-refusal", "%s", desc)
	case r.Code == 0:
		return failf("tx-refused-executed", "%s", desc)
	case !bd.equal(ad):
		return failf("tx-refused-effect", "%s\n  the state changed:%s", desc, bd.diff(ad))
	case len(tr) > 0:
		return failf("tx-refused-ran", "%s", desc)
	}
	return nil
}

// newCollector is 1 when the fee collector got its account by this transaction.
func newCollector(b, a world) int {
	_, x := b.Acc[feeCollector]
	_, y := a.Acc[feeCollector]
	if !x && y {
		return 1
	}
	return 0
}

func notesDiff(b, a world) string {
	x, _ := json.Marshal(b.Notes)
	y, _ := json.Marshal(a.Notes)
	if string(x) != string(y) {
		return fmt.Sprintf("notes were %s and are %s", x, y)
	}
	return ""
}
