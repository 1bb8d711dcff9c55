package main

import (
	"fmt"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

// magnitudes are the numbers around every power of two of a 64 bit counter which has not run out.
func magnitudes(c *Ctx) (out []uint64) {
	seen := map[uint64]bool{}
	for k := 1; k <= 64; k++ {
		if !c.Thorough && k%8 > 1 && k%8 < 7 && k != 53 && k != 52 && k != 20 {
			continue
		}
		p := uint64(1) << uint(k) // zero for the last
		for _, v := range []uint64{p - 4, p - 3, p - 2, p - 1, p, p + 1} {
			if !seen[v] && v > 1 && v < 1<<64-3 {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	for p, d := uint64(10), 1; d < 20; d++ {
		for _, v := range []uint64{p - 1, p} {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
		p *= 10
	}
	return
}

// shorter are the values a number turns into when part of it gets lost.
func shorter(v uint64) (out []uint64) {
	seen := map[uint64]bool{v: true}
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, k := range []uint{7, 8, 15, 16, 24, 31, 32, 53, 63} {
		add(v & (1<<k - 1))
		add(v + 1<<k)
		add(v - 1<<k)
	}
	add(uint64(float64(v)))
	add(uint64(float32(v)))
	add(0)
	add(^v)
	return
}

// setAccount changes the stored record of an account.
func (a *App) setAccount(addr string, f func(*authnv1.Account)) *Fail {
	x := new(authnv1.Account)
	if err := a.rt.Get(meta.NewStringID(addr), x); err != nil {
		return failf("account", "reading the account %s: %v", nick(addr), err)
	}
	f(x)
	a.rt.DisableAuthorization()
	err := a.rt.Update(user.NewUsersFromString("authn"), x)
	a.rt.EnableAuthorization()
	if err != nil {
		return failf("account", "updating the account %s: %v", nick(addr), err)
	}
	return nil
}

type magCase struct {
	V    uint64
	Kind int
}

// bigSequences drives accounts whose sequence is already at any magnitude: judge is called around
// each delivery.
func bigSequences(c *Ctx, part, name string, cfg func() appCfg, judge func(before, after world, bd, ad Dump, t txSpec, check, code uint32) *Fail) {
	vs := magnitudes(c)
	Explore(c, part, func(emit func(magCase) bool) {
		for _, v := range vs {
			for k := 0; k < 3; k++ {
				if !emit(magCase{v, k}) {
					return
				}
			}
		}
	}, func(w *Worker, cs magCase) *Fail {
		e := getApp(w, name, 5, cfg)
		signers := [][]int{{0}, {1, 0}, {0, 2}}[cs.Kind]
		for i, k := range signers {
			v := cs.V
			if cs.Kind == 2 && i == 0 {
				v = 3 // they differ
			}
			if f := e.a.setAccount(key(k).addr, func(x *authnv1.Account) { x.Sequence = v }); f != nil {
				return f
			}
		}
		cur := e.a.observe()
		last := signers[len(signers)-1]
		one := func(seq uint64) *Fail {
			t := mkSimple(signers, putMsg("n", "x", ""))(cur)
			for i := range t.Signers {
				if t.Signers[i].Key == last {
					t.Signers[i].Seq = seq
				}
			}
			raw := t.bytes()
			bd := dump(e.a.dbs)
			ck := e.a.check(raw).Code
			r := e.a.deliver(raw)
			ad := dump(e.a.dbs)
			after := observeDump(ad)
			addN(&c.Transitions, 1)
			f := judge(cur, after, bd, ad, t, ck, r.Code)
			cur = after
			return f
		}
		var seqs []uint64
		for _, s := range shorter(cs.V) {
			if cs.Kind == 0 || s < cs.V {
				seqs = append(seqs, s)
			}
		}
		// the ones that do not fit, the right one, it again, the next, it again, the first again
		seqs = append(seqs, cs.V-1, cs.V+1, cs.V, cs.V, cs.V+1, cs.V+1, cs.V)
		for _, s := range seqs {
			if f := one(s); f != nil {
				return f
			}
		}
		addN(&c.Traces, 1)
		c.State(cur.json())
		return nil
	})
}

// bigNumbers: accounts created when many exist already.
func bigNumbers(c *Ctx, cfg func() appCfg) {
	vs := magnitudes(c)
	A := key(0).addr
	Explore(c, "large numbers", func(emit func(magCase) bool) {
		for _, v := range vs {
			for k := 0; k < 4; k++ {
				if v >= 16 && !emit(magCase{v, k}) {
					return
				}
			}
		}
	}, func(w *Worker, cs magCase) *Fail {
		e := getApp(w, "c22 numbers", 5, cfg)
		e.a.rt.DisableAuthorization()
		err := e.a.rt.Update(user.NewUsersFromString("authn"), &authnv1.CurrentAccountNumber{Number: cs.V})
		e.a.rt.EnableAuthorization()
		if err != nil {
			return failf("number", "updating the next account number: %v", err)
		}
		cur := e.a.observe()
		for i, ms := range [][]msgSpec{
			{createMsg("x", nil)},
			{sendMsg(A, "x2", cn{"test", "1"})},
			{createMsg("x3", nil), createMsg("x4", nil)},
			{createMsg("x", nil)},
		} {
			if cur.Next >= 1<<64-2 {
				break
			}
			if cs.Kind == 3 && i == 0 {
				ms = []msgSpec{sendMsg(A, "y"), createMsg("y2", nil)}
			}
			ms = append([]msgSpec{}, ms...)
			if i == cs.Kind { // undone
				ms = append(ms, putMsg("n", "x", "fail"))
			}
			t := mkSimple([]int{0}, ms...)(cur)
			o := e.a.obs(cur, t, t.bytes(), defLimits)
			addN(&c.Transitions, 1)
			if f := accTxJudge(e.a, o); f != nil {
				return f
			}
			cur = o.After
		}
		addN(&c.Traces, 1)
		c.State(cur.json())
		return nil
	})
}

// bigAccountNumbers: signatures cover the whole account number.
func bigAccountNumbers(c *Ctx, run func(w *Worker, what string, raw []byte, accept bool, prepare func(a *App) *Fail) *Fail) {
	vs := magnitudes(c)
	Explore(c, "account numbers", func(emit func(magCase) bool) {
		for _, v := range vs {
			for k := 0; k < 2; k++ {
				if !emit(magCase{v, k}) {
					return
				}
			}
		}
	}, func(w *Worker, cs magCase) *Fail {
		set := func(a *App) *Fail {
			return a.setAccount(key(0).addr, func(x *authnv1.Account) { x.AccountNumber = cs.V })
		}
		try := func(num uint64) *Fail {
			t := txSpec{Msgs: []msgSpec{putMsg("n", "x", "")}, Signers: []signerSpec{{0, 0, num}}, Fee: []cn{appFee}}
			if cs.Kind == 1 {
				t.Signers = append([]signerSpec{{1, 0, 1}}, t.Signers...)
			}
			return run(w, fmt.Sprintf("account number %d, signed for %d: %s", cs.V, num, t), t.bytes(), num == cs.V, set)
		}
		for _, n := range append(shorter(cs.V), cs.V-1, cs.V+1, cs.V) {
			if f := try(n); f != nil {
				return f
			}
		}
		return nil
	})
}

// chainNames are identifiers of chains which some treatment of text would confuse.
func chainNames() []string {
	long := strings.Repeat("chain-", 60)
	return []string{"", "c", "mc-chain", "mc-chain-2", "mc-chain-20", "MC-chain", " mc-chain", "mc-chain ", "mc-chain\n", "mc-chain\x00", "mc chain", "mc/chain", "mc%2fchain", "mc-cháin", "mc-cha\u0301in", "链", "0", "00", "1",
		long[:15], long[:16], long[:17], long[:31], long[:32], long[:33], long[:49], long[:50], long[:51], long[:63], long[:64], long[:65], long[:127], long[:128], long[:129], long[:255], long[:256], long[:257], long}
}

type chainCase struct{ Own int }

// chainIdentities: what is signed for one chain is refused by every other.
func chainIdentities(c *Ctx, cfg func() appCfg) {
	names := chainNames()
	Explore(c, "chains", func(emit func(chainCase) bool) {
		for i := range names {
			if !emit(chainCase{i}) {
				return
			}
		}
	}, func(w *Worker, cs chainCase) *Fail {
		cf := cfg()
		cf.NoStart = true
		a := newApp(cf)
		defer a.close()
		a.initChain(names[cs.Own])
		a.begin(5)
		g := dump(a.dbs)
		t := txSpec{Msgs: []msgSpec{putMsg("n", "x", "")}, Signers: []signerSpec{{0, 0, 0}}, Fee: []cn{appFee}}
		body, auth := t.parts()
		for i, n := range names {
			raw := wTx(body, auth, key(0).sign(signDoc(body, auth, n, 0)))
			ck := a.check(raw)
			r := a.deliver(raw)
			addN(&c.Transitions, 1)
			desc := fmt.Sprintf("the chain %q, signed for %q", names[cs.Own], n)
			if i == cs.Own {
				if ck.Code != 0 || r.Code != 0 {
					return failf("valid-refused", "%s: refused: CheckTx %d %q, DeliverTx %d %q", desc, ck.Code, ck.Log, r.Code, r.Log)
				}
				restore(a.dbs, g)
				continue
			}
			if ck.Code == 0 || r.Code == 0 {
				return failf("chain-confused", "%s: CheckTx code %d, DeliverTx code %d", desc, ck.Code, r.Code)
			}
			if d := dump(a.dbs); !d.equal(g) {
				return failf("refused-effect", "%s: refused (%s) with effect:%s", desc, r.Log, g.diff(d))
			}
		}
		addN(&c.Traces, 1)
		return nil
	})
}

type bigLimCase struct {
	Limit uint64
	What  int // 0 memo, 1 signatures, 2 both, 3 the height
}

// largeLimits: limits of any magnitude, which are only exceeded by what exceeds them.
func largeLimits(c *Ctx) {
	cfg := func() appCfg { return appCfg{Accounts: stdAccounts()} }
	Explore(c, "large limits", func(emit func(bigLimCase) bool) {
		for _, v := range append(magnitudes(c), 0, 1, 1<<64-3, 1<<64-2, 1<<64-1) {
			for k := 0; k < 4; k++ {
				if k == 3 && v > 1<<63-1 || k == 2 && !c.Thorough {
					continue
				}
				if !emit(bigLimCase{v, k}) {
					return
				}
			}
		}
	}, func(w *Worker, cs bigLimCase) *Fail {
		e := getApp(w, "c31 large", 5, cfg)
		memo, sigs := uint64(5), uint64(3)
		if cs.What == 0 || cs.What == 2 {
			memo = cs.Limit
		}
		if cs.What == 1 || cs.What == 2 {
			sigs = cs.Limit
		}
		if f := e.a.setLimits(memo, sigs); f != nil {
			return f
		}
		height := uint64(5)
		if cs.What == 3 {
			height = cs.Limit
			e.a.begin(int64(height))
		}
		try := func(n, m int, timeout uint64) *Fail {
			t := mkSimple(upTo(n), putMsg("n", "x", ""))(e.w)
			t.Memo = strings.Repeat("m", m)
			t.Timeout = timeout
			raw := t.bytes()
			g := dump(e.a.dbs)
			ck := e.a.check(raw)
			r := e.a.deliver(raw)
			addN(&c.Transitions, 1)
			ok := uint64(n) <= sigs && uint64(m) <= memo && (timeout == 0 || timeout >= height)
			if (ck.Code == 0) != ok || (r.Code == 0) != ok {
				return failf("large-limit", "limits: memo %d, signatures %d, height %d; a memo of %d bytes, %d signatures, timeout height %d: CheckTx %d %q, DeliverTx %d %q", memo, sigs, height, m, n, timeout, ck.Code, ck.Log, r.Code, r.Log)
			}
			if ok {
				restore(e.a.dbs, g)
			}
			return nil
		}
		if cs.What == 3 {
			for _, to := range append(shorter(cs.Limit), cs.Limit, cs.Limit-1, cs.Limit+1) {
				if f := try(1, 1, to); f != nil {
					return f
				}
			}
			return nil
		}
		for n := 1; n < 4; n++ {
			for _, m := range []int{0, 1, 4, 5} {
				if !c.Thorough && n+m%2 != 1 && n+m%2 != 4 {
					continue
				}
				if f := try(n, m, 0); f != nil {
					return f
				}
			}
		}
		if cs.What == 0 && cs.Limit > 0 && cs.Limit <= uint64(most(c, 1<<13, 1<<17)) {
			for d := -1; d < 2; d++ {
				if f := try(1, int(cs.Limit)+d, 0); f != nil {
					return f
				}
			}
		}
		addN(&c.Traces, 1)
		return nil
	})
}
