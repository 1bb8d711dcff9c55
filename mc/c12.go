package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/fdymylja/tmos/runtime/module"
)

func init() {
	register("C12", c12)
	register("C13", c13)
}

// signedTx is a transaction signed once, in advance.
type signedTx struct {
	spec txSpec
	raw  []byte
}

func presign(t txSpec) signedTx { return signedTx{t, t.bytes()} }

// seqModel is the world plus which transactions already ran.
type seqModel struct {
	W   world
	Ran string // one digit per transaction: how often it was executed
}

// seqJudge: accepted exactly when every sequence fits; then exactly the signers advance.
func seqJudge(before, after world, bd, ad Dump, t txSpec, check, code uint32, failing bool) (bool, *Fail) {
	fits := true
	signers := map[string]bool{}
	for _, s := range t.Signers {
		a := before.Acc[key(s.Key).addr]
		signers[key(s.Key).addr] = true
		if a.Seq != s.Seq {
			fits = false
		}
	}
	desc := func() string {
		s := ""
		for _, x := range t.Signers {
			s += fmt.Sprintf(" %s at %d (signed for %d)", nick(key(x.Key).addr), before.Acc[key(x.Key).addr].Seq, x.Seq)
		}
		return fmt.Sprintf("%s, accounts%s: CheckTx code %d, DeliverTx code %d", t, s, check, code)
	}
	if !fits {
		if check == 0 {
			return false, failf("check-wrong-sequence", "%s\n  CheckTx accepts a wrong sequence", desc())
		}
		if code == 0 {
			return false, failf("wrong-sequence", "%s\n  executed with a wrong sequence", desc())
		}
		if !bd.equal(ad) {
			return false, failf("wrong-sequence-effect", "%s\n  refused with effect:%s", desc(), bd.diff(ad))
		}
		return false, nil
	}
	if check != 0 {
		return false, failf("right-sequence-refused", "%s\n  CheckTx refuses the right sequence", desc())
	}
	if (code != 0) != failing {
		return false, failf("right-sequence-refused", "%s\n  DeliverTx refuses the right sequence", desc())
	}
	for a, b := range before.Acc {
		want := b.Seq
		if signers[a] {
			want++
		}
		if got := after.Acc[a].Seq; got != want {
			return false, failf("sequence-advance", "%s\n  the sequence of %s becomes %d, expected %d", desc(), nick(a), got, want)
		}
	}
	return true, nil
}

func c12(c *Ctx) {
	c.Rule = "pre-signed transactions of several accounts (alone, jointly, in both signer orders, listed twice, failing in execution) delivered in every order with repetitions, across blocks: breadth-first over all reachable states, with how often each ran as part of the state, to a fixpoint. A long chain of sequences past every encoding boundary with replay and prediction attempts at each."
	for i := 0; i < 6; i++ {
		key(i)
	}
	acc := append(withCollector(stdAccounts()), genAcct{Addr: key(4).addr, Pub: key(4).pub, Balance: []cn{{"test", "100000"}}})
	acc[0].Balance, acc[1].Balance, acc[2].Balance = []cn{{"test", "1000"}}, []cn{{"test", "1000"}}, []cn{{"test", "1000"}}
	cfg := appCfg{Accounts: acc}
	const A, B, C = 0, 1, 2
	mk := func(memo string, fail bool, ss ...signerSpec) signedTx {
		m := putMsg("n"+memo, "x", "")
		if fail {
			m = putMsg("n"+memo, "x", "fail")
		}
		for i := range ss {
			ss[i].Num = uint64(ss[i].Key)
		}
		return presign(txSpec{Msgs: []msgSpec{m}, Signers: ss, Fee: []cn{appFee}, Memo: memo})
	}
	s := func(k int, seq uint64) signerSpec { return signerSpec{Key: k, Seq: seq} }
	txs := []signedTx{
		mk("a", false, s(A, 0)), mk("b", false, s(A, 0)), mk("c", true, s(A, 1)), mk("d", false, s(A, 2)),
		mk("e", false, s(B, 0)), mk("f", false, s(A, 1), s(B, 0)), mk("g", false, s(B, 1), s(A, 1)),
		mk("h", false, s(C, 0)), mk("i", false, s(C, 1), s(A, 0)), mk("j", false, s(A, 0), s(A, 0)), mk("k", false, s(A, 0), s(A, 1)),
	}
	failing := map[int]bool{2: true}
	if c.Thorough {
		txs = append(txs, mk("l", false, s(A, 3)), mk("m", false, s(A, 3), s(B, 2), s(C, 1)), mk("n", true, s(B, 1), s(C, 0)), mk("o", false, s(C, 2), s(B, 1)))
		failing[13] = true
	}
	n := len(txs)
	name := func(op int) string {
		if op == n {
			return "new block"
		}
		return txs[op].spec.String()
	}
	newSys := func() *system[seqModel] {
		a := newApp(cfg)
		a.begin(5)
		g := dump(a.dbs)
		sy := &system[seqModel]{dbs: a.dbs, genesis: g, m0: seqModel{observeDump(g), string(bytes.Repeat([]byte{'0'}, n))}, close: a.close, renew: 500,
			onRestore: func() { a.hm.take() }}
		sy.step = func(m seqModel, op int) (seqModel, *Fail) {
			if op == n {
				h := int64(6)
				if m.W.Height == 6 {
					h = 5 // heights alternate so that the space stays finite
				}
				a.begin(h)
				return seqModel{a.observe(), m.Ran}, nil
			}
			t := txs[op]
			bd := dump(a.dbs)
			ck := a.check(t.raw).Code
			a.hm.take()
			resp := a.deliver(t.raw)
			ad := dump(a.dbs)
			w := observeDump(ad)
			ran, f := seqJudge(m.W, w, bd, ad, t.spec, ck, resp.Code, failing[op])
			if f != nil {
				return m, f
			}
			calls := len(a.hm.take()) > 0
			if calls != ran {
				return m, failf("executed", "%s: handlers ran=%v, sequences fit=%v", t.spec, calls, ran)
			}
			r := []byte(m.Ran)
			if ran {
				r[op]++
				if r[op] > '1' {
					return m, failf("executed-twice", "%s was executed twice", t.spec)
				}
			}
			return seqModel{w, string(r)}, nil
		}
		return sy
	}
	BFS(c, "orders", n+1, 30, 400000, name, newSys, func(m seqModel) string { return m.Ran })

	manySequences(c)

	bigSequences(c, "large sequences", "c12 large", func() appCfg { return cfg }, func(before, after world, bd, ad Dump, t txSpec, check, code uint32) *Fail {
		_, f := seqJudge(before, after, bd, ad, t, check, code, false)
		return f
	})

	// long chains: at every sequence, replays and predictions are refused
	type chain struct{ Seed int }
	limit := uint64(300)
	if c.Thorough {
		limit = 1200
	}
	Explore(c, "long chain", func(emit func(chain) bool) {
		for i := 0; i < 2; i++ {
			emit(chain{i})
		}
	}, func(w *Worker, cs chain) *Fail {
		a := newApp(cfg)
		defer a.close()
		a.begin(5)
		k := 4
		num := a.observe().Acc[key(k).addr].Num
		mkq := func(seq uint64) signedTx {
			ss := []signerSpec{{k, seq, num}}
			if cs.Seed == 1 {
				ss = append(ss, signerSpec{A, seq, 0})
			}
			return presign(txSpec{Msgs: []msgSpec{putMsg("n", "x", "")}, Signers: ss, Fee: []cn{appFee}})
		}
		var prev []signedTx
		for seq := uint64(0); seq < limit; seq++ {
			cur := mkq(seq)
			try := []signedTx{mkq(seq + 1), mkq(seq + 256), mkq(seq + 1<<32), cur, cur}
			if seq > 0 {
				try = append([]signedTx{mkq(seq - 1)}, try...)
			}
			for _, d := range []int{1, 2, 127, 128, 255, 256} {
				if len(prev) >= d {
					try = append(try, prev[len(prev)-d])
				}
			}
			if seq%16 == 0 {
				a.begin(int64(6 + seq/16))
			}
			for _, t := range try {
				bd := dump(a.dbs)
				before := observeDump(bd)
				ck := a.check(t.raw).Code
				r := a.deliver(t.raw)
				ad := dump(a.dbs)
				addN(&c.Transitions, 1)
				if _, f := seqJudge(before, observeDump(ad), bd, ad, t.spec, ck, r.Code, false); f != nil {
					return f
				}
			}
			prev = append(prev, cur)
		}
		return nil
	})
}

// ---- C13 ----

type sigCase struct {
	Base int
	Mut  string
	Bit  int
}

// sigBase are the transactions that are mutated.
func sigBases(w world) []txSpec {
	A, B := key(0).addr, key(1).addr
	sg := func(ks ...int) (out []signerSpec) {
		for _, k := range ks {
			out = append(out, w.signer(k))
		}
		return
	}
	return []txSpec{
		{Msgs: []msgSpec{sendMsg(A, B, cn{"test", "1"})}, Signers: sg(0), Fee: []cn{appFee}},
		{Msgs: []msgSpec{putMsg("n", "x", ""), sendMsg(B, A, cn{"test", "1"})}, Signers: sg(1, 0), Fee: []cn{appFee}, Memo: "m", Timeout: 9},
		{Msgs: []msgSpec{putMsg("n", "x", "")}, Signers: sg(2), Fee: []cn{appFee}},
		{Msgs: []msgSpec{putMsg("n", "y", "")}, Signers: sg(0, 1, 2), Fee: []cn{appFee}, Payer: B, Gas: 7},
		{Msgs: []msgSpec{putMsg("n", "z", "")}, Signers: sg(4), Fee: []cn{appFee}},
	}
}

// sigVariants builds named alterations; accept tells whether the result must be accepted.
type sigVariant struct {
	name   string
	raw    []byte
	accept bool
}

func highS(sig []byte) []byte {
	n := btcec.S256().N
	s := new(big.Int).SetBytes(sig[32:])
	s.Sub(n, s)
	out := append([]byte{}, sig[:32]...)
	b := s.Bytes()
	out = append(out, make([]byte, 32-len(b))...)
	return append(out, b...)
}

func sigVariants(w world, t txSpec, other txSpec) []sigVariant {
	body, auth := t.parts()
	var sigs [][]byte
	for _, s := range t.Signers {
		sigs = append(sigs, key(s.Key).sign(signDoc(body, auth, chainID, s.Num)))
	}
	var out []sigVariant
	add := func(n string, acc bool, raw []byte) { out = append(out, sigVariant{n, raw, acc}) }
	with := func(i int, s []byte) [][]byte {
		x := append([][]byte{}, sigs...)
		x[i] = s
		return x
	}
	add("as signed", true, wTx(body, auth, sigs...))
	add("signed twice, same bytes", true, t.bytes())
	ob, oa := other.parts()
	for i, s := range t.Signers {
		k := key(s.Key)
		doc := signDoc(body, auth, chainID, s.Num)
		p := fmt.Sprintf("signer %d: ", i)
		sg := func(n string, sig []byte) { add(p+n, false, wTx(body, auth, with(i, sig)...)) }
		for j := 0; j < 6; j++ {
			if j != s.Key {
				sg(fmt.Sprintf("signature of key %d", j), key(j).sign(doc))
			}
		}
		for _, ch := range []string{"", "mc-chai", "mc-chain2", "other", "MC-CHAIN", "mc-chain\x00"} {
			sg("other chain "+q(ch), k.sign(signDoc(body, auth, ch, s.Num)))
		}
		for _, num := range []uint64{s.Num + 1, s.Num + 2, s.Num + 256, s.Num + 1<<32, s.Num - 1, 0, 1, 2} {
			if num != s.Num {
				sg(fmt.Sprintf("account number %d", num), k.sign(signDoc(body, auth, chainID, num)))
			}
		}
		sg("other body", k.sign(signDoc(ob, auth, chainID, s.Num)))
		sg("other auth info", k.sign(signDoc(body, oa, chainID, s.Num)))
		sg("no body", k.sign(signDoc(nil, auth, chainID, s.Num)))
		sg("no auth info", k.sign(signDoc(body, nil, chainID, s.Num)))
		sg("body only", k.sign(body))
		sg("whole transaction", k.sign(wTx(body, auth)))
		sg("nothing signed", k.sign(nil))
		sg("empty", nil)
		sg("64 zeros", make([]byte, 64))
		sg("one byte", []byte{1})
		sg("high S", highS(sigs[i]))
		sg("high S zero R", append(make([]byte, 32), sigs[i][32:]...))
		sg("zero S", append(append([]byte{}, sigs[i][:32]...), make([]byte, 32)...))
		sg("S and R swapped", append(append([]byte{}, sigs[i][32:]...), sigs[i][:32]...))
		nB := btcec.S256().N.Bytes()
		sg("S is the order", append(append([]byte{}, sigs[i][:32]...), nB...))
		sg("R is the order", append(append([]byte{}, nB...), sigs[i][32:]...))
		for l := 0; l < 64; l++ {
			sg(fmt.Sprintf("cut to %d bytes", l), sigs[i][:l])
		}
		for _, x := range [][]byte{{0}, {1}, {27}, make([]byte, 64), sigs[i]} {
			sg("followed by more bytes", append(append([]byte{}, sigs[i]...), x...))
			sg("preceded by more bytes", append(append([]byte{}, x...), sigs[i]...))
		}
		// the recoverable and DER forms
		h := highS(highS(sigs[i]))
		if !bytes.Equal(h, sigs[i]) {
			hp("highS is not an involution")
		}
		r, ss := new(big.Int).SetBytes(sigs[i][:32]), new(big.Int).SetBytes(sigs[i][32:])
		sg("DER form", (&btcec.Signature{R: r, S: ss}).Serialize())
		for j := range sigs {
			if j != i && t.Signers[j].Key != s.Key {
				sg(fmt.Sprintf("signature of signer %d", j), sigs[j])
				sw := append([][]byte{}, sigs...)
				sw[i], sw[j] = sw[j], sw[i]
				add(p+"signatures swapped", false, wTx(body, auth, sw...))
			}
		}
		// another key declared, with every combination of who really signs
		for j := 0; j < 6; j++ {
			if j == s.Key {
				continue
			}
			t2 := t
			t2.Signers = append([]signerSpec{}, t.Signers...)
			t2.Signers[i].Key = j
			b2, a2 := t2.parts()
			var real [][]byte
			for _, x := range t.Signers {
				real = append(real, key(x.Key).sign(signDoc(b2, a2, chainID, x.Num)))
			}
			add(p+fmt.Sprintf("declares key %d, signed by the real key", j), false, wTx(b2, a2, real...))
			add(p+fmt.Sprintf("declares key %d, original signatures", j), false, wTx(b2, a2, sigs...))
		}
		// the same key in other encodings
		enc := func(n string, acc bool, pk []byte, url string) {
			t2 := t
			b2, _ := t2.parts()
			var a2 []byte
			for x, y := range t.Signers {
				if x == i {
					a2 = append(a2, fBytes(1, cat(fBytes(1, wAny(url, fBytesOpt(1, pk))), fBytes(2, fBytes(1, fUint(1, 1))), fUint(3, y.Seq)))...)
				} else {
					a2 = append(a2, fBytes(1, wSigner(key(y.Key).pub, y.Seq))...)
				}
			}
			var fee []byte
			for _, x := range t.Fee {
				fee = append(fee, fBytes(1, wCoin(x))...)
			}
			a2 = append(a2, fBytes(2, cat(fee, fUint(2, t.Gas), fStr(3, t.Payer)))...)
			var real [][]byte
			for _, x := range t.Signers {
				real = append(real, key(x.Key).sign(signDoc(b2, a2, chainID, x.Num)))
			}
			add(p+n, acc, wTx(b2, a2, real...))
		}
		enc("key under its Cosmos name", true, k.pub, "/cosmos.crypto.secp256k1.PubKey")
		enc("uncompressed key", false, k.priv.PubKey().SerializeUncompressed(), pubKeyURL)
		enc("hybrid key", false, k.priv.PubKey().SerializeHybrid(), pubKeyURL)
		flip := append([]byte{}, k.pub...)
		flip[0] ^= 1
		enc("other parity", false, flip, pubKeyURL)
		enc("no key", false, nil, pubKeyURL)
		enc("short key", false, k.pub[:32], pubKeyURL)
		enc("long key", false, append(append([]byte{}, k.pub...), 0), pubKeyURL)
		enc("not a key", false, k.pub, "/tmos.x.bank.v1alpha1.Balance")
		enc("unknown key type", false, k.pub, "/cosmos.crypto.ed25519.PubKey")
	}
	add("no signatures", false, wTx(body, auth))
	add("last signature missing", false, wTx(body, auth, sigs[:len(sigs)-1]...))
	add("first signature missing", false, wTx(body, auth, sigs[1:]...))
	add("one signature more", false, wTx(body, auth, append(append([][]byte{}, sigs...), sigs[0])...))
	add("empty signature more", false, cat(wTx(body, auth, sigs...), fBytes(3, nil)))
	var osigs [][]byte
	for _, s := range other.Signers {
		osigs = append(osigs, key(s.Key).sign(signDoc(ob, oa, chainID, s.Num)))
	}
	add("signatures of another transaction", false, wTx(body, auth, osigs...))
	add("body of another transaction", false, wTx(ob, auth, sigs...))
	add("auth info of another transaction", false, wTx(body, oa, sigs...))
	add("body added", false, cat(wTx(body, auth, sigs...), fBytes(1, ob)))
	add("auth info added", false, cat(wTx(body, auth, sigs...), fBytes(2, oa)))
	return out
}

func c13(c *Ctx) {
	c.Rule = "valid transactions with 1 to 3 signers (with and without a registered key) and every alteration of them: every single-bit flip and truncation of the bytes, every signature replaced, swapped, removed, added, re-encoded, or made by another key, for another chain, account number, body or auth info, and every declared key replaced or re-encoded; checked and delivered, with the stores compared byte for byte. The unaltered transactions are accepted."
	for i := 0; i < 6; i++ {
		key(i)
	}
	cfg := func() appCfg {
		return appCfg{Accounts: append(stdAccounts(),
			genAcct{Addr: key(4).addr, Pub: key(5).pub, Balance: []cn{{"test", "5"}}}, // registered with a key that is not its own
			genAcct{Addr: "test1plain", Balance: []cn{{"test", "5"}}})}
	}
	runIn := func(w *Worker, what string, raw []byte, accept bool, prepare func(a *App) *Fail) *Fail {
		e := getApp(w, "c13", 5, cfg)
		g := e.g
		if prepare != nil {
			if f := prepare(e.a); f != nil {
				return f
			}
			g = dump(e.a.dbs)
		}
		ck := e.a.check(raw)
		d1 := dump(e.a.dbs)
		r := e.a.deliver(raw)
		d2 := dump(e.a.dbs)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.State(fmt.Sprintf("%x", d2.digest()))
		c.Outcome(fmt.Sprint(ck.Code, r.Code, trunc(r.Log, 40)))
		if accept {
			if ck.Code != 0 || r.Code != 0 {
				return failf("valid-refused", "%s: refused: CheckTx %d %q, DeliverTx %d %q", what, ck.Code, ck.Log, r.Code, r.Log)
			}
			return nil
		}
		if ck.Code == 0 {
			return failf("check-accepts", "%s: CheckTx accepts", what)
		}
		if r.Code == 0 {
			return failf("deliver-accepts", "%s: DeliverTx accepts", what)
		}
		if !d1.equal(g) || !d2.equal(g) {
			return failf("refused-effect", "%s: refused (%s) with effect:%s", what, r.Log, g.diff(d2))
		}
		return nil
	}
	run := func(w *Worker, what string, raw []byte, accept bool) *Fail { return runIn(w, what, raw, accept, nil) }
	chainIdentities(c, cfg)
	bigAccountNumbers(c, runIn)
	// the world is the same in every application: take it from one
	a := newApp(cfg())
	a.begin(5)
	w0 := a.observe()
	a.close()
	bases := sigBases(w0)
	Explore(c, "alterations", func(emit func(sigCase) bool) {
		for b := range bases {
			for i := range sigVariants(w0, bases[b], bases[(b+1)%len(bases)]) {
				if !emit(sigCase{b, "", i}) {
					return
				}
			}
		}
	}, func(w *Worker, cs sigCase) *Fail {
		k := fmt.Sprint("variants", cs.Base)
		vs, ok := w.S[k].([]sigVariant)
		if !ok {
			vs = sigVariants(w0, bases[cs.Base], bases[(cs.Base+1)%len(bases)])
			w.S[k] = vs
		}
		v := vs[cs.Bit]
		return run(w, fmt.Sprintf("%s; %s", bases[cs.Base], v.name), v.raw, v.accept)
	})
	raws := make([][]byte, len(bases))
	for i, b := range bases {
		raws[i] = b.bytes()
	}
	Explore(c, "bits", func(emit func(sigCase) bool) {
		for b := range bases {
			for i := 0; i < 8*len(raws[b]); i++ {
				if !emit(sigCase{b, "flip", i}) {
					return
				}
			}
			for i := 0; i < len(raws[b]); i++ {
				if !emit(sigCase{b, "cut", i}) {
					return
				}
				if c.Thorough {
					if !emit(sigCase{b, "drop", i}) || !emit(sigCase{b, "double", i}) || !emit(sigCase{b, "zero", i}) || !emit(sigCase{b, "ff", i}) {
						return
					}
				}
			}
		}
		if c.Thorough { // every pair of flipped bits of the first signature and its neighbourhood
			n := 8 * len(raws[0])
			for i := n - 8*70; i < n; i++ {
				for j := i + 1; j < n; j += 7 {
					if !emit(sigCase{0, fmt.Sprint("flip2:", j), i}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs sigCase) *Fail {
		r := append([]byte{}, raws[cs.Base]...)
		switch cs.Mut {
		case "flip":
			r[cs.Bit/8] ^= 1 << (cs.Bit % 8)
		case "cut":
			r = r[:cs.Bit]
		case "drop":
			r = append(r[:cs.Bit], r[cs.Bit+1:]...)
		case "double":
			r = append(r[:cs.Bit+1], raws[cs.Base][cs.Bit:]...)
		case "zero", "ff":
			x := byte(0)
			if cs.Mut == "ff" {
				x = 0xff
			}
			if r[cs.Bit] == x {
				return nil
			}
			r[cs.Bit] = x
		default:
			var j int
			fmt.Sscanf(cs.Mut, "flip2:%d", &j)
			r[cs.Bit/8] ^= 1 << (cs.Bit % 8)
			r[j/8] ^= 1 << (j % 8)
		}
		return run(w, fmt.Sprintf("%s; %s %d of %d", bases[cs.Base], cs.Mut, cs.Bit, 8*len(raws[cs.Base])), r, false)
	})

	manySignatures(c)

	// chains with other names accept only their own signatures
	type chainCase struct{ App string }
	chains := append([]string{"mc-chain", "mc-chain-2", "mc", "Mc-chain", "x y/z", "ünïcode"}, oddChains...)
	Explore(c, "chains", func(emit func(chainCase) bool) {
		for _, x := range chains {
			if !emit(chainCase{x}) {
				return
			}
		}
	}, func(w *Worker, cs chainCase) *Fail {
		cf := cfg()
		cf.NoStart = true
		a := newApp(cf)
		defer a.close()
		a.initChain(cs.App)
		a.begin(5)
		t := sigBases(a.observe())[1]
		try := func(ch string) *Fail {
			t.Chain = ch
			if ch == "" {
				t.Chain = noChain
			}
			raw := t.bytes()
			ck := a.check(raw)
			ckd := dump(a.dbs)
			r := a.deliver(raw)
			addN(&c.Transitions, 1)
			ok := cs.App == ch
			if (ck.Code == 0) != ok || (r.Code == 0) != ok {
				return failf("chain", "transaction signed for chain %q on chain %q: CheckTx %d %s, DeliverTx %d %s", ch, cs.App, ck.Code, ck.Log, r.Code, r.Log)
			}
			if d := dump(a.dbs); !ok && !d.equal(ckd) {
				return failf("refused-effect", "transaction signed for chain %q on chain %q has effects: %s", ch, cs.App, ckd.diff(d))
			}
			return nil
		}
		for _, ch := range chains {
			if ch != cs.App {
				if f := try(ch); f != nil {
					return f
				}
			}
		}
		addN(&c.Traces, 1)
		return try(cs.App)
	})
}

// oddChains are chain identifiers which are easily taken for one another, in groups.
var oddChains = func() []string {
	out := []string{"", " ", "\n", "a ", " a", "a\n", "\ta", "a\x00", "A", "á", "a\u0301", "a/", "a%2F", "a-1", "a-01", "a_1", "a.1", "\"a\"", "\ufeffa"}
	for _, n := range []int{16, 20, 32, 50, 64, 128, 255, 256, 1024} {
		l := strings.Repeat("l", n-1)
		out = append(out, l, l+"l", l+"x", l+"lx")
	}
	return out
}()

var _ module.Module
