package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/x/authn/tx"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoregistry"
)

func init() { register("C23", c23) }

// node is a message on the wire: known fields in order, some of them messages themselves.
type wnode struct {
	name   string
	fields []wfield
	known  map[protowire.Number]protowire.Type
}

type wfield struct {
	num protowire.Number
	raw []byte // the encoded field, when leaf
	sub *wnode
}

func (n *wnode) leaf(raw []byte) *wnode {
	if len(raw) == 0 {
		return n
	}
	num, _, _ := protowire.ConsumeTag(raw)
	n.fields = append(n.fields, wfield{num: num, raw: raw})
	return n
}
func (n *wnode) msg(num protowire.Number, s *wnode) *wnode {
	n.fields = append(n.fields, wfield{num: num, sub: s})
	return n
}

// encode writes the node with raw injected into the node inj at field position pos.
func (n *wnode) encode(inj *wnode, pos int, raw []byte) []byte {
	var out []byte
	for i, f := range n.fields {
		if n == inj && i == pos {
			out = append(out, raw...)
		}
		if f.sub != nil {
			out = append(out, fBytes(f.num, f.sub.encode(inj, pos, raw))...)
		} else {
			out = append(out, f.raw...)
		}
	}
	if n == inj && pos >= len(n.fields) {
		out = append(out, raw...)
	}
	return out
}

func (n *wnode) walk(f func(*wnode)) {
	f(n)
	for _, x := range n.fields {
		if x.sub != nil {
			x.sub.walk(f)
		}
	}
}

const (
	vT = protowire.VarintType
	bT = protowire.BytesType
)

func wn(name string, known map[protowire.Number]protowire.Type) *wnode {
	return &wnode{name: name, known: known}
}

type kf = map[protowire.Number]protowire.Type

func coinNode(c cn) *wnode {
	return wn("coin", kf{1: bT, 2: bT}).leaf(fStr(1, c.D)).leaf(fStr(2, c.A))
}

func anyNode(name, url string, v *wnode) *wnode {
	return wn(name+" any", kf{1: bT, 2: bT}).leaf(fStr(1, url)).msg(2, v)
}

// fullTx is a transaction using every declared field and two signers.
func fullTx() (*wnode, int) {
	send := wn("transfer", kf{1: bT, 2: bT, 3: bT}).leaf(fStr(1, key(0).addr)).leaf(fStr(2, "b")).msg(3, coinNode(cn{"test", "1"})).msg(3, coinNode(cn{"foo", "2"}))
	acc := wn("account", kf{1: bT, 2: bT, 3: vT, 4: vT}).leaf(fStr(1, "x")).msg(2, wn("account key any", kf{1: bT, 2: bT}).leaf(fStr(1, "some"))).leaf(fUint(3, 4))
	create := wn("create", kf{1: bT}).msg(1, acc)
	put := wn("put", kf{1: bT, 2: bT, 3: bT, 4: bT, 5: bT}).leaf(fStr(1, "i")).leaf(fStr(2, "v"))
	body := wn("body", kf{1: bT, 2: bT, 3: vT, 1023: bT, 2047: bT}).
		msg(1, anyNode("transfer", "/tmos.x.bank.v1alpha1.MsgSendCoins", send)).
		msg(1, anyNode("create", "/tmos.x.authn.v1alpha1.MsgCreateAccount", create)).
		msg(1, anyNode("alias", "/cosmos.bank.v1beta1.MsgSend", wn("aliased transfer", kf{1: bT, 2: bT, 3: bT}).leaf(fStr(1, "a")))).
		msg(1, anyNode("put", "/mc.app.Put", put)).
		leaf(fStr(2, "memo")).leaf(fUint(3, 7))
	auth := wn("auth info", kf{1: bT, 2: bT})
	for i, url := range []string{pubKeyURL, "/cosmos.crypto.secp256k1.PubKey"} {
		pk := wn("key", kf{1: bT}).leaf(fBytes(1, key(i).pub))
		mode := wn("mode", kf{1: bT, 2: bT}).msg(1, wn("single", kf{1: vT}).leaf(fUint(1, 1)))
		auth.msg(1, wn("signer", kf{1: bT, 2: bT, 3: vT}).msg(1, anyNode("key", url, pk)).msg(2, mode).leaf(fUint(3, uint64(i+1))))
	}
	auth.msg(2, wn("fee", kf{1: bT, 2: vT, 3: bT, 4: bT}).msg(1, coinNode(cn{"test", "1"})).leaf(fUint(2, 9)).leaf(fStr(3, key(0).addr)).leaf(fStr(4, "granter")))
	return wn("transaction", kf{1: bT, 2: bT, 3: bT}).msg(1, body).msg(2, auth).leaf(fBytes(3, []byte("sig1"))).leaf(fBytes(3, []byte("sig2"))), 2
}

// decSigner describes one signer of a decoder case.
type decSigner struct {
	Key  int
	Seq  uint64
	Kind string // "" ok; otherwise a variation
}

type decCase struct {
	Msgs    []int
	Signers []decSigner
	Sigs    int
	Fee     string // "absent", "empty", "one", "two", "payer", "stranger"
	Body    string // "", "absent", "empty", "memo"
	Auth    string // "", "absent", "empty"
	Memo    string
	Timeout uint64
}

var decMsgs = []struct {
	url  string
	body []byte
	bad  bool
}{
	{"/mc.app.Put", cat(fStr(1, "i"), fStr(2, "v")), false},
	{"/mc.app.Put", nil, false},
	{"/tmos.x.bank.v1alpha1.MsgSendCoins", cat(fStr(1, "a"), fStr(2, "b"), fBytes(3, wCoin(cn{"test", "1"})), fBytes(3, wCoin(cn{"foo", "2"}))), false},
	{"/cosmos.bank.v1beta1.MsgSend", cat(fStr(1, "c")), false},
	{"/tmos.x.authn.v1alpha1.MsgCreateAccount", fBytes(1, cat(fStr(1, "n"), fUint(4, 5))), false},
	{"/mc.app.Hidden", fStr(1, "h"), false},
	{"/tmos.x.bank.v1alpha1.Balance", fStr(1, "a"), true}, // not a transition
	{"/mc.app.Note", fStr(1, "a"), true},
	{"/tmos.x.authn.v1alpha1.Fee", nil, true},
	{"/no.such.Message", nil, true},
	{"", nil, true},
	{"/", nil, true},
	{"/cosmos.bank.v1beta1.MsgMultiSend", nil, true},
	{"/mc.app.Put", []byte{0x0a}, true},            // truncated
	{"/mc.app.Put", []byte{0x0a, 5, 'x'}, true},    // length beyond the end
	{"/mc.app.Put", fBytes(1, []byte{0xff}), true}, // invalid text
	{"/mc.app.Put", cat(fStr(1, "i"), fStr(9, "u")), true},
	{"/mc.app.Put", []byte{0x00}, true},
}

var decModes = map[string][]byte{
	"no mode": nil, "empty mode": fBytes(2, nil), "mode 0": fBytes(2, fBytes(1, nil)), "mode 2": fBytes(2, fBytes(1, fUint(1, 2))), "mode 127": fBytes(2, fBytes(1, fUint(1, 127))),
	"mode 3": fBytes(2, fBytes(1, fUint(1, 3))), "mode 257": fBytes(2, fBytes(1, fUint(1, 257))), "multi": fBytes(2, fBytes(2, nil)), "multi of direct": fBytes(2, fBytes(2, fBytes(2, fBytes(1, fUint(1, 1))))),
}

func decKinds() []string {
	ks := []string{"", "alias", "no key", "empty key any", "unknown key type", "key of no bytes", "short key", "long key", "zero key", "uncompressed key", "off curve key", "account as key", "garbage key"}
	return append(ks, sortedKeys(decModes)...)
}

func (s decSigner) wire() []byte {
	pk := key(s.Key).pub
	url := pubKeyURL
	mode := fBytes(2, fBytes(1, fUint(1, 1)))
	var ka []byte
	switch s.Kind {
	case "alias":
		url = "/cosmos.crypto.secp256k1.PubKey"
	case "no key":
		return cat(mode, fUint(3, s.Seq))
	case "empty key any":
		return cat(fBytes(1, nil), mode, fUint(3, s.Seq))
	case "unknown key type":
		url = "/cosmos.crypto.ed25519.PubKey"
	case "key of no bytes":
		pk = nil
	case "short key":
		pk = pk[:32]
	case "long key":
		pk = append(append([]byte{}, pk...), 1)
	case "zero key":
		pk = make([]byte, 33)
	case "uncompressed key":
		pk = key(s.Key).priv.PubKey().SerializeUncompressed()
	case "off curve key":
		pk = append([]byte{2}, bytes.Repeat([]byte{0xff}, 32)...)
	case "account as key":
		url = "/tmos.x.authn.v1alpha1.Account"
	case "garbage key":
		ka = fBytes(1, wAny(url, []byte{0x0a, 200}))
	default:
		if m, is := decModes[s.Kind]; is {
			mode = m
		}
	}
	if ka == nil {
		v := fBytesOpt(1, pk)
		ka = fBytes(1, wAny(url, v))
	}
	return cat(ka, mode, fUint(3, s.Seq))
}

func (cs decCase) build() (raw []byte, accept bool, payer string, fee []cn) {
	accept = true
	var body, auth []byte
	for _, m := range cs.Msgs {
		body = append(body, fBytes(1, wAny(decMsgs[m].url, decMsgs[m].body))...)
		accept = accept && !decMsgs[m].bad
	}
	accept = accept && len(cs.Msgs) > 0 && len(cs.Signers) > 0 && cs.Sigs == len(cs.Signers)
	body = cat(body, fStr(2, cs.Memo), fUint(3, cs.Timeout))
	for i, s := range cs.Signers {
		auth = append(auth, fBytes(1, s.wire())...)
		accept = accept && (s.Kind == "" || s.Kind == "alias")
		if i == 0 {
			payer = key(s.Key).addr
		}
	}
	switch cs.Fee {
	case "absent":
		accept = false
	case "empty":
		auth = append(auth, fBytes(2, fUint(2, 5))...)
		accept = false
	case "two":
		fee = []cn{{"zz", "1"}, {"aa", "5"}}
	case "payer":
		fee = []cn{{"aa", "5"}}
		payer = key(1).addr
	case "stranger":
		fee = []cn{{"aa", "5"}}
		payer = key(5).addr
	default:
		fee = []cn{{"aa", "7"}}
	}
	if fee != nil {
		var f []byte
		for _, x := range fee {
			f = append(f, fBytes(1, wCoin(x))...)
		}
		p := ""
		if cs.Fee == "payer" || cs.Fee == "stranger" {
			p = payer
			found := false
			for _, s := range cs.Signers {
				found = found || key(s.Key).addr == payer
			}
			accept = accept && found
		}
		auth = append(auth, fBytes(2, cat(f, fUint(2, 3), fStr(3, p)))...)
	}
	switch cs.Body {
	case "absent":
		body, accept = nil, false
	case "empty":
		raw, accept = fBytes(1, nil), false
		body = nil
	}
	switch cs.Auth {
	case "absent":
		auth, accept = nil, false
	case "empty":
		raw, accept = append(raw, fBytes(2, nil)...), false
		auth = nil
	}
	raw = cat(raw, fBytesOpt(1, body), fBytesOpt(2, auth))
	for i := 0; i < cs.Sigs; i++ {
		raw = append(raw, fBytes(3, []byte(fmt.Sprint("sig", i)))...)
	}
	return
}

// acceptBut tells if the case is well formed apart from keys that are no curve points.
func (cs decCase) acceptBut() bool {
	o := cs
	o.Signers = nil
	for _, s := range cs.Signers {
		if s.Kind == "zero key" || s.Kind == "off curve key" {
			s.Kind = ""
		}
		o.Signers = append(o.Signers, s)
	}
	_, ok, _, _ := o.build()
	return ok
}

func c23(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "every combination of present, absent, empty and malformed parts, of up to 3 messages and 3 signers of every kind, with every number of signatures, and up to 66 messages, signers, coins with one bad at every place; unknown fields of every wire type (and declared fields of a wrong wire type) injected at every position of every message at every nesting level of a transaction that uses all fields; all truncations. Accepted exactly when well formed, and then the decoded parts equal the encoded ones."
	for i := 0; i < 6; i++ {
		key(i)
	}
	appT()
	decode := func(raw []byte) (t authentication.Tx, err error, pan string) {
		in := append([]byte{}, raw...)
		pan = try(func() { t, err = tx.NewDecoder("test").Decode(in) })
		if !bytes.Equal(in, raw) {
			pan = "the input was modified"
		}
		return
	}
	run := func(w *Worker, cs decCase) *Fail {
		raw, accept, payer, fee := cs.build()
		t, err, pan := decode(raw)
		desc := fmt.Sprintf("%+v (%x)", cs, raw)
		c.Outcome(fmt.Sprint(accept, len(cs.Msgs), len(cs.Signers), err))
		if pan != "" {
			return failf("panics", "%s: %s", desc, pan)
		}
		free := false // a key of the right size which is no point of the curve may be refused here or when it fails to verify
		for _, s := range cs.Signers {
			free = free || s.Kind == "zero key" || s.Kind == "off curve key"
		}
		if free && cs.acceptBut() {
			return nil
		}
		if accept != (err == nil) {
			if accept {
				return failf("valid-refused", "%s: %v", desc, err)
			}
			return failf("invalid-accepted", "%s is accepted", desc)
		}
		if err != nil {
			return nil
		}
		bad := func(k, f string, a ...interface{}) *Fail { return failf(k, "%s: %s", desc, fmt.Sprintf(f, a...)) }
		ts := t.StateTransitions()
		if len(ts) != len(cs.Msgs) {
			return bad("messages", "%d messages decoded", len(ts))
		}
		for i, m := range cs.Msgs {
			name := strings.TrimPrefix(decMsgs[m].url, "/")
			if name == "cosmos.bank.v1beta1.MsgSend" {
				name = "tmos.x.bank.v1alpha1.MsgSendCoins"
			}
			mt, e := protoregistry.GlobalTypes.FindMessageByURL("/" + name)
			must(e)
			want := mt.New().Interface()
			must(proto.Unmarshal(decMsgs[m].body, want))
			if ts[i].ProtoReflect().Descriptor().FullName() != mt.Descriptor().FullName() {
				return bad("messages", "message %d is a %s", i, meta.Name(ts[i]))
			}
			gb, e1 := proto.MarshalOptions{Deterministic: true}.Marshal(ts[i])
			wb, e2 := proto.MarshalOptions{Deterministic: true}.Marshal(want)
			must(e1)
			must(e2)
			if !bytes.Equal(gb, wb) {
				return bad("messages", "message %d is %x", i, gb)
			}
		}
		names := map[string]bool{}
		for _, s := range cs.Signers {
			names[key(s.Key).addr] = true
		}
		if l := t.Users().List(); len(l) != len(names) {
			return bad("users", "users %v", t.Users())
		}
		for n := range names {
			if !t.Users().Has(n) {
				return bad("users", "users %v lack %s", t.Users(), n)
			}
		}
		if t.Payer() != payer {
			return bad("payer", "payer %s, expected %s", nick(t.Payer()), nick(payer))
		}
		var f []cn
		for _, x := range t.Fee() {
			f = append(f, cn{x.GetDenom(), x.GetAmount()})
		}
		if fmt.Sprint(f) != fmt.Sprint(fee) {
			return bad("fee", "fee %v, expected %v", f, fee)
		}
		if !bytes.Equal(t.RawBytes(), raw) {
			return bad("raw", "raw bytes %x", t.RawBytes())
		}
		wr, ok := t.(*tx.Wrapper)
		if !ok {
			return nil
		}
		ss := wr.Signers()
		if len(ss) != len(cs.Signers) {
			return bad("signers", "%d signers", len(ss))
		}
		for i, s := range cs.Signers {
			x := ss[i]
			if x.Address != key(s.Key).addr || !bytes.Equal(x.PubKey.Bytes(), key(s.Key).pub) || x.Sequence != s.Seq || string(x.Signature) != fmt.Sprint("sig", i) {
				return bad("signers", "signer %d is %s %x sequence %d signature %q", i, nick(x.Address), x.PubKey.Bytes(), x.Sequence, x.Signature)
			}
		}
		at := t.Raw().(*authnv1.Tx)
		if at.Body.Memo != cs.Memo || at.Body.TimeoutHeight != cs.Timeout || at.AuthInfo.Fee.GasLimit != 3 {
			return bad("body", "memo %q timeout %d gas %d", at.Body.Memo, at.Body.TimeoutHeight, at.AuthInfo.Fee.GasLimit)
		}
		body, auth := wireField(raw, 1), wireField(raw, 2)
		if !bytes.Equal(wr.TxRaw().BodyBytes, body) || !bytes.Equal(wr.TxRaw().AuthInfoBytes, auth) {
			return bad("raw", "the signed bytes differ from the encoded ones")
		}
		return nil
	}
	one := []decSigner{{0, 3, ""}}
	Explore(c, "parts", func(emit func(decCase) bool) {
		for _, fee := range []string{"absent", "empty", "one", "two", "payer", "stranger"} {
			for _, body := range []string{"", "absent", "empty"} {
				for _, auth := range []string{"", "absent", "empty"} {
					for _, msgs := range [][]int{nil, {0}, {1}, {2, 0}} {
						for _, ss := range [][]decSigner{nil, one, {{1, 0, ""}, {0, 1 << 63, "alias"}}} {
							for sigs := 0; sigs <= 3; sigs++ {
								for _, memo := range []string{"", "m"} {
									for _, to := range []uint64{0, 1, 1<<64 - 1} {
										if !emit(decCase{msgs, ss, sigs, fee, body, auth, memo, to}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}, run)
	Explore(c, "messages", func(emit func(decCase) bool) {
		max := 3
		for l := 1; l <= max; l++ {
			if !wordsLen(len(decMsgs), l, func(ix []int) bool {
				return emit(decCase{Msgs: ix, Signers: one, Sigs: 1, Fee: "one"})
			}) {
				return
			}
		}
	}, run)
	kinds := decKinds()
	Explore(c, "signers", func(emit func(decCase) bool) {
		for l := 1; l <= 3; l++ {
			if !wordsLen(len(kinds), l, func(ix []int) bool {
				var ss []decSigner
				for i, x := range ix {
					ss = append(ss, decSigner{i, uint64(i * 130), kinds[x]})
				}
				return emit(decCase{Msgs: []int{0}, Signers: ss, Sigs: l, Fee: "one"}) && (l > 2 || emit(decCase{Msgs: []int{0}, Signers: ss, Sigs: l, Fee: "payer"}))
			}) {
				return
			}
		}
		wordsLen(3, 3, func(ks []int) bool { // repeated keys in every arrangement
			return wordsLen(5, 2, func(q []int) bool {
				var ss []decSigner
				seqs := []uint64{0, 1, 255, 1 << 32, 1<<64 - 1}
				for i, k := range ks {
					ss = append(ss, decSigner{k, seqs[(q[0]+i*q[1])%5], []string{"", "alias"}[i%2]})
				}
				return emit(decCase{Msgs: []int{0, 2}, Signers: ss, Sigs: 3, Fee: "payer"})
			})
		})
	}, run)

	// many messages, signers and coins, with one odd at every place
	type longCase struct {
		manyCase
		Of int // 0 messages, 1 signers, 2 signatures
	}
	var badMsgs []int
	for i, m := range decMsgs {
		if m.bad {
			badMsgs = append(badMsgs, i)
		}
	}
	longest := most(c, 66, 257)
	manyKeys(longest + 2)
	Explore(c, "many parts", func(emit func(longCase) bool) {
		for of := 0; of < 3; of++ {
			k := []int{len(badMsgs), len(kinds), 3}[of]
			manyGen(sizesTo(longest), k, manyThin(c, k, 8), func(cs manyCase) bool { return emit(longCase{cs, of}) })
		}
	}, func(w *Worker, cs longCase) *Fail {
		d := decCase{Msgs: []int{0}, Signers: one, Sigs: 1, Fee: "one"}
		switch cs.Of {
		case 0:
			d.Msgs = nil
			for i := 0; i < cs.N; i++ {
				m := i % 6
				if i == cs.At {
					m = badMsgs[cs.Kind]
				}
				d.Msgs = append(d.Msgs, m)
			}
		default:
			d.Signers, d.Sigs = nil, cs.N
			for i := 0; i < cs.N; i++ {
				s := decSigner{i, uint64(i * 7), ""}
				if i == cs.At && cs.Of == 1 {
					s.Kind = kinds[cs.Kind]
				}
				if i == cs.At && cs.Of == 2 {
					switch cs.Kind {
					case 0:
						d.Sigs = i
					case 1:
						d.Sigs = cs.N + 1 + i
					case 2:
						s.Key = (i + 1) % cs.N
					}
				}
				d.Signers = append(d.Signers, s)
			}
			if cs.N%2 == 0 {
				d.Fee = "payer" // the second signer pays
			}
		}
		return run(w, d)
	})
	type oddCase struct{ N, At, Of int }
	Explore(c, "unknown fields among many", func(emit func(oddCase) bool) {
		for of := 0; of < 5; of++ {
			for _, n := range sizesTo(longest) {
				for _, p := range append([]int{-1}, placesIn(n)...) {
					if !emit(oddCase{n, p, of}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs oddCase) *Fail {
		var msgs, signers, fees, sigs []byte
		odd := func(of, i int) []byte {
			if of == cs.Of && i == cs.At {
				return fUint(900, 1)
			}
			return nil
		}
		count := func(of int) int {
			if of == cs.Of {
				return cs.N
			}
			return 2
		}
		if n := count(0); true {
			for i := 0; i < n; i++ {
				msgs = append(msgs, fBytes(1, wAny("/mc.app.Put", cat(fStr(1, "i"), odd(0, i))))...)
			}
		}
		if n := count(1); true {
			b := fStr(1, "a")
			for i := 0; i < n; i++ {
				b = append(b, fBytes(3, cat(wCoin(cn{fmt.Sprintf("c%03d", i), "1"}), odd(1, i)))...)
			}
			msgs = append(msgs, fBytes(1, wAny("/tmos.x.bank.v1alpha1.MsgSendCoins", b))...)
		}
		ns := count(2)
		if cs.Of == 3 {
			ns = cs.N
		}
		for i := 0; i < ns; i++ {
			ka := fBytes(1, cat(wAny(pubKeyURL, fBytes(1, key(i).pub)), odd(3, i)))
			signers = append(signers, fBytes(1, cat(ka, fBytes(2, fBytes(1, fUint(1, 1))), odd(2, i)))...)
			sigs = append(sigs, fBytes(3, []byte("sig"))...)
		}
		for i, n := 0, count(4); i < n; i++ {
			fees = append(fees, fBytes(1, cat(wCoin(cn{fmt.Sprintf("c%03d", i), "1"}), odd(4, i)))...)
		}
		raw := cat(fBytes(1, msgs), fBytes(2, cat(signers, fBytes(2, fees))), sigs)
		_, err, pan := decode(raw)
		what := fmt.Sprintf("an undeclared field in number %d of %d %s", cs.At, cs.N, []string{"messages", "coins of a message", "signers", "keys", "coins of the fee"}[cs.Of])
		switch {
		case pan != "":
			return failf("panics", "%s: %s", what, pan)
		case cs.At < 0 && err != nil:
			return failf("valid-refused", "a valid transaction like one with %s is refused: %v", what, err)
		case cs.At >= 0 && err == nil:
			return failf("unknown-accepted:many", "a transaction with %s is accepted", what)
		}
		return nil
	})

	// unknown fields
	type unkCase struct {
		Node, Pos int
		Field     int
		Type      int
	}
	full, _ := fullTx()
	var nodes []*wnode
	full.walk(func(n *wnode) { nodes = append(nodes, n) })
	nums := []int{1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 100, 1022, 1023, 1024, 2046, 2047, 2048, 18999, 20000, 1<<29 - 1}
	c.Set("nesting places", len(nodes))
	Explore(c, "unknown fields", func(emit func(unkCase) bool) {
		emit(unkCase{-1, 0, 0, 0})
		for i, n := range nodes {
			for pos := 0; pos <= len(n.fields); pos++ {
				for _, f := range nums {
					for _, t := range []int{0, 1, 2, 3, 5} {
						if kt, ok := n.known[protowire.Number(f)]; ok && int(kt) == t {
							continue
						}
						if !emit(unkCase{i, pos, f, t}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, cs unkCase) *Fail {
		if cs.Node < 0 {
			raw := full.encode(nil, 0, nil)
			if _, err, pan := decode(raw); err != nil || pan != "" {
				return failf("valid-refused", "the transaction with every field set is refused: %v %s", err, pan)
			}
			return nil
		}
		n := nodes[cs.Node]
		num := protowire.Number(cs.Field)
		var fs [][]byte
		switch cs.Type {
		case 0:
			fs = [][]byte{protowire.AppendVarint(protowire.AppendTag(nil, num, 0), 0), protowire.AppendVarint(protowire.AppendTag(nil, num, 0), 300)}
		case 1:
			fs = [][]byte{append(protowire.AppendTag(nil, num, 1), make([]byte, 8)...)}
		case 2:
			fs = [][]byte{fBytes(num, nil), fBytes(num, []byte("abc"))}
		case 3:
			fs = [][]byte{append(protowire.AppendTag(nil, num, 3), protowire.AppendTag(nil, num, 4)...)}
		case 5:
			fs = [][]byte{append(protowire.AppendTag(nil, num, 5), 1, 2, 3, 4)}
		}
		for _, f := range fs {
			raw := full.encode(n, cs.Pos, f)
			_, err, pan := decode(raw)
			if pan != "" {
				return failf("panics", "unknown field %x in %s: %s", f, n.name, pan)
			}
			if err == nil {
				return failf("unknown-accepted:"+n.name, "a transaction with the undeclared field %x (number %d, wire type %d) in its %s at position %d is accepted: %x", f, cs.Field, cs.Type, n.name, cs.Pos, raw)
			}
		}
		return nil
	})

	c23Shapes(c, decode)
	// truncated and continued encodings
	type cutCase struct{ Base, Len int }
	bases := [][]byte{full.encode(nil, 0, nil)}
	b, _, _, _ := decCase{Msgs: []int{0}, Signers: one, Sigs: 1, Fee: "one"}.build()
	bases = append(bases, b)
	Explore(c, "truncations", func(emit func(cutCase) bool) {
		for i, x := range bases {
			for l := 0; l < len(x); l++ {
				if !emit(cutCase{i, l}) {
					return
				}
			}
		}
	}, func(w *Worker, cs cutCase) *Fail {
		raw := bases[cs.Base][:cs.Len]
		_, err, pan := decode(raw)
		if pan != "" || err == nil {
			return failf("truncated-accepted", "the first %d of %d bytes: accepted=%v %s", cs.Len, len(bases[cs.Base]), err == nil, pan)
		}
		// and every node cut short on its own
		return nil
	})
	Explore(c, "inner truncations", func(emit func(unkCase) bool) {
		for i := range nodes {
			for _, g := range []int{0x0a, 0x80, 0xff, 0x08, 0x0b, 0x0c, 0x00, 0x06, 0x07, 0x0d, 0x09} {
				if !emit(unkCase{Node: i, Pos: 1 << 20, Field: g}) {
					return
				}
			}
		}
	}, func(w *Worker, cs unkCase) *Fail {
		raw := full.encode(nodes[cs.Node], cs.Pos, []byte{byte(cs.Field)})
		_, err, pan := decode(raw)
		if pan != "" || err == nil {
			return failf("malformed-accepted", "%s followed by the stray byte %x: accepted=%v %s", nodes[cs.Node].name, cs.Field, err == nil, pan)
		}
		return nil
	})
}

// wireField gives the last occurrence of a bytes field.
func wireField(b []byte, n protowire.Number) (out []byte) {
	for len(b) > 0 {
		num, ty, l := protowire.ConsumeTag(b)
		b = b[l:]
		vl := protowire.ConsumeFieldValue(num, ty, b)
		if num == n && ty == bT {
			v, _ := protowire.ConsumeBytes(b)
			out = v
		}
		b = b[vl:]
	}
	return
}
