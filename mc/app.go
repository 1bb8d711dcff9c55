package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	badger "github.com/dgraph-io/badger/v3"
	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"golang.org/x/crypto/ripemd160"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
)

// ---- keys, independent of the repository's implementation ----

type acct struct {
	priv *btcec.PrivateKey
	pub  []byte
	addr string
}

var (
	acctMu sync.Mutex
	accts  = map[int]*acct{}
)

func key(i int) *acct {
	acctMu.Lock()
	defer acctMu.Unlock()
	if a := accts[i]; a != nil {
		return a
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("mc key %d", i)))
	a := keyFrom(h[:])
	accts[i] = a
	return a
}

func keyFrom(secret []byte) *acct {
	p, pub := btcec.PrivKeyFromBytes(btcec.S256(), secret)
	a := &acct{priv: p, pub: pub.SerializeCompressed()}
	a.addr = addrOf(a.pub)
	return a
}

func addrOf(pub []byte) string {
	s := sha256.Sum256(pub)
	r := ripemd160.New()
	r.Write(s[:])
	ad, err := bech32.ConvertAndEncode("test", r.Sum(nil))
	must(err)
	return ad
}

// sign makes the canonical 64 byte signature of the SHA-256 of msg.
func (a *acct) sign(msg []byte) []byte {
	h := sha256.Sum256(msg)
	s, err := a.priv.Sign(h[:])
	must(err)
	out := make([]byte, 64)
	r, ss := s.R.Bytes(), s.S.Bytes()
	copy(out[32-len(r):32], r)
	copy(out[64-len(ss):], ss)
	return out
}

const pubKeyURL = "/tmos.x.authn.crypto.v1alpha1.PubKey"

// ---- wire building ----

func fBytes(n protowire.Number, b []byte) []byte {
	return protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), b)
}
func fStr(n protowire.Number, s string) []byte {
	if s == "" {
		return nil
	}
	return fBytes(n, []byte(s))
}
func fUint(n protowire.Number, v uint64) []byte {
	if v == 0 {
		return nil
	}
	return protowire.AppendVarint(protowire.AppendTag(nil, n, protowire.VarintType), v)
}
func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}
func wAny(url string, v []byte) []byte { return cat(fStr(1, url), fBytesOpt(2, v)) }
func fBytesOpt(n protowire.Number, b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return fBytes(n, b)
}

// cn is a coin: denomination and amount as text.
type cn struct{ D, A string }

func wCoin(c cn) []byte { return cat(fStr(1, c.D), fStr(2, c.A)) }

// msgSpec is one message of a transaction.
type msgSpec struct {
	URL  string
	Body []byte
	// what the message is, for the model
	Kind           string // "send", "put", "hidden", "create", "setbalance", "bind", "other"
	From, To       string
	Amt            []cn
	ID, Val, Mode  string
	Nest, NestMode string
}

func sendMsg(from, to string, amt ...cn) msgSpec {
	b := cat(fStr(1, from), fStr(2, to))
	for _, c := range amt {
		b = append(b, fBytes(3, wCoin(c))...)
	}
	return msgSpec{URL: "/tmos.x.bank.v1alpha1.MsgSendCoins", Body: b, Kind: "send", From: from, To: to, Amt: amt}
}

func putMsg(id, val, mode string) msgSpec {
	return msgSpec{URL: "/mc.app.Put", Body: cat(fStr(1, id), fStr(2, val), fStr(3, mode)), Kind: "put", ID: id, Val: val, Mode: mode}
}

func nestMsg(id, val, nest, nestMode string) msgSpec {
	m := putMsg(id, val, "nest")
	m.Nest, m.NestMode = nest, nestMode
	m.Body = cat(m.Body, fStr(4, nest), fStr(5, nestMode))
	return m
}

func hiddenMsg(id, val string) msgSpec {
	return msgSpec{URL: "/mc.app.Hidden", Body: cat(fStr(1, id), fStr(2, val)), Kind: "hidden", ID: id, Val: val}
}

// createMsg asks for an account; extra is appended to the account message.
func createMsg(addr string, extra []byte) msgSpec {
	return msgSpec{URL: "/tmos.x.authn.v1alpha1.MsgCreateAccount", Body: fBytes(1, cat(fStr(1, addr), extra)), Kind: "create", To: addr}
}

func rawMsg(m proto.Message, kind string) msgSpec {
	b, err := proto.Marshal(m)
	must(err)
	return msgSpec{URL: "/" + string(m.ProtoReflect().Descriptor().FullName()), Body: b, Kind: kind}
}

type signerSpec struct {
	Key int
	Seq uint64
	Num uint64 // account number signed for
}

// txSpec describes a transaction; bytes() builds the real one.
type txSpec struct {
	Msgs    []msgSpec
	Signers []signerSpec
	Fee     []cn
	Payer   string
	Memo    string
	Timeout uint64
	Chain   string
	Gas     uint64
}

const chainID = "mc-chain"

func (t txSpec) parts() (body, auth []byte) {
	for _, m := range t.Msgs {
		body = append(body, fBytes(1, wAny(m.URL, m.Body))...)
	}
	body = cat(body, fStr(2, t.Memo), fUint(3, t.Timeout))
	for _, s := range t.Signers {
		auth = append(auth, fBytes(1, wSigner(key(s.Key).pub, s.Seq))...)
	}
	var fee []byte
	for _, c := range t.Fee {
		fee = append(fee, fBytes(1, wCoin(c))...)
	}
	fee = cat(fee, fUint(2, t.Gas), fStr(3, t.Payer))
	auth = append(auth, fBytes(2, fee)...)
	return
}

func wSigner(pub []byte, seq uint64) []byte {
	return cat(fBytes(1, wAny(pubKeyURL, fBytes(1, pub))), fBytes(2, fBytes(1, fUint(1, 1))), fUint(3, seq))
}

func signDoc(body, auth []byte, chain string, num uint64) []byte {
	return cat(fBytesOpt(1, body), fBytesOpt(2, auth), fStr(3, chain), fUint(4, num))
}

func wTx(body, auth []byte, sigs ...[]byte) []byte {
	out := cat(fBytesOpt(1, body), fBytesOpt(2, auth))
	for _, s := range sigs {
		out = append(out, fBytes(3, s)...)
	}
	return out
}

// noChain as txSpec.Chain signs for the empty chain identifier ("" means chainID).
const noChain = "\x00none"

func (t txSpec) bytes() []byte {
	body, auth := t.parts()
	ch := t.Chain
	if ch == "" {
		ch = chainID
	} else if ch == noChain {
		ch = ""
	}
	var sigs [][]byte
	for _, s := range t.Signers {
		sigs = append(sigs, key(s.Key).sign(signDoc(body, auth, ch, s.Num)))
	}
	return wTx(body, auth, sigs...)
}

func (t txSpec) String() string {
	var ms []string
	for _, m := range t.Msgs {
		s := m.Kind
		switch m.Kind {
		case "send":
			s = fmt.Sprintf("send %s->%s %v", nick(m.From), nick(m.To), m.Amt)
		case "put", "hidden":
			s = fmt.Sprintf("%s %s=%s %s%s%s", m.Kind, m.ID, m.Val, m.Mode, m.Nest, m.NestMode)
		case "create":
			s = "create " + nick(m.To)
		}
		ms = append(ms, s)
	}
	var ss []string
	for _, s := range t.Signers {
		ss = append(ss, fmt.Sprintf("%s#%d", nick(key(s.Key).addr), s.Seq))
	}
	x := fmt.Sprintf("tx[%s] by %s fee %v", strings.Join(ms, ", "), strings.Join(ss, ","), t.Fee)
	if t.Payer != "" {
		x += " payer " + nick(t.Payer)
	}
	if t.Memo != "" {
		x += fmt.Sprintf(" memo(%d)", len(t.Memo))
	}
	if t.Timeout != 0 {
		x += fmt.Sprintf(" timeout %d", t.Timeout)
	}
	return x
}

func nick(addr string) string {
	acctMu.Lock()
	defer acctMu.Unlock()
	for i, a := range accts {
		if a.addr == addr {
			return string(rune('A' + i))
		}
	}
	return addr
}

// ---- the harness application module ----

type appTypes struct{ put, hidden, inner, note *dynType }

var (
	appTOnce sync.Once
	appTV    appTypes
)

func appT() appTypes {
	appTOnce.Do(func() {
		f := []fieldSpec{{Name: "id", Type: tString}, {Name: "val", Type: tString}, {Name: "mode", Type: tString}, {Name: "nest", Type: tString}, {Name: "nest_mode", Type: tString}}
		fd := mustFile(fileProto("mc/app.proto", "mc.app", []string{"core/rbac/xt/rbac_extension.proto"},
			external(msgProto("Put", f...), true), external(msgProto("Hidden", f...), false), external(msgProto("Inner", f...), false),
			msgProto("Note", fieldSpec{Name: "id", Type: tString}, fieldSpec{Name: "val", Type: tString}, fieldSpec{Name: "by", Type: tString})))
		g := func(n string, k dynKind) *dynType {
			return registerType(newDynType(fd.Messages().ByName(protoName(n)), k))
		}
		appTV = appTypes{g("Put", dynTransition), g("Hidden", dynTransition), g("Inner", dynTransition), g("Note", dynObject)}
	})
	return appTV
}

// appCfg configures one application.
type appCfg struct {
	Accounts []genAcct
	Extra    []module.Module // further modules
	NoStart  bool            // do not run InitChain
	NoRBAC   bool
	First    []module.Module // modules before the harness module
	Grant    []protoTransition
	HM       **harnessModule // set to the harness module
	// Params overrides authn's parameters after genesis
	Params *authnv1.Params
}

// genAcct is an account (or only a balance) that exists from genesis on.
type genAcct struct {
	Addr    string
	Pub     []byte
	NoAcct  bool
	Balance []cn
	Seq     uint64
}

type protoTransition = meta.StateTransition

type App struct {
	cfg  appCfg
	rt   *runtime.Runtime
	abci runtime.ABCIApplication
	dbs  []*badger.DB
	hm   *harnessModule
}

type harnessModule struct {
	cfg     appCfg
	c       module.Client
	mu      sync.Mutex
	trace   []string // handler invocations
	genesis func(c module.Client) error
	hook    func(tr *DynTrans) error // what messages of mode "hook" do
}

func (m *harnessModule) log(s string) {
	m.mu.Lock()
	m.trace = append(m.trace, s)
	m.mu.Unlock()
}

func (m *harnessModule) take() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	t := m.trace
	m.trace = nil
	return t
}

var appFee = cn{"test", "1"}

func (m *harnessModule) put(tr *DynTrans) error {
	id, val := tr.str("id"), tr.str("val")
	n := appT().note.obj()
	err := m.c.Get(meta.NewStringID(id), n)
	switch {
	case err == nil:
		return m.c.Update(n.New().set("id", id).set("val", val))
	case rterr.Is(err, rterr.ErrNotFound):
		return m.c.Create(n.New().set("id", id).set("val", val))
	default:
		return err
	}
}

func (m *harnessModule) exec(name string) statetransition.ExecutionHandlerFunc {
	return func(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
		tr := req.Transition.(*DynTrans)
		m.log(name + " " + tr.str("id"))
		mode, cause := splitMode(tr.str("mode"))
		if mode == "hook" {
			return resp, m.hook(tr)
		}
		if mode == "early" {
			return resp, refusal(cause, "early failure")
		}
		if mode == "delete" {
			return resp, m.c.Delete(appT().note.obj().set("id", tr.str("id")))
		}
		if n := appT().note.obj(); mode == "create" {
			return resp, m.c.Create(n.set("id", tr.str("id")).set("val", tr.str("val")))
		} else if mode == "update" {
			return resp, m.c.Update(n.set("id", tr.str("id")).set("val", tr.str("val")))
		}
		if err := m.put(tr); err != nil {
			return resp, err
		}
		switch mode {
		case "fail":
			return resp, refusal(cause, "late failure")
		case "notfound":
			return resp, fmt.Errorf("%w: made up", rterr.ErrNotFound)
		case "panic":
			panic("handler panic")
		case "nest", "nestignore":
			err := m.c.Deliver(appT().inner.trans().set("id", tr.str("nest")).set("val", tr.str("val")).set("mode", tr.str("nest_mode")))
			return resp, err
		}
		return resp, nil
	}
}

func (m *harnessModule) admission(name string) statetransition.AdmissionHandlerFunc {
	return func(req statetransition.AdmissionRequest) error {
		tr := req.Transition.(*DynTrans)
		m.log("admission" + name + " " + tr.str("id"))
		if mode, cause := splitMode(tr.str("mode")); mode == "refuse"+name {
			return refusal(cause, "refused by "+name)
		}
		return nil
	}
}

func (m *harnessModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	t := appT()
	b := module.NewDescriptorBuilder()
	b.Named("mcapp").
		OwnsStateObject(t.note.obj(), &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"val"}}).
		HandlesStateTransition(t.put.trans(), m.exec("put")).
		HandlesStateTransition(t.hidden.trans(), m.exec("hidden")).
		HandlesStateTransition(t.inner.trans(), m.exec("inner")).
		HandlesAdmission(t.put.trans(), m.admission("1")).
		HandlesAdmission(t.put.trans(), m.admission("2")).
		WithPostStateTransitionHandler(t.put.trans(), postExecFunc(func(req statetransition.PostExecutionRequest) error {
			tr := req.Transition.(*DynTrans)
			if mode, cause := splitMode(tr.str("mode")); mode == "post" {
				return refusal(cause, "post failure")
			}
			return nil
		})).
		WithGenesis(compGenesis{func() error {
			if m.genesis != nil {
				if err := m.genesis(c); err != nil {
					return err
				}
			}
			for _, a := range m.cfg.Accounts {
				if !a.NoAcct {
					acc := &authnv1.Account{Address: a.Addr}
					if a.Pub != nil {
						acc.PubKey = &anypb.Any{TypeUrl: pubKeyURL, Value: fBytes(1, a.Pub)}
					}
					if err := c.Deliver(&authnv1.MsgCreateAccount{Account: acc}); err != nil {
						return err
					}
					if a.Seq > 0 {
						if err := c.Get(meta.NewStringID(a.Addr), acc); err != nil {
							return err
						}
						acc.Sequence = a.Seq
						if err := c.Update(acc); err != nil {
							return err
						}
					}
				}
				if a.Balance != nil {
					if err := c.Deliver(&bankv1.MsgSetBalance{Address: a.Addr, Amount: toCoins(a.Balance)}); err != nil {
						return err
					}
				}
			}
			if m.cfg.Params != nil {
				return c.Update(m.cfg.Params)
			}
			return nil
		}})
	for _, t := range m.cfg.Grant {
		b.NeedsStateTransition(t)
	}
	return b.Build()
}

func toCoins(cs []cn) []*coin.Coin {
	var out []*coin.Coin
	for _, c := range cs {
		out = append(out, &coin.Coin{Denom: c.D, Amount: c.A})
	}
	return out
}

type postExecFunc func(req statetransition.PostExecutionRequest) error

func (f postExecFunc) PostExec(req statetransition.PostExecutionRequest) error { return f(req) }

func newApp(cfg appCfg) *App {
	a := &App{cfg: cfg, hm: &harnessModule{cfg: cfg}}
	b := runtime.NewBuilder()
	au := authn.NewModule()
	b.AddModule(au)
	if !cfg.NoRBAC {
		b.AddModule(rbac.NewModule())
	}
	b.SetDecoder(au.GetTxDecoder())
	b.AddModule(bank.NewModule())
	b.AddModule(distribution.NewModule())
	for _, m := range cfg.First {
		b.AddModule(m)
	}
	if cfg.HM != nil {
		*cfg.HM = a.hm
	}
	b.AddModule(a.hm)
	for _, m := range cfg.Extra {
		b.AddModule(m)
	}
	rt, err := b.Build()
	must(err)
	a.rt = rt
	a.abci = runtime.NewABCIApplication(rt)
	a.dbs = findDBs(rt)
	if len(a.dbs) != 2 {
		hp("expected 2 databases, found %d", len(a.dbs))
	}
	if !cfg.NoStart {
		a.initChain(chainID)
	}
	return a
}

func (a *App) initChain(id string) {
	a.abci.InitChain(abcitypes.RequestInitChain{ChainId: id})
	a.hm.take()
}

func (a *App) close() {
	for _, d := range a.dbs {
		_ = d.Close()
	}
}

func (a *App) begin(h int64) {
	a.abci.BeginBlock(abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: h}})
}

func (a *App) deliver(tx []byte) abcitypes.ResponseDeliverTx {
	return a.abci.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx})
}
func (a *App) check(tx []byte) abcitypes.ResponseCheckTx {
	return a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: tx})
}

// ---- observed state ----

type accState struct {
	Num, Seq uint64
	Pub      string
}

// world is the application state in the property's terms.
type world struct {
	Acc    map[string]accState
	Next   uint64
	Bal    map[string]map[string]string
	Notes  map[string]string
	Bind   map[string]string
	Height uint64
}

func (w world) clone() world {
	n := world{map[string]accState{}, w.Next, map[string]map[string]string{}, map[string]string{}, map[string]string{}, w.Height}
	for k, v := range w.Acc {
		n.Acc[k] = v
	}
	for k, v := range w.Bal {
		m := map[string]string{}
		for d, x := range v {
			m[d] = x
		}
		n.Bal[k] = m
	}
	for k, v := range w.Notes {
		n.Notes[k] = v
	}
	for k, v := range w.Bind {
		n.Bind[k] = v
	}
	return n
}

func (w world) json() string {
	b, err := json.Marshal(w)
	must(err)
	return string(b)
}

// diff describes what differs between two worlds.
func (w world) diff(o world) string {
	var d []string
	cmp := func(what string, a, b interface{}) {
		x, _ := json.Marshal(a)
		y, _ := json.Marshal(b)
		if string(x) != string(y) {
			d = append(d, fmt.Sprintf("%s: expected %s, is %s", what, x, y))
		}
	}
	keys := map[string]bool{}
	for k := range w.Acc {
		keys[k] = true
	}
	for k := range o.Acc {
		keys[k] = true
	}
	for k := range w.Bal {
		keys[k] = true
	}
	for k := range o.Bal {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		a, ok1 := w.Acc[k]
		b, ok2 := o.Acc[k]
		if ok1 != ok2 {
			d = append(d, fmt.Sprintf("account %s: expected exists=%v, is %v", nick(k), ok1, ok2))
		} else if a != b {
			cmp("account "+nick(k), a, b)
		}
		cmp("balance "+nick(k), nz(w.Bal[k]), nz(o.Bal[k]))
	}
	cmp("next account number", w.Next, o.Next)
	cmp("notes", w.Notes, o.Notes)
	cmp("bindings", w.Bind, o.Bind)
	cmp("height", w.Height, o.Height)
	return strings.Join(d, "; ")
}

func nz(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		if v != "0" {
			n[k] = v
		}
	}
	return n
}

func listAll(rt *runtime.Runtime, o meta.StateObject, f func()) {
	it, err := rt.List(o, orm.ListOptions{})
	must(err)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		must(it.Get(o))
		f()
	}
}

// observe reads the state through the runtime.
func (a *App) observe() world {
	return observeDump(dump(a.dbs))
}

var objPrefix = map[string]func(w *world, v []byte){
	"tmos.x.authn.v1alpha1.Account/": func(w *world, v []byte) {
		x := new(authnv1.Account)
		must(proto.Unmarshal(v, x))
		p := ""
		if x.PubKey != nil {
			p = fmt.Sprintf("%x", x.PubKey.Value)
		}
		w.Acc[x.Address] = accState{x.AccountNumber, x.Sequence, p}
	},
	"tmos.x.authn.v1alpha1.CurrentAccountNumber/": func(w *world, v []byte) {
		x := new(authnv1.CurrentAccountNumber)
		must(proto.Unmarshal(v, x))
		w.Next = x.Number
	},
	"tmos.x.bank.v1alpha1.Balance/": func(w *world, v []byte) {
		x := new(bankv1.Balance)
		must(proto.Unmarshal(v, x))
		m := map[string]string{}
		for _, c := range x.Balance {
			if _, dup := m[c.Denom]; dup {
				m["dup!"+c.Denom] = c.Amount
				continue
			}
			m[c.Denom] = c.Amount
		}
		w.Bal[x.Address] = m
	},
	"mc.app.Note/": func(w *world, v []byte) {
		x := appT().note.obj()
		must(proto.Unmarshal(v, x))
		w.Notes[x.get("id").(string)] = x.get("val").(string)
	},
	"tmos.core.rbac.v1alpha1.RoleBinding/": func(w *world, v []byte) {
		x := new(rbacv1.RoleBinding)
		must(proto.Unmarshal(v, x))
		w.Bind[x.Subject] = x.RoleRef
	},
	"tmos.abci.v1alpha1.CurrentBlock/": func(w *world, v []byte) {
		ms := protoMsgUint(v, 1)
		w.Height = ms
	},
}

func protoMsgUint(b []byte, n protowire.Number) (out uint64) {
	for len(b) > 0 {
		num, ty, l := protowire.ConsumeTag(b)
		if l < 0 {
			hp("bad wire")
		}
		b = b[l:]
		if num == n && ty == protowire.VarintType {
			v, l := protowire.ConsumeVarint(b)
			out = v
			b = b[l:]
			continue
		}
		l = protowire.ConsumeFieldValue(num, ty, b)
		if l < 0 {
			hp("bad wire")
		}
		b = b[l:]
	}
	return
}

// eachObject visits the objects of the dump, without the indexes.
func eachObject(d Dump, f func(k, v string)) {
	for _, m := range d {
		index := false
		for k := range m {
			if strings.HasPrefix(k, "\x00") {
				index = true
				break
			}
		}
		if index {
			continue
		}
		for k, v := range m {
			f(k, v)
		}
	}
}

func observeDump(d Dump) world {
	w := world{map[string]accState{}, 0, map[string]map[string]string{}, map[string]string{}, map[string]string{}, 0}
	eachObject(d, func(k, v string) {
		for p, f := range objPrefix {
			if strings.HasPrefix(k, p) {
				f(&w, []byte(v))
			}
		}
	})
	return w
}

// ---- reference model of transactions ----

func bi(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil
	}
	return n
}

// validCoins: integer amounts of distinct well-formed denominations (zero allowed).
func validCoins(cs []cn) bool {
	seen := map[string]bool{}
	for _, c := range cs {
		if !digits(c.A) || !wellFormedDenom(c.D) || seen[c.D] || bi(c.A).BitLen() > 255 {
			return false
		}
		seen[c.D] = true
	}
	return true
}

func digits(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return true
}

// wellFormedDenom: a letter followed by 2 to 127 letters, digits or slashes.
func wellFormedDenom(s string) bool {
	if len(s) < 3 || len(s) > 128 {
		return false
	}
	for i, r := range s {
		l := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
		if !(l || i > 0 && (r >= '0' && r <= '9' || r == '/')) {
			return false
		}
	}
	return true
}

// move transfers coins; false when refused (w is then unchanged).
func (w *world) move(from, to string, amt []cn) bool {
	if !validCoins(amt) || from == "" || to == "" {
		return false
	}
	fb, ok := w.Bal[from]
	if !ok {
		return false
	}
	for _, c := range amt {
		have := big.NewInt(0)
		if x, ok := fb[c.D]; ok {
			have = bi(x)
		}
		if have.Cmp(bi(c.A)) < 0 {
			return false
		}
	}
	n := w.clone()
	for _, c := range amt {
		h := "0"
		if x, ok := n.Bal[from][c.D]; ok {
			h = x
		}
		n.Bal[from][c.D] = new(big.Int).Sub(bi(h), bi(c.A)).String()
	}
	if _, ok := n.Bal[to]; !ok {
		n.Bal[to] = map[string]string{}
		if _, ok := n.Acc[to]; !ok {
			if !n.createAcc(to, "") {
				return false
			}
		}
	}
	for _, c := range amt {
		h := "0"
		if x, ok := n.Bal[to][c.D]; ok {
			h = x
		}
		s := new(big.Int).Add(bi(h), bi(c.A))
		if s.BitLen() > 255 {
			return false
		}
		n.Bal[to][c.D] = s.String()
	}
	for _, x := range []string{from, to} {
		n.Bal[x] = nz(n.Bal[x])
	}
	*w = n
	return true
}

func (w *world) createAcc(addr, pub string) bool {
	if addr == "" {
		return false
	}
	if _, ok := w.Acc[addr]; ok {
		return false
	}
	if _, ok := w.Bind[addr]; ok {
		return false
	}
	w.Acc[addr] = accState{w.Next, 0, pub}
	w.Next++
	w.Bind[addr] = "external_account"
	return true
}

const feeCollector = "fee_collector"

// outcome of one transaction in the model.
type outcome struct {
	Admitted bool // passes CheckTx
	Paid     bool // DeliverTx charges the fee and counts the sequences
	OK       bool // DeliverTx reports success
	Why      string
}

// limits of the application (authn parameters).
type txLimits struct{ memo, sigs uint64 }

var defLimits = txLimits{1000000, 1000000}

// apply computes the state after DeliverTx of a correctly signed transaction.
func (w world) apply(t txSpec, lim txLimits) (world, outcome) {
	refuse := func(why string) (world, outcome) { return w, outcome{Why: why} }
	payer := t.Payer
	if len(t.Msgs) == 0 || len(t.Signers) == 0 || len(t.Fee) == 0 {
		return refuse("incomplete")
	}
	if payer == "" {
		payer = key(t.Signers[0].Key).addr
	}
	signed := map[string]bool{}
	for _, s := range t.Signers {
		a := key(s.Key)
		signed[a.addr] = true
		acc, ok := w.Acc[a.addr]
		if !ok {
			return refuse("no account")
		}
		if acc.Seq != s.Seq || acc.Num != s.Num {
			return refuse("sequence or number")
		}
	}
	if t.Chain != "" && t.Chain != chainID {
		return refuse("chain")
	}
	if !signed[payer] {
		return refuse("payer did not sign")
	}
	if t.Timeout != 0 && w.Height > t.Timeout {
		return refuse("timeout")
	}
	if uint64(len(t.Memo)) > lim.memo {
		return refuse("memo")
	}
	if uint64(len(t.Signers)) > lim.sigs {
		return refuse("signatures")
	}
	if !validCoins(t.Fee) {
		return refuse("fee invalid")
	}
	for _, c := range t.Fee {
		have, ok := w.Bal[payer][c.D]
		if bi(c.A).Sign() > 0 && (!ok || bi(have).Cmp(bi(c.A)) < 0) {
			return refuse("fee not covered")
		}
	}
	if _, ok := w.Bal[payer]; !ok {
		return refuse("payer has no balance")
	}
	out := outcome{Admitted: true, Paid: true}
	for _, m := range t.Msgs {
		if !m.admits(signed) {
			out = outcome{Paid: true, Why: "message admission"}
		}
	}
	n := w.clone()
	if !n.move(payer, feeCollector, t.Fee) {
		return refuse("fee")
	}
	for a := range signed {
		acc := n.Acc[a]
		acc.Seq++
		n.Acc[a] = acc
	}
	for _, s := range t.Signers {
		a := key(s.Key)
		acc := n.Acc[a.addr]
		if acc.Pub == "" {
			acc.Pub = fmt.Sprintf("%x", fBytes(1, a.pub))
			n.Acc[a.addr] = acc
		}
	}
	e := n.clone()
	for i, m := range t.Msgs {
		if !m.admits(signed) || !e.exec(m) {
			out.Why = fmt.Sprintf("message %d fails", i)
			return n, out
		}
	}
	out.OK = true
	return e, out
}

func (m msgSpec) admits(signed map[string]bool) bool {
	switch m.Kind {
	case "send":
		return signed[m.From]
	case "put":
		return !strings.HasPrefix(m.Mode, "refuse")
	case "create":
		return m.To != ""
	}
	return true
}

func (w *world) exec(m msgSpec) bool {
	switch m.Kind {
	case "send":
		return w.move(m.From, m.To, m.Amt)
	case "put":
		mode, _ := splitMode(m.Mode)
		switch mode {
		case "early":
			return false
		case "delete":
			if _, ok := w.Notes[m.ID]; !ok {
				return false
			}
			delete(w.Notes, m.ID)
			return true
		case "create", "update":
			if _, ok := w.Notes[m.ID]; ok != (mode == "update") {
				return false
			}
			w.Notes[m.ID] = m.Val
			return true
		}
		w.Notes[m.ID] = m.Val
		switch mode {
		case "fail", "notfound", "panic", "post":
			return false
		case "nest":
			if nm, _ := splitMode(m.NestMode); nm == "early" {
				return false
			}
			w.Notes[m.Nest] = m.Val
			return m.NestMode == ""
		}
		return true
	case "create":
		return w.createAcc(m.To, "")
	}
	return false // everything else is internal
}

// numFor gives the signer spec of a key in a world (current sequence and number).
func (w world) signer(k int) signerSpec {
	a := w.Acc[key(k).addr]
	return signerSpec{k, a.Seq, a.Num}
}

func (w world) total() map[string]*big.Int {
	t := map[string]*big.Int{}
	for _, b := range w.Bal {
		for d, a := range b {
			if t[d] == nil {
				t[d] = new(big.Int)
			}
			if x := bi(a); x != nil {
				t[d].Add(t[d], x)
			}
		}
	}
	return t
}

func totalStr(t map[string]*big.Int) string {
	var s []string
	for d, a := range t {
		if a.Sign() != 0 {
			s = append(s, d+"="+a.String())
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// stdAccounts: A and B registered with keys and money, C registered without key, D unknown.
func stdAccounts() []genAcct {
	for i := 0; i < 4; i++ {
		key(i)
	}
	return []genAcct{
		{Addr: key(0).addr, Pub: key(0).pub, Balance: []cn{{"test", "10"}, {"foo", "3"}}},
		{Addr: key(1).addr, Pub: key(1).pub, Balance: []cn{{"test", "6"}}},
		{Addr: key(2).addr, Balance: []cn{{"test", "3"}}},
	}
}

var _ = client.NewORMClient
var _ protoreflect.Name
