package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	coinv1 "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("C39", c39) }

// chainTx is a transaction of the harness's own decoder.
type chainTx struct {
	Name  string
	Who   []string
	Pays  string
	Msgs  []int // numbers of transitions
	Bad   bool  `json:",omitempty"` // the decoder refuses it
	bytes []byte
	trs   []meta.StateTransition
}

func (t *chainTx) StateTransitions() []meta.StateTransition { return t.trs }
func (t *chainTx) Users() user.Users                        { return user.NewUsersFromString(t.Who...) }
func (t *chainTx) Fee() []*coinv1.Coin                      { return []*coinv1.Coin{{Denom: t.Name, Amount: "1"}} }
func (t *chainTx) Payer() string                            { return t.Pays }
func (t *chainTx) Raw() interface{}                         { return t.Name }
func (t *chainTx) RawBytes() []byte                         { return t.bytes }

// text is all a handler can see of the transaction.
func chainText(t authentication.Tx) string {
	s := fmt.Sprint(t.Raw(), " of ", usersText(t.Users()), " paid by ", t.Payer(), " ", t.Fee()[0].GetDenom(), " ", string(t.RawBytes()))
	for _, m := range t.StateTransitions() {
		s += " " + m.(*DynTrans).str("tag")
	}
	return s
}

var chainTypesOnce sync.Once
var chainTypes []*dynType

// chainApp is a runtime of modules with transaction handlers that write down when they are called.
type chainApp struct {
	cs    chainLayout
	rt    *runtime.Runtime
	abci  runtime.ABCIApplication
	trace []string
	fail  int // number of the step that fails
	kind  int // of the failure, -1 for a panic
}

// chainLayout: how many admission and post-authentication handlers each module has.
type chainLayout struct {
	Adm, Post []int
	NoDecoder bool `json:",omitempty"`
	Same      bool `json:",omitempty"` // all handlers of a sort are equal values
}

// equal handlers
type (
	samePost struct{ a *chainApp }
	sameAdm  struct{ a *chainApp }
	sameMsg  struct{ a *chainApp }
)

func (h samePost) Exec(req authentication.PostAuthenticationRequest) (r authentication.PostAuthenticationResponse, err error) {
	return r, h.a.step("post - " + chainText(req.Tx))
}
func (h sameAdm) Validate(tx authentication.Tx) error { return h.a.step("adm - " + chainText(tx)) }
func (h sameMsg) Validate(r statetransition.AdmissionRequest) error {
	return h.a.hit("madm", 0, r.Users, r.Transition)
}
func (h sameMsg) PreExec(r statetransition.PreExecutionRequest) error {
	return h.a.hit("mpre", 0, r.Users, r.Transition)
}
func (h sameMsg) PostExec(r statetransition.PostExecutionRequest) error {
	return h.a.hit("mpost", 0, r.Users, r.Transition)
}

// place is what a handler is called in the trace
func (l chainLayout) place(m, i int) string {
	if l.Same {
		return "-"
	}
	return fmt.Sprintf("%d.%d", m, i)
}

func (a *chainApp) step(s string) error {
	a.trace = append(a.trace, s)
	if len(a.trace)-1 != a.fail {
		return nil
	}
	if a.kind < 0 {
		panic("of " + s)
	}
	return refusal(a.kind, "refused at "+s)
}

func (a *chainApp) DecodeTx(b []byte) (authentication.Tx, error) {
	t := new(chainTx)
	if err := json.Unmarshal(b, t); err != nil || t.Bad {
		return nil, fmt.Errorf("not decoded %v", err)
	}
	t.bytes = b
	for i, m := range t.Msgs {
		t.trs = append(t.trs, chainTypes[m].trans().set("tag", fmt.Sprint(t.Name, "-", i)))
	}
	return t, nil
}

func (a *chainApp) Authorize(at authorization.Attributes) (authorization.Decision, error) {
	if tr, ok := at.Resource.(*DynTrans); ok {
		if err := a.step(fmt.Sprintf("authz(%s)[%s]", usersText(at.Users), tr.str("tag"))); err != nil {
			return authorization.DecisionDeny, err
		}
	}
	return authorization.DecisionAllow, nil
}

func (a *chainApp) hit(stage string, t int, u user.Users, tr meta.StateTransition) error {
	return a.step(fmt.Sprintf("%s%d(%s)[%s]", stage, t, usersText(u), tr.(*DynTrans).str("tag")))
}

const chainMsgs = 3 // transition 2 has no admission, pre- and post-execution handlers

func newChainApp(cs chainLayout) *chainApp {
	chainTypesOnce.Do(func() {
		fd := mustFile(fileProto("mc/chain.proto", "mc.chain", []string{"core/rbac/xt/rbac_extension.proto"},
			external(msgProto("T0", fieldSpec{Name: "tag", Type: tString}), true), external(msgProto("T1", fieldSpec{Name: "tag", Type: tString}), true), external(msgProto("T2", fieldSpec{Name: "tag", Type: tString}), true)))
		for i := 0; i < chainMsgs; i++ {
			chainTypes = append(chainTypes, registerType(newDynType(fd.Messages().ByName(protoreflect.Name(fmt.Sprint("T", i))), dynTransition)))
		}
	})
	a := &chainApp{cs: cs, fail: -1}
	b := runtime.NewBuilder()
	if !cs.NoDecoder && len(cs.Adm)%2 == 0 {
		b.SetDecoder(a)
	}
	for m := range cs.Adm {
		m := m
		b.AddModule(funcModule(func(c module.Client) module.Descriptor {
			d := module.NewDescriptorBuilder().Named(fmt.Sprint("mod", m))
			for i := 0; i < cs.Adm[m] || i < cs.Post[m]; i++ {
				i := i
				if cs.Same {
					if i < cs.Post[m] {
						d.WithPostAuthenticationHandler(samePost{a})
					}
					if i < cs.Adm[m] {
						d.WithAuthAdmissionHandler(sameAdm{a})
					}
					continue
				}
				if i < cs.Post[m] {
					d.WithPostAuthenticationHandler(postAuthFunc(func(req authentication.PostAuthenticationRequest) (r authentication.PostAuthenticationResponse, err error) {
						return r, a.step(fmt.Sprintf("post %d.%d %s", m, i, chainText(req.Tx)))
					}))
				}
				if i < cs.Adm[m] {
					d.WithAuthAdmissionHandler(authAdmFunc(func(tx authentication.Tx) error {
						return a.step(fmt.Sprintf("adm %d.%d %s", m, i, chainText(tx)))
					}))
				}
			}
			if m == len(cs.Adm)-1 {
				d.IsAuthorizer(a)
			}
			if m > 0 {
				return d.Build()
			}
			for t, ty := range chainTypes {
				t := t
				d.HandlesStateTransition(ty.trans(), statetransition.ExecutionHandlerFunc(func(r statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
					return statetransition.ExecutionResponse{}, a.hit("exec", t, r.Users, r.Transition)
				}))
				if t == 2 {
					continue
				}
				if cs.Same && t == 0 {
					d.HandlesAdmission(ty.trans(), sameMsg{a}).HandlesAdmission(ty.trans(), sameMsg{a})
					d.WithPostStateTransitionHandler(ty.trans(), sameMsg{a}).WithPostStateTransitionHandler(ty.trans(), sameMsg{a})
					continue
				}
				d.HandlesAdmission(ty.trans(), statetransition.AdmissionHandlerFunc(func(r statetransition.AdmissionRequest) error {
					return a.hit("madm", t, r.Users, r.Transition)
				}))
				d.WithPostStateTransitionHandler(ty.trans(), statetransition.PostExecutionHandlerFunc(func(r statetransition.PostExecutionRequest) error {
					return a.hit("mpost", t, r.Users, r.Transition)
				}))
			}
			desc := d.Build()
			for t, ty := range chainTypes[:2] {
				t := t
				if cs.Same && t == 0 {
					addPreExec(&desc, ty.trans(), sameMsg{a})
					addPreExec(&desc, ty.trans(), sameMsg{a})
					continue
				}
				addPreExec(&desc, ty.trans(), statetransition.PreExecutionHandlerFunc(func(r statetransition.PreExecutionRequest) error {
					return a.hit("mpre", t, r.Users, r.Transition)
				}))
			}
			return desc
		}))
	}
	if !cs.NoDecoder && len(cs.Adm)%2 == 1 {
		b.SetDecoder(a)
	}
	rt, err := b.Build()
	must(err)
	a.rt, a.abci = rt, runtime.NewABCIApplication(rt)
	a.abci.InitChain(abcitypes.RequestInitChain{ChainId: "chain"})
	a.abci.BeginBlock(abcitypes.RequestBeginBlock{})
	return a
}

// want is the whole trace of a call of which nothing fails.
func (a *chainApp) want(t *chainTx, deliver bool) (w []string) {
	if t.Bad || a.cs.NoDecoder {
		return nil
	}
	b, err := json.Marshal(t)
	must(err)
	tx, err := a.DecodeTx(b)
	must(err)
	text, users := chainText(tx), usersText(tx.Users())
	for m, n := range a.cs.Adm {
		for i := 0; i < n; i++ {
			w = append(w, "adm "+a.cs.place(m, i)+" "+text)
		}
	}
	if deliver {
		for m, n := range a.cs.Post {
			for i := 0; i < n; i++ {
				w = append(w, "post "+a.cs.place(m, i)+" "+text)
			}
		}
	}
	for i, m := range t.Msgs {
		tag := fmt.Sprint(t.Name, "-", i)
		hit := func(stage string) {
			w = append(w, fmt.Sprintf("%s%d(%s)[%s]", stage, m, users, tag))
			if a.cs.Same && m == 0 && stage != "exec" {
				w = append(w, w[len(w)-1])
			}
		}
		if m != 2 {
			hit("madm")
		}
		if !deliver {
			continue
		}
		w = append(w, fmt.Sprintf("authz(%s)[%s]", users, tag))
		if m != 2 {
			hit("mpre")
		}
		hit("exec")
		if m != 2 {
			hit("mpost")
		}
	}
	return w
}

// chainCall is one transaction checked or delivered, of which one step fails.
type chainCall struct {
	Tx      chainTx
	Deliver bool
	Fail    int // -1 none
	Kind    int
}

func (a *chainApp) call(cl chainCall) *Fail {
	b, err := json.Marshal(&cl.Tx)
	must(err)
	want := a.want(&cl.Tx, cl.Deliver)
	ok := len(want) > 0 || !cl.Tx.Bad && !a.cs.NoDecoder
	a.trace, a.fail, a.kind = nil, cl.Fail, cl.Kind
	if cl.Fail >= 0 && cl.Fail < len(want) {
		want, ok = want[:cl.Fail+1], false
	}
	var code uint32
	if pan := try(func() {
		if cl.Deliver {
			code = a.abci.DeliverTx(abcitypes.RequestDeliverTx{Tx: b}).Code
		} else {
			code = a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: b}).Code
		}
	}); pan != "" {
		return failf("panic", "%+v panicked: %s", cl, pan)
	}
	what := "checking"
	if cl.Deliver {
		what = "delivering"
	}
	for i := 0; i < len(a.trace) || i < len(want); i++ {
		g, x := "nothing", "nothing"
		if i < len(a.trace) {
			g = a.trace[i]
		}
		if i < len(want) {
			x = want[i]
		}
		if g != x {
			key := what + "-" + strings.Fields(x)[0]
			if j := strings.IndexAny(key, "0123456789("); j > 0 {
				key = key[:j]
			}
			return failf(key, "%s %s: step %d is %q, want %q\n  all: %q", what, cl.Tx.Name, i, g, x, a.trace)
		}
	}
	if ok != (code == 0) {
		return failf(what+"-result", "%s %s returned code %d, want success=%v after %q", what, cl.Tx.Name, code, ok, a.trace)
	}
	return nil
}

type pipeCase struct {
	Layout chainLayout
	Calls  []chainCall
}

func c39(c *Ctx) {
	c.Rule = "every number of transaction admission and post-authentication handlers (up to two) of each of three modules, lists of messages, users and payers, every step failing in turn in every way there is, checked and delivered; histories of such calls on one node; up to 66 handlers, modules and messages: the handlers called, in order, with what they are given, are exactly those stated"
	newest := func(w *Worker, l chainLayout) *chainApp {
		k := fmt.Sprint(l)
		if w.S["chain-key"] == k {
			return w.S["chain"].(*chainApp)
		}
		if a, ok := w.S["chain"].(*chainApp); ok {
			closeDBs(a.rt)
		} else {
			w.OnClose(func() { closeDBs(w.S["chain"].(*chainApp).rt) })
		}
		a := newChainApp(l)
		w.S["chain"], w.S["chain-key"] = a, k
		return a
	}
	run := func(w *Worker, cs pipeCase) *Fail {
		a := newest(w, cs.Layout)
		addN(&c.Traces, 1)
		for _, cl := range cs.Calls {
			f := a.call(cl)
			addN(&c.Transitions, len(a.trace))
			c.State(fmt.Sprint(cs.Layout, a.trace))
			if f != nil {
				w.S["chain-key"] = ""
				return f
			}
		}
		return nil
	}
	// steps is an upper bound of the steps of a call
	steps := func(l chainLayout, msgs int) int {
		n := 5 * msgs
		if l.Same {
			n = 8 * msgs
		}
		for i := range l.Adm {
			n += l.Adm[i] + l.Post[i]
		}
		return n
	}
	var layouts []chainLayout
	wordsLen(3, 3, func(a []int) bool {
		layouts = append(layouts, chainLayout{Adm: append([]int{}, a...), Post: []int{1, 1, 1}})
		wordsLen(3, 3, func(p []int) bool {
			d := a[0] + 2*a[1] + a[2] + p[0] + p[1] + 2*p[2]
			if d%13 == 0 || c.Thorough || fmt.Sprint(a) == "[1 1 1]" {
				layouts = append(layouts, chainLayout{Adm: append([]int{}, a...), Post: append([]int{}, p...)})
			}
			return true
		})
		return true
	})
	layouts = append(layouts, chainLayout{Adm: []int{1, 1, 1}, Post: []int{1, 1, 1}, NoDecoder: true}, chainLayout{Adm: []int{2, 1}, Post: []int{0, 2}}, chainLayout{Adm: []int{1}, Post: []int{2}})
	for _, n := range [][]int{{1, 1, 1}, {2, 0, 1}, {0, 0, 2}} {
		layouts = append(layouts, chainLayout{Adm: n, Post: []int{1, 1, 0}, Same: true}, chainLayout{Adm: []int{1, 1, 0}, Post: n, Same: true})
	}
	whos := [][]string{{"u1"}, {"u1", "u2"}, {}, {"u2", "u1", "u3"}}
	Explore(c, "steps", func(emit func(pipeCase) bool) {
		for _, l := range layouts {
			for ml := 0; ml <= 3; ml++ {
				if !wordsLen(chainMsgs, ml, func(ms []int) bool {
					if ml == 3 && !c.Thorough && (ms[0]+ms[1]+ms[2])%3 != 0 {
						return true
					}
					who := whos[(ml+sum(ms)+sum(l.Adm))%len(whos)]
					t := chainTx{Name: "tx", Who: who, Pays: fmt.Sprint("payer", ml), Msgs: append([]int{}, ms...)}
					for fail := -1; fail < steps(l, ml); fail++ {
						for _, d := range []bool{false, true} {
							for _, k := range []int{-1, 0, (fail + ml + 1) % len(refusals)} {
								if fail < 0 && k >= 0 {
									continue
								}
								if !emit(pipeCase{l, []chainCall{{t, d, fail, k}}}) {
									return false
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}
	}, run)
	// every kind of failure at every step of one layout
	Explore(c, "failures", func(emit func(pipeCase) bool) {
		l := chainLayout{Adm: []int{1, 2, 1}, Post: []int{2, 1, 1}}
		for fail := 0; fail < steps(l, 2); fail++ {
			for k := -1; k < len(refusals); k++ {
				for _, d := range []bool{false, true} {
					for _, ms := range [][]int{{0, 1}, {2, 0}, {1, 1}} {
						if !emit(pipeCase{l, []chainCall{{chainTx{Name: "tx", Who: whos[1], Pays: "u2", Msgs: ms}, d, fail, k}}}) {
							return
						}
					}
				}
			}
		}
	}, run)
	// histories of calls on one node
	Explore(c, "histories", func(emit func(pipeCase) bool) {
		l := chainLayout{Adm: []int{1, 0, 1}, Post: []int{0, 1, 1}}
		var calls []chainCall
		for i, t := range []chainTx{{Who: whos[0], Pays: "u1", Msgs: []int{0}}, {Who: whos[1], Pays: "u2", Msgs: []int{1, 2}}, {Who: whos[0], Bad: true, Msgs: []int{0}}} {
			for _, d := range []bool{false, true} {
				t.Name = fmt.Sprint("tx", i)
				for _, f := range []int{-1, 0, 1, 2, 4, 6} {
					if (t.Bad || !d) && f > 2 {
						continue
					}
					calls = append(calls, chainCall{t, d, f, f%2 - 1})
				}
			}
		}
		depth := most(c, 3, 4)
		for n := 1; n <= depth; n++ {
			if !wordsLen(len(calls), n, func(ix []int) bool {
				cs := pipeCase{Layout: l}
				for _, i := range ix {
					cs.Calls = append(cs.Calls, calls[i])
				}
				return emit(cs)
			}) {
				return
			}
		}
	}, run)
	Explore(c, "many", func(emit func(pipeCase) bool) {
		for of := 0; of < 4; of++ {
			for _, n := range sizesTo(66) {
				l := chainLayout{Adm: []int{1, 1}, Post: []int{1, 1}}
				t := chainTx{Name: "tx", Who: whos[1], Pays: "u1", Msgs: []int{0, 1}}
				switch of {
				case 0:
					l.Adm[0] = n
				case 1:
					l.Post[1] = n
				case 2:
					l.Adm, l.Post = nil, nil
					for i := 0; i < n; i++ {
						l.Adm, l.Post = append(l.Adm, i%2), append(l.Post, (i+1)%3%2)
					}
				case 3:
					t.Msgs = nil
					for i := 0; i < n; i++ {
						t.Msgs = append(t.Msgs, i*i%3)
					}
				}
				for _, at := range append([]int{-1}, placesIn(steps(l, len(t.Msgs)))...) {
					for _, d := range []bool{false, true} {
						if !emit(pipeCase{l, []chainCall{{t, d, at, at % 3}}}) {
							return
						}
					}
				}
			}
		}
	}, run)
}

func sum(l []int) (n int) {
	for _, x := range l {
		n += x
	}
	return
}
