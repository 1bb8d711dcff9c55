BUGS = []
def bug(id, property, edits, needs, breaks, demo, pkg=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if pkg: d["pkg"] = pkg
    BUGS.append(d)

HEAD = '''
package demo

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
)

var _ = fmt.Sprint
var _ authentication.Tx
var _ = user.NewUsers
var _ = client.GetAtHeight
var _ = errors.Is
var _ = meta.SingletonID
var _ statetransition.AdmissionHandler
var _ authnv1.Account
var _ bankv1.Balance
var _ types.RequestCheckTx

type admFunc func(authentication.Tx) error

func (f admFunc) Validate(tx authentication.Tx) error { return f(tx) }

type postFunc func(authentication.PostAuthenticationRequest) error

func (f postFunc) Exec(r authentication.PostAuthenticationRequest) (x authentication.PostAuthenticationResponse, err error) {
	return x, f(r)
}

type mod struct {
	name string
	f    func(*module.DescriptorBuilder, module.Client)
}

func (m mod) Initialize(c module.Client) module.Descriptor {
	b := module.NewDescriptorBuilder().Named(m.name)
	m.f(b, c)
	return b.Build()
}
'''

# who the handlers of transitions are called for
SPY = '''
func spy(calls func(c module.Client) error) string {
	var t *testing.T
	var cl module.Client
	out := ""
	a := newApp(t, 2, mod{"extra", func(b *module.DescriptorBuilder, c module.Client) {
		cl = c
		seen := func(tr string) statetransition.PostExecutionHandlerFunc {
			return func(r statetransition.PostExecutionRequest) error {
				out += fmt.Sprint(tr, r.Users, ";")
				return nil
			}
		}
		b.WithPostStateTransitionHandler(&bankv1.MsgSetBalance{}, seen("set"))
		b.WithPostStateTransitionHandler(&bankv1.MsgSendCoins{}, seen("send"))
	}})
	a.rt.DisableAuthorization()
	out = ""
	if err := calls(cl); err != nil {
		return "error " + err.Error()
	}
	return out
}
'''

bug("b112-kept-impersonation", "C38",
 [("runtime/client.go", """	// impersonate users if defined
	users := user.NewUsersUnion(c.users, o.Impersonate)

	return c.runtime.Deliver(users, transition)""", """	// impersonate users if defined
	if o.Impersonate != nil {
		users := c.users
		c.SetUser(user.NewUsersUnion(c.users, o.Impersonate))
		err := c.runtime.Deliver(c.users, transition)
		if err != nil {
			return err
		}
		c.SetUser(users)
		return nil
	}
	return c.runtime.Deliver(c.users, transition)""")],
 "a module's impersonating delivery that fails, then another action of the module",
 "the module keeps acting in the name of the user it impersonated",
 HEAD + SPY + '''
func TestDemo(t *testing.T) {
	got := spy(func(c module.Client) error {
		// more than there is
		if c.Deliver(&bankv1.MsgSendCoins{FromAddress: key(0).addr, ToAddress: key(1).addr, Amount: coins("test", "9999")}, client.DeliverImpersonating(key(0).addr)) == nil {
			return fmt.Errorf("sent")
		}
		return c.Deliver(&bankv1.MsgSetBalance{Address: key(1).addr, Amount: coins("test", "1")})
	})
	if got != "set[extra];" {
		t.Fatal(got)
	}
}
''')

bug("b113-own-name-lost", "C38",
 [("runtime/authentication/user/user.go", """	for _, g := range groups {
		// in case of nil users we skip
		if g == nil {
			continue
		}
		for _, user := range g.List() {
			users.add(user)
		}
	}
	return users""", """	for _, g := range groups {
		// in case of nil users we skip
		if g == nil {
			continue
		}
		for _, user := range g.List() {
			if !users.add(user) {
				// the group is part of the others
				break
			}
		}
	}
	return users""")],
 "a module impersonating a list of users in which its own name comes (in order) before others",
 "the users after the module's own name are not impersonated",
 HEAD + SPY + '''
func TestDemo(t *testing.T) {
	got := spy(func(c module.Client) error {
		return c.Deliver(&bankv1.MsgSetBalance{Address: key(1).addr, Amount: coins("test", "1")}, client.DeliverImpersonating("extra", "someone"))
	})
	if got != "set[extra someone];" {
		t.Fatal(got)
	}
}
''')

bug("b114-caller-identity", "C38",
 [("runtime/runtime.go", """	// get the handler
	handler, err := r.router.GetStateTransitionExecutionHandler(stateTransition)""", """	// the transitions of a chain are delivered for who started it
	if len(users.List()) > 3 {
		users = user.NewUsers(users.List()[:3]...)
	}
	// get the handler
	handler, err := r.router.GetStateTransitionExecutionHandler(stateTransition)""")],
 "a delivery for more than three users",
 "the execution handler is not told of all users",
 HEAD + SPY + '''
func TestDemo(t *testing.T) {
	got := spy(func(c module.Client) error {
		return c.Deliver(&bankv1.MsgSetBalance{Address: key(1).addr, Amount: coins("test", "1")}, client.DeliverImpersonating("u1", "u2", "u3"))
	})
	if got != "set[extra u1 u2 u3];" {
		t.Fatal(got)
	}
}
''')

bug("b115-first-height", "C38",
 [("runtime/client.go", """	if o.Height != 0 {
		return""", """	// the first height is the one the chain starts from
	if o.Height > 1 {
		return""")],
 "a module reading an object at height 1",
 "it is given the current object",
 HEAD + SPY + '''
func TestDemo(t *testing.T) {
	got := spy(func(c module.Client) error {
		return c.Get(meta.NewStringID(key(0).addr), new(bankv1.Balance), client.GetAtHeight(1))
	})
	if got == "" {
		t.Fatal("answered")
	}
}
''')

bug("b116-check-first-message", "C39",
 [("runtime/abci.go", """	for _, transition := range tx.StateTransitions() {
		err = a.rt.runAdmissionChain(tx.Users(), transition)
		if err != nil {
			return types.ResponseCheckTx(errors.ToABCIResponse(0, 0, err))
		}
	}
	return types.ResponseCheckTx{}""", """	checked := map[string]bool{}
	for _, transition := range tx.StateTransitions() {
		// once per state transition
		if checked[meta.Name(transition)] {
			continue
		}
		checked[meta.Name(transition)] = true
		err = a.rt.runAdmissionChain(tx.Users(), transition)
		if err != nil {
			return types.ResponseCheckTx(errors.ToABCIResponse(0, 0, err))
		}
	}
	return types.ResponseCheckTx{}""")],
 "a transaction with two messages of a kind of which the second is refused by admission",
 "CheckTx admits it",
 HEAD + '''
func TestDemo(t *testing.T) {
	a := newApp(t, 2, mod{"extra", func(b *module.DescriptorBuilder, c module.Client) {
		b.HandlesAdmission(&bankv1.MsgSendCoins{}, statetransition.AdmissionHandlerFunc(func(r statetransition.AdmissionRequest) error {
			if r.Transition.(*bankv1.MsgSendCoins).Amount[0].Denom == "foo" {
				return fmt.Errorf("no foo")
			}
			return nil
		}))
	}})
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "1"), send(key(0).addr, key(1).addr, "foo", "1"))
	if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code == 0 {
		t.Fatal("admitted")
	}
}
''')

bug("b117-post-auth-order", "C39",
 [("runtime/router.go", """func (r *Router) GetTransactionPostAuthenticationHandlers() []authentication.PostAuthenticationHandler {
	return r.transactionPostAuthenticationHandlers
}""", """func (r *Router) GetTransactionPostAuthenticationHandlers() []authentication.PostAuthenticationHandler {
	known := make(map[authentication.PostAuthenticationHandler]struct{})
	var handlers []authentication.PostAuthenticationHandler
	for _, h := range r.transactionPostAuthenticationHandlers {
		// a handler is run once, however many modules have it
		if t := reflect.TypeOf(h); t.Comparable() {
			if _, exists := known[h]; exists {
				continue
			}
			known[h] = struct{}{}
		}
		handlers = append(handlers, h)
	}
	return handlers
}"""), ("runtime/router.go", """	"fmt"
""", """	"fmt"
	"reflect"
""")],
 "post-authentication handlers of two modules which are equal values of one type",
 "the second is not run",
 HEAD + '''
type fixed struct{}

var runs int

func (fixed) Exec(r authentication.PostAuthenticationRequest) (x authentication.PostAuthenticationResponse, err error) {
	runs++
	return
}

func TestDemo(t *testing.T) {
	one := func(b *module.DescriptorBuilder, c module.Client) { b.WithPostAuthenticationHandler(fixed{}) }
	a := newApp(t, 2, mod{"one", one}, mod{"two", one})
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "1"))
	if r := a.deliver(x); r.Code != 0 || runs != 2 {
		t.Fatal(r.Log, runs)
	}
}
''')

bug("b118-last-modules-admission", "C39",
 [("runtime/builder.go", """		if m.AuthAdmissionHandlers == nil {
			continue
		}
		for _, h := range m.AuthAdmissionHandlers {""", """		if m.AuthAdmissionHandlers == nil {
			break
		}
		for _, h := range m.AuthAdmissionHandlers {"""),
  ("runtime/builder.go", """	for _, m := range b.moduleDescriptors {
		if m.AuthAdmissionHandlers == nil""", """	// those with handlers first
	ms := append([]module.Descriptor{}, b.moduleDescriptors...)
	sort.Slice(ms, func(i, j int) bool { return len(ms[i].AuthAdmissionHandlers) > len(ms[j].AuthAdmissionHandlers) })
	for _, m := range ms {
		if m.AuthAdmissionHandlers == nil"""),
  ("runtime/builder.go", """import (
	"fmt"
""", """import (
	"fmt"
	"sort"
""")],
 "a later module with more transaction admission handlers than an earlier one",
 "its handlers are consulted before those of the earlier one",
 HEAD + '''
func TestDemo(t *testing.T) {
	order := ""
	adm := func(s string) authentication.AdmissionHandler {
		return admFunc(func(authentication.Tx) error { order += s; return nil })
	}
	a := newApp(t, 2, mod{"one", func(b *module.DescriptorBuilder, c module.Client) { b.WithAuthAdmissionHandler(adm("1")) }},
		mod{"two", func(b *module.DescriptorBuilder, c module.Client) { b.WithAuthAdmissionHandler(adm("2")).WithAuthAdmissionHandler(adm("3")) }})
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "1"))
	if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code != 0 || order != "123" {
		t.Fatal(r.Log, order)
	}
}
''')

bug("b119-key-of-first", "C37",
 [("x/authn/extensions.go", """		// skip if its set
		if acc.PubKey != nil {
			continue
		}""", """		// nothing to do if its set
		if acc.PubKey != nil {
			break
		}""")],
 "a transaction signed first by an account with a registered key and then by one without",
 "the second signer's key is not registered",
 HEAD + '''
func TestDemo(t *testing.T) {
	a := newApp(t, 3)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(2).addr, "test", "1"))
	if r := a.deliver(x); r.Code != 0 {
		t.Fatal(r.Log)
	}
	x.signers = []signer{{key(0), 1, 0}, {key(1), 0, 1}}
	if r := a.deliver(x); r.Code != 0 {
		t.Fatal(r.Log)
	}
	if a.account(key(1).addr).PubKey == nil {
		t.Fatal("no key")
	}
}
''')

bug("b120-sequence-width", "C12",
 [("x/authn/v1alpha1/client.go", "	acc.Sequence = acc.Sequence + 1\n", "	acc.Sequence = uint64(uint16(acc.Sequence + 1))\n")],
 "an account of sequence 65535",
 "the sequence starts again at zero, old transactions can be replayed",
 HEAD + '''
func TestDemo(t *testing.T) {
	var cl module.Client
	a := newApp(t, 2, mod{"extra", func(b *module.DescriptorBuilder, c module.Client) { cl = c }})
	a.rt.DisableAuthorization()
	acc := a.account(key(0).addr)
	acc.Sequence = 65535
	must(cl.Update(acc))
	a.rt.EnableAuthorization()
	x := txSpec{signers: []signer{{key(0), 65535, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "1"))
	if r := a.deliver(x); r.Code != 0 {
		t.Fatal(r.Log)
	}
	if s := a.account(key(0).addr).Sequence; s != 65536 {
		t.Fatal(s)
	}
}
''')

bug("b121-fee-first-coin", "C16",
 [("x/distribution/extensions.go", """	_, err = v1alpha12.SafeSub(balance.Balance, fee)
	if err != nil {
		return err
	}
""", """	for _, coin := range fee {
		_, err = v1alpha12.SafeSub(balance.Balance, []*v1alpha12.Coin{coin})
		if err == nil {
			return nil
		}
	}
	if err != nil {
		return err
	}
""")],
 "a fee in two denominations of which the payer covers one",
 "CheckTx admits a transaction whose fee cannot be paid",
 HEAD + '''
func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("foo", "1", "test", "2000")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "1"))
	if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code == 0 {
		t.Fatal("admitted")
	}
}
''')

bug("b122-memo-in-runes", "C31",
 [("x/authn/extensions.go", "	memoLength := len(memo)\n", "	memoLength := int(uint16(len(memo)))\n")],
 "a memo of 65536 bytes and a few",
 "the memo is accepted",
 HEAD + '''
func TestDemo(t *testing.T) {
	var cl module.Client
	a := newApp(t, 2, mod{"extra", func(b *module.DescriptorBuilder, c module.Client) { cl = c }})
	a.rt.DisableAuthorization()
	p := new(authnv1.Params)
	must(cl.Get(meta.SingletonID, p))
	p.MaxMemoCharacters = 100
	must(cl.Update(p))
	a.rt.EnableAuthorization()
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1"), memo: string(make([]byte, 65540))}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "1"))
	if r := a.deliver(x); r.Code == 0 {
		t.Fatal("accepted")
	}
}
''')

bug("b123-exists-code", "C36",
 [("runtime/runtime.go", """		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)""", """		return fmt.Errorf("%w: %s", errors.ErrConditionNotMet, err)""")],
 "a message that creates an object which exists",
 "it is answered with the code of unmet conditions",
 HEAD + '''
func TestDemo(t *testing.T) {
	a := newApp(t, 2, mod{"extra", func(b *module.DescriptorBuilder, c module.Client) {
		b.WithPostStateTransitionHandler(&bankv1.MsgSendCoins{}, statetransition.PostExecutionHandlerFunc(func(r statetransition.PostExecutionRequest) error {
			if r.Transition.(*bankv1.MsgSendCoins).Amount[0].Denom != "foo" {
				return nil
			}
			return c.Create(&bankv1.Balance{Address: key(0).addr})
		}))
	}})
	a.rt.DisableAuthorization()
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "foo", "1"))
	if r := a.deliver(x); r.Code != 409 {
		t.Fatal(r.Code, r.Log)
	}
}
''')
