BUGS = []
def bug(id, property, edits, needs, breaks, demo, pkg=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if pkg: d["pkg"] = pkg
    BUGS.append(d)

MOD = '''
type mod struct {
	f func(*module.DescriptorBuilder, module.Client)
}

func (m mod) Initialize(c module.Client) module.Descriptor {
	b := module.NewDescriptorBuilder().Named("extra")
	m.f(b, c)
	return b.Build()
}
'''

bug("b94-post-missing", "C06",
 [("runtime/runtime.go", """			Response:   resp,
		})
		if err != nil {
			return err
		}
""", """			Response:   resp,
		})
		// there is nothing to follow up on
		if errors.Is(err, errors.ErrNotFound) {
			break
		}
		if err != nil {
			return err
		}
""")],
 "a post-execution handler that fails because something it looks for does not exist",
 "the transition succeeds although one of its handlers refused it, and the remaining ones do not run",
 '''
package demo

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)
''' + MOD + '''
func TestDemo(t *testing.T) {
	fail := false
	a := newApp(t, 1, mod{func(b *module.DescriptorBuilder, c module.Client) {
		b.WithPostStateTransitionHandler(&bankv1.MsgSetBalance{}, statetransition.PostExecutionHandlerFunc(func(statetransition.PostExecutionRequest) error {
			if fail {
				return fmt.Errorf("%w: no such thing", errors.ErrNotFound)
			}
			return nil
		}))
	}})
	fail = true
	if a.rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSetBalance{Address: key(0).addr, Amount: coins("test", "1")}) == nil {
		t.Fatal("delivered although a handler failed")
	}
}
''')

bug("b95-admission-missing", "C32",
 [("runtime/runtime.go", """			Transition: transition,
			Users:      users,
		})
		if err != nil {
			return fmt.Errorf("%w: %s", errors.ErrBadRequest, err.Error())""", """			Transition: transition,
			Users:      users,
		})
		// the transition might be about what it creates
		if err != nil && !errors.Is(err, errors.ErrNotFound) {
			return fmt.Errorf("%w: %s", errors.ErrBadRequest, err.Error())""")],
 "an admission handler of a transition that refuses with a not-found error",
 "the transaction is admitted and executed",
 '''
package demo

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
)
''' + MOD + '''
func TestDemo(t *testing.T) {
	a := newApp(t, 2, mod{func(b *module.DescriptorBuilder, c module.Client) {
		b.HandlesAdmission(&bankv1.MsgSendCoins{}, statetransition.AdmissionHandlerFunc(func(r statetransition.AdmissionRequest) error {
			if r.Transition.(*bankv1.MsgSendCoins).Amount[0].Denom == "foo" {
				return fmt.Errorf("%w: the currency foo", errors.ErrNotFound)
			}
			return nil
		}))
	}})
	x := txSpec{msgs: nil, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "foo", "1"))
	if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code == 0 {
		t.Fatal("admitted")
	}
	if r := a.deliver(x); r.Code == 0 {
		t.Fatal("delivered")
	}
}
''')

bug("b96-postauth-missing", "C11",
 [("runtime/runtime.go", """		_, err := ctrl.Exec(authentication.PostAuthenticationRequest{Tx: tx})
		if err != nil {
			return""", """		_, err := ctrl.Exec(authentication.PostAuthenticationRequest{Tx: tx})
		if errors.Is(err, errors.ErrNotFound) {
			continue // nothing to do for this transaction
		}
		if err != nil {
			return""")],
 "a post-authentication handler that fails with a not-found error",
 "the transaction goes on and its messages are applied",
 '''
package demo

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
)
''' + MOD + '''
type postAuth struct{}

func (postAuth) Exec(authentication.PostAuthenticationRequest) (r authentication.PostAuthenticationResponse, err error) {
	return r, fmt.Errorf("%w: no allowance", errors.ErrNotFound)
}

func TestDemo(t *testing.T) {
	a := newApp(t, 2, mod{func(b *module.DescriptorBuilder, c module.Client) {
		b.WithPostAuthenticationHandler(postAuth{})
	}})
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "foo", "1"))
	if r := a.deliver(x); r.Code == 0 || a.balance(key(1).addr, "foo") != "50" {
		t.Fatal("applied although a handler failed", r)
	}
}
''')

bug("b97-signature-count", "C31",
 [("x/authn/extensions.go", """	for _, pk := range pubKeys {
		subKeys := s.countSubKeys(pk.PubKey)
		sigs += subKeys
""", """	counted := map[string]bool{}
	for _, pk := range pubKeys {
		// a key is counted once
		if counted[pk.Address] {
			continue
		}
		counted[pk.Address] = true
		subKeys := s.countSubKeys(pk.PubKey)
		sigs += subKeys
""")],
 "a transaction that holds more signatures than allowed, all of the same account",
 "it is admitted",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/core/meta"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	p := new(authnv1.Params)
	must(a.rt.Get(meta.SingletonID, p))
	p.TxSigLimit = 1
	must(a.rt.Update(user.NewUsersFromString("authn"), p))
	one := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	one.msgs = append(one.msgs, send(key(0).addr, key(1).addr, "foo", "1"))
	if r := a.CheckTx(types.RequestCheckTx{Tx: one.bytes()}); r.Code != 0 {
		t.Fatal("refused", r)
	}
	one.signers = append(one.signers, one.signers[0])
	if r := a.CheckTx(types.RequestCheckTx{Tx: one.bytes()}); r.Code == 0 {
		t.Fatal("two signatures where one is allowed")
	}
}
''')

bug("b98-chain-length", "C13",
 [("core/abci/handlers.go", """		err = client.Update(&v1alpha1.InitChainInfo{ChainId: msg.InitChainInfo.ChainId})
""", """		id := msg.InitChainInfo.ChainId
		if len(id) > 50 {
			id = id[:50] // MaxChainIDLen
		}
		err = client.Update(&v1alpha1.InitChainInfo{ChainId: id})
""")],
 "chains with long names that begin alike",
 "a transaction signed for one chain is valid on the other",
 '''
package demo

import (
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/x/authn"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	"github.com/tendermint/tendermint/abci/types"
)

var _ = apiserver.Module{}

func TestDemo(t *testing.T) {
	long := strings.Repeat("mainnet-", 7)
	b := runtime.NewBuilder()
	auth := authn.NewModule()
	b.AddModule(auth)
	b.AddModule(rbac.NewModule())
	b.SetDecoder(auth.GetTxDecoder())
	b.AddModule(bank.NewModule())
	b.AddModule(distribution.NewModule())
	rt, err := b.Build()
	must(err)
	a := &app{rt, runtime.NewABCIApplication(rt), t}
	a.InitChain(types.RequestInitChain{ChainId: long + "1"})
	for i := 0; i < 2; i++ {
		must(rt.Deliver(user.NewUsersFromString("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: key(byte(i)).addr}}))
		must(rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSetBalance{Address: key(byte(i)).addr, Amount: coins("test", "1000", "foo", "50")}))
	}
	must(rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSetBalance{Address: "fee_collector"}))
	a.begin(1)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "foo", "1"))
	for _, foreign := range []string{long + "2", long, long[:50]} {
		raw := x.raw()
		raw.Signatures = [][]byte{key(0).sign(mb(&authnv1.SignDoc{BodyBytes: raw.BodyBytes, AuthInfoBytes: raw.AuthInfoBytes, ChainId: foreign}))}
		if r := a.CheckTx(types.RequestCheckTx{Tx: mb(raw)}); r.Code == 0 {
			t.Fatal("a transaction for", foreign, "is valid on", long+"1")
		}
	}
}
''')

bug("b99-fee-check-zero", "C16",
 [("x/distribution/extensions.go", """	// get balance of fee payer
	balance,""", """	// nothing to check when there are no fees
	if len(fee) != 0 && fee[0].Amount == "0" {
		return nil
	}
	// get balance of fee payer
	balance,""")],
 "a fee whose first coin is zero and whose other coins the payer does not have",
 "the transaction is admitted although its payer can not pay",
 '''
package demo

import (
	"testing"

	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	for _, fee := range [][]string{{"foo", "0", "test", "1001"}, {"test", "0", "foo", "51"}, {"test", "1001"}} {
		x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins(fee...)}
		x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "foo", "1"))
		if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code == 0 {
			t.Fatal("admitted with fee", fee)
		}
	}
}
''')

bug("b100-updates-dropped", "C18",
 [("runtime/abci.go", """	updates := make([]types.ValidatorUpdate, len(valUpdates.ValidatorUpdates))
	for i, val := range valUpdates.ValidatorUpdates {
		updates[i] = val.ToLegacy()
	}
""", """	updates := make([]types.ValidatorUpdate, 0, len(valUpdates.ValidatorUpdates))
	for _, val := range valUpdates.ValidatorUpdates {
		// the last word on a validator counts
		if n := len(updates); n != 0 && updates[n-1].PubKey.Equal(val.ToLegacy().PubKey) {
			updates[n-1] = val.ToLegacy()
			continue
		}
		updates = append(updates, val.ToLegacy())
	}
""")],
 "a block in which a validator is updated twice in a row",
 "only one of the updates is reported to the consensus engine",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	"github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	a.EndBlock(types.RequestEndBlock{Height: 1})
	a.rt.DisableAuthorization()
	k := &crypto.PublicKey{Sum: &crypto.PublicKey_Ed25519{Ed25519: make([]byte, 32)}}
	must(a.rt.Deliver(user.NewUsersFromString("abci"), &abciv1.MsgSetValidatorUpdates{ValidatorUpdates: []*abci.ValidatorUpdate{{PubKey: k, Power: 5}, {PubKey: k, Power: 0}}}))
	r := a.EndBlock(types.RequestEndBlock{Height: 2})
	if len(r.ValidatorUpdates) != 2 || r.ValidatorUpdates[0].Power != 5 || r.ValidatorUpdates[1].Power != 0 {
		t.Fatal(r.ValidatorUpdates)
	}
}
''')

bug("b101-account-of-nothing", "C22",
 [("x/bank/handler.go", """		return resp, s.createAccountIfNotExist(msg.ToAddress)
""", """		// an account is needed to spend
		if len(msg.Amount) == 0 {
			return resp, nil
		}
		return resp, s.createAccountIfNotExist(msg.ToAddress)
""")],
 "a first transfer of no coins to an address",
 "the address has a balance, so it never gets an account, also when coins arrive later",
 '''
package demo

import "testing"

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	for i, amt := range [][]string{{}, {"foo", "5"}} {
		x := txSpec{signers: []signer{{key(0), uint64(i), 0}}, fee: coins("test", "1")}
		x.msgs = append(x.msgs, send(key(0).addr, key(5).addr, amt...))
		if r := a.deliver(x); r.Code != 0 {
			t.Fatal(r)
		}
		if a.account(key(5).addr) == nil {
			t.Fatal("no account after transfer", amt)
		}
	}
}
''')

IMPORT = '''
package demo

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
)

var _ = fmt.Sprint
var _ = errors.ErrNotFound

type imp struct {
	name string
	f    func(json.RawMessage) error
}

func (i imp) Default() error                   { return nil }
func (i imp) Import(b json.RawMessage) error   { return i.f(b) }
func (i imp) Export() (json.RawMessage, error) { return nil, nil }
func (i imp) Initialize(module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named(i.name).WithGenesis(i).Build()
}
'''

bug("b102-import-numbers", "C35",
 [("runtime/runtime.go", """	genesisData := make(map[string]json.RawMessage)
	err""", """	genesisData := make(map[string]interface{})
	err"""),
  ("runtime/runtime.go", """		err := m.GenesisHandler.Import(genesisData[m.Name])
		if err""", """		var state json.RawMessage
		if data, ok := genesisData[m.Name]; ok {
			state, err = json.Marshal(data)
			if err != nil {
				return err
			}
		}
		err := m.GenesisHandler.Import(state)
		if err""")],
 "a genesis state that holds numbers above 2^53",
 "the module is given another number",
 IMPORT + '''
func TestDemo(t *testing.T) {
	got := ""
	b := runtime.NewBuilder()
	b.AddModule(imp{"m", func(s json.RawMessage) error { got = string(s); return nil }})
	rt, err := b.Build()
	must(err)
	must(rt.Import([]byte(`{"other":{},"m":{"supply":9007199254740993}}`)))
	var x struct{ Supply uint64 }
	if json.Unmarshal([]byte(got), &x) != nil || x.Supply != 9007199254740993 {
		t.Fatal(got)
	}
}
''')

bug("b103-import-exists", "C35",
 [("runtime/runtime.go", """		err := m.GenesisHandler.Import(genesisData[m.Name])
		if err != nil {""", """		err := m.GenesisHandler.Import(genesisData[m.Name])
		// what is there already needs not be imported
		if err != nil && !errors.Is(err, errors.ErrAlreadyExists) {""")],
 "a genesis state that names an object twice, so that the module's import stops at it",
 "the chain starts from a part of the state",
 IMPORT + '''
func TestDemo(t *testing.T) {
	b := runtime.NewBuilder()
	next := false
	b.AddModule(imp{"m", func(s json.RawMessage) error { return fmt.Errorf("%w: a1", errors.ErrAlreadyExists) }})
	b.AddModule(imp{"n", func(s json.RawMessage) error { next = true; return nil }})
	rt, err := b.Build()
	must(err)
	if rt.Import([]byte(`{"m":{},"n":{}}`)) == nil || next {
		t.Fatal("imported")
	}
}
''')

bug("b104-wrapped-codes", "C36",
 [("runtime/errors/errors.go", """	case errors.Is(err, ErrNotFound):
		code""", """	case err == ErrNotFound || errors.Unwrap(err) == ErrNotFound:
		code""")],
 "a failure whose not-found cause is wrapped twice",
 "it is answered with the code of an unknown failure",
 '''
package demo

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/runtime/errors"
)

func TestDemo(t *testing.T) {
	err := error(errors.ErrNotFound)
	for i := 0; i < 4; i++ {
		if r := errors.ToABCIResponse(0, 0, err); r.Code != errors.CodeNotFound {
			t.Fatal(i, r)
		}
		err = fmt.Errorf("looking for x: %w", err)
	}
}
''')

bug("b105-delete-refusal", "C36",
 [("runtime/runtime.go", """	return convertStoreError(r.store.Delete(""", """	return (r.store.Delete(""")],
 "a message that fails as it deletes an object which does not exist",
 "it is answered with the code of an unknown failure",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/errors"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	a.rt.DisableAuthorization()
	err := a.rt.Delete(user.NewUsersFromString("bank"), &bankv1.Balance{Address: "nobody"})
	if err == nil {
		t.Fatal("deleted")
	}
	if r := errors.ToABCIResponse(0, 0, err); r.Code != errors.CodeNotFound {
		t.Fatal(r)
	}
}
''')

bug("b106-bare-selection", "C17",
 [("core/apiserver/router/server.go", """			if len(sp) != 2 {
				badRequest""", """			if sp[0] == "" {
				badRequest""")],
 "a list request that selects an indexed field without saying which value",
 "the handler panics",
 '''
package demo

import (
	"net/http/httptest"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	b := router.NewBuilder(runtime.NewModuleClient(a.rt))
	must(b.CreateStateObjectHandler(&rbacv1.RoleBinding{}, rbacv1.RoleBindingSchema))
	h, err := b.Build()
	must(err)
	for _, q := range []string{"roleRef", "roleRef=", "=", "nope", "roleRef=a=b"} {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("GET", "/tmos.core.rbac.v1alpha1/rolebindings?selectField="+q, nil))
		if w.Code >= 500 {
			t.Fatal(q, w.Code)
		}
	}
}
''')

bug("b107-negative-height", "C17",
 [("runtime/abci.go", """	return a.query.Handle(query)
""", """	var heights [1]int64
	if query.Height != 0 {
		heights[query.Height&0] = heights[query.Height>>63]
	}
	return a.query.Handle(query)
""")],
 "a query for a negative height",
 "the node panics",
 '''
package demo

import (
	"testing"

	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	for _, h := range []int64{0, 1, -1} {
		if r := a.Query(types.RequestQuery{Path: "get/tmos.x.bank.v1alpha1/Balance/" + key(0).addr, Height: h}); h == 0 && r.Code != 0 {
			t.Fatal(r)
		}
	}
}
''')

bug("b108-clock", "C21",
 [("core/abci/handlers.go", """		err = client.Update(&v1alpha1.BeginBlockState{BeginBlock: msg.BeginBlock})
""", """		// a block without a time was made now
		if t := msg.BeginBlock.Header.Time; t != nil && t.Seconds <= 0 {
			t.Seconds, t.Nanos = time.Now().Unix(), int32(time.Now().Nanosecond())
		}
		err = client.Update(&v1alpha1.BeginBlockState{BeginBlock: msg.BeginBlock})
"""),
  ("core/abci/handlers.go", """	"fmt"

""", """	"fmt"
	"time"

""")],
 "a block whose header has no time",
 "the state depends on the clock of the machine",
 '''
package demo

import (
	"testing"
	"time"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	get := func() *abciv1.BeginBlockState {
		a := newApp(t, 1)
		a.begin(2)
		x := new(abciv1.BeginBlockState)
		must(a.rt.Get(meta.SingletonID, x))
		return x
	}
	x := get()
	time.Sleep(10 * time.Millisecond)
	if y := get(); !proto.Equal(x, y) {
		t.Fatal(x, y)
	}
}
''')

bug("b110-operation-names", "C30",
 [("core/apiserver/router/openapi.go", """	opID := fmt.Sprintf("get.%s", meta.Name(obj))
""", """	opID := fmt.Sprintf("get.%s", obj.APIDefinition().Kind)
""")],
 "two modules with objects of the same kind",
 "two operations of the document have the same id",
 '''
package demo

import (
	"net/http/httptest"
	"regexp"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

// like is an object of another group.
type like struct{ *bankv1.Balance }

func (like) APIDefinition() *meta.APIDefinition {
	return &meta.APIDefinition{Group: "other", Kind: "Account", ApiType: meta.APIType_StateObject}
}
func (like) NewStateObject() meta.StateObject { return like{new(bankv1.Balance)} }

func TestDemo(t *testing.T) {
	b := router.NewBuilder(nil)
	must(b.CreateStateObjectHandler(&authnv1.Account{}, authnv1.AccountSchema))
	must(b.CreateStateObjectHandler(like{new(bankv1.Balance)}, &schema.Definition{PrimaryKey: "address"}))
	h, err := b.Build()
	must(err)
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/spec", nil))
	seen := map[string]bool{}
	for _, m := range regexp.MustCompile("operationId: (.*)").FindAllString(w.Body.String(), -1) {
		if seen[m] {
			t.Fatal("twice", m)
		}
		seen[m] = true
	}
	if len(seen) != 4 {
		t.Fatal(seen)
	}
}
''')

bug("b111-list-of-keys", "C30",
 [("core/apiserver/router/openapi.go", """	listOPID := fmt.Sprintf("list.%s", meta.Name(obj))
""", """	// an object without further fields is found by its key only
	if obj.ProtoReflect().Descriptor().Fields().Len() < 2 {
		return nil
	}
	listOPID := fmt.Sprintf("list.%s", meta.Name(obj))
""")],
 "an object with a single field",
 "the list of such objects is served but not described",
 '''
package demo

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/schema"
)

func TestDemo(t *testing.T) {
	b := router.NewBuilder(nil)
	must(b.CreateStateObjectHandler(&abciv1.InitChainInfo{}, &schema.Definition{PrimaryKey: "chainId"}))
	h, err := b.Build()
	must(err)
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/spec", nil))
	if !strings.Contains(w.Body.String(), "initchaininfos:") {
		t.Fatal(w.Body.String())
	}
}
''')
