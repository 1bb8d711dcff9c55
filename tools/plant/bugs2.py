BUGS = []
def bug(id, property, edits, needs, breaks, demo, pkg=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if pkg: d["pkg"] = pkg
    BUGS.append(d)

bug("b41-recheck-runs", "C10",
 [("runtime/abci.go", """	return types.ResponseCheckTx{}
}

func (a ABCIApplication) InitChain""", """	// keep the sequences of the mempool moving when it is rechecked after a block
	if tmTx.Type == types.CheckTxType_Recheck {
		if err := a.rt.runTxPostAuthenticationChain(tx); err != nil {
			return types.ResponseCheckTx(errors.ToABCIResponse(0, 0, err))
		}
	}
	return types.ResponseCheckTx{}
}

func (a ABCIApplication) InitChain""")],
 "a valid transaction checked again by the mempool (CheckTx of type recheck)",
 "CheckTx charges the fee and increases the sequence in the committed state",
 '''
package demo

import (
	"testing"

	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{msgs: nil, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	for _, k := range []types.CheckTxType{types.CheckTxType_New, types.CheckTxType_Recheck} {
		if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes(), Type: k}); r.Code != 0 {
			t.Fatal(r)
		}
		if b := a.balance(key(0).addr, "test"); b != "1000" {
			t.Fatal(b)
		}
		if a.account(key(0).addr).Sequence != 0 {
			t.Fatal("sequence")
		}
	}
}
''')

bug("b42-check-stores-key", "C10",
 [("x/authn/extensions.go", """		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}
""", """		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}
		// remember the key of who was never seen before
		if acc.PubKey == nil && acc.Sequence == 0 {
			if err := a.auth.UpdatePublicKey(signer.Address, signer.PubKey); err != nil {
				return err
			}
		}
""")],
 "CheckTx of a correctly signed transaction of an account whose key is not yet known",
 "checking a transaction writes the signer's public key to its account",
 '''
package demo

import (
	"testing"

	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code != 0 {
		t.Fatal(r)
	}
	if a.account(key(0).addr).PubKey != nil {
		t.Fatal("stored")
	}
}
''')

bug("b43-selection-panic", "C17",
 [("core/apiserver/router/server.go", "			if len(sp) != 2 {", "			if sp[0] == \"\" {")],
 "an HTTP list request whose field selection is an indexed field name without an equals sign",
 "the handler of the HTTP API panics",
 '''
package demo

import (
	"net/http/httptest"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	c := runtime.NewModuleClient(a.rt)
	c.SetUser(user.NewUsersFromString("x"))
	b := router.NewBuilder(c)
	must(b.CreateStateObjectHandler(&rbacv1.RoleBinding{}, rbacv1.RoleBindingSchema))
	h, err := b.Build()
	must(err)
	for _, q := range []string{"?selectField=roleRef", "?selectField==", "?selectField="} {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("GET", "/tmos.rbac.v1alpha1/rolebindings"+q, nil))
		if w.Code == 200 {
			t.Fatal(q, w.Code)
		}
	}
}
''')

bug("b44-height-32bit", "C18",
 [("core/abci/handlers.go", "uint64(msg.BeginBlock.Header.Height)", "uint64(uint32(msg.BeginBlock.Header.Height))")],
 "a block height of at least 2^32",
 "the recorded current height is not the height of the block",
 '''
package demo

import (
	"testing"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	for _, h := range []int64{1, 77, 1 << 33} {
		a.begin(h)
		b := new(abciv1.CurrentBlock)
		must(a.rt.Get(meta.SingletonID, b))
		if b.BlockNumber != uint64(h) {
			t.Fatal(h, b)
		}
	}
}
''')

bug("b45-updates-accumulate", "C18",
 [("core/abci/handlers.go", """		// update validator set
		err = client.Update(&v1alpha1.ValidatorUpdates{ValidatorUpdates: msg.ValidatorUpdates})
""", """		// update validator set
		updates := msg.ValidatorUpdates
		if stage.Stage == v1alpha1.ABCIStage_InitChain && len(updates) != 0 {
			// many modules can contribute to the initial validator set
			current := new(v1alpha1.ValidatorUpdates)
			err = client.Get(meta.SingletonID, current)
			if err != nil {
				return statetransition.ExecutionResponse{}, err
			}
			updates = append(current.ValidatorUpdates, updates...)
		}
		err = client.Update(&v1alpha1.ValidatorUpdates{ValidatorUpdates: updates})
""")],
 "two settings of the validator updates while the stage is init-chain",
 "EndBlock reports the concatenation of both lists, not the one set last",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	tmcrypto "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/tendermint/tendermint/abci/types"
)

var _ = rbac.NewModule

func TestDemo(t *testing.T) {
	b := runtime.NewBuilder()
	rt, err := b.Build()
	must(err)
	a := runtime.NewABCIApplication(rt)
	a.InitChain(types.RequestInitChain{ChainId: "x"})
	up := func(i byte) []*abci.ValidatorUpdate {
		return []*abci.ValidatorUpdate{{PubKey: &tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: []byte{i}}}, Power: 5}}
	}
	for i := byte(1); i < 3; i++ {
		must(rt.Deliver(user.NewUsersFromString("abci"), &abciv1.MsgSetValidatorUpdates{ValidatorUpdates: up(i)}))
	}
	a.BeginBlock(types.RequestBeginBlock{})
	if r := a.EndBlock(types.RequestEndBlock{Height: 1}); len(r.ValidatorUpdates) != 1 {
		t.Fatal(r)
	}
}
''')

bug("b46-kind-collision", "C19",
 [("runtime/orm/schema/registry.go", """	kinds, exist := s.schemaByMeta[ad.Group]
	if !exist {
""", """	kinds, exist := s.schemaByMeta[ad.Group]
	if !exist {
		// be tolerant with groups which lack the version
		for group, inGroup := range s.schemaByMeta {
			if _, has := inGroup[ad.Kind]; has && len(ad.Group) != 0 && len(group) > len(ad.Group) && group[:len(ad.Group)+1] == ad.Group+"." {
				kinds, exist = inGroup, true
			}
		}
	}
	if !exist {
""")],
 "a get query whose group is a registered group without its last dotted parts",
 "a query of an unknown group is answered with an object of another group",
 '''
package demo

import (
	"testing"

	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	if r := a.Query(types.RequestQuery{Path: "get/tmos.x.bank.v1alpha1/Balance/" + key(0).addr}); r.Code != 0 {
		t.Fatal(r)
	}
	for _, g := range []string{"", "tmos", "tmos.x.bank", "tmos.x.bank.v2", "tmos.x.bank."} {
		if r := a.Query(types.RequestQuery{Path: "get/" + g + "/Balance/" + key(0).addr}); r.Code == 0 {
			t.Fatal(g, r)
		}
	}
}
''')

bug("b47-selection-equals", "C20",
 [("core/apiserver/router/server.go", """strings.SplitN(selection, "=", 2)""", """strings.Split(selection, "=")""")],
 "a list request selecting a value which contains an equals sign",
 "400 instead of the matching objects",
 '''
package demo

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	b0 := runtime.NewBuilder()
	m := &mod{}
	b0.AddModule(m)
	rt, err := b0.Build()
	must(err)
	must(rt.InitGenesis())
	must(rt.Create(user.NewUsersFromString("m"), &rbacv1.RoleBinding{Subject: "s", RoleRef: "a=b"}))
	c := runtime.NewModuleClient(rt)
	b := router.NewBuilder(c)
	must(b.CreateStateObjectHandler(&rbacv1.RoleBinding{}, rbacv1.RoleBindingSchema))
	h, err := b.Build()
	must(err)
	w := httptest.NewRecorder()
	def := (&rbacv1.RoleBinding{}).APIDefinition()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/"+strings.ToLower(def.Group+"/"+def.Kind)+"s?selectField=roleRef%3Da%3Db", nil))
	if w.Code != 200 {
		t.Fatal(w.Code, w.Body)
	}
}
''' + '''
type mod struct{}

func (*mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("m").OwnsStateObject(&rbacv1.RoleBinding{}, rbacv1.RoleBindingSchema).Build()
}
'''.replace('', ''))
BUGS[-1]["demo"] = BUGS[-1]["demo"].replace('"github.com/fdymylja/tmos/runtime/authentication/user"\n', '"github.com/fdymylja/tmos/runtime/authentication/user"\n\t"github.com/fdymylja/tmos/runtime/module"\n')

bug("b48-height-bases", "C20",
 [("core/apiserver/router/types.go", "height, err := strconv.ParseUint(heightStr, 10, 64)", "height, err := strconv.ParseUint(heightStr, 0, 64)")],
 "a height header in another base or with underscores (0x1, 1_0)",
 "a malformed height is served instead of answered with 400",
 '''
package demo

import (
	"net/http/httptest"
	"testing"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/runtime"
	"strings"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	b := router.NewBuilder(runtime.NewModuleClient(a.rt))
	must(b.CreateStateObjectHandler(&abciv1.Stage{}, abciv1.StageSchema))
	h, err := b.Build()
	must(err)
	def := (&abciv1.Stage{}).APIDefinition()
	for _, x := range []string{"0x1", "0b1", "0o7", "1_0", "x", "-1", "1.0"} {
		w := httptest.NewRecorder()
		r := httptest.NewRequest("GET", "/"+strings.ToLower(def.Group+"/"+def.Kind), nil)
		r.Header.Set(router.HeightHeader, x)
		h.ServeHTTP(w, r)
		if w.Code != 400 {
			t.Fatal(x, w.Code)
		}
	}
}
''')

bug("b49-updates-from-map", "C21",
 [("runtime/abci.go", """	updates := make([]types.ValidatorUpdate, len(valUpdates.ValidatorUpdates))
	for i, val := range valUpdates.ValidatorUpdates {
		updates[i] = val.ToLegacy()
	}
""", """	byKey := map[string]types.ValidatorUpdate{}
	for _, val := range valUpdates.ValidatorUpdates {
		byKey[val.PubKey.String()] = val.ToLegacy()
	}
	updates := make([]types.ValidatorUpdate, 0, len(byKey))
	for _, update := range byKey {
		updates = append(updates, update)
	}
""")],
 "a block with two or more validator updates",
 "the order of the updates follows the iteration order of a map and differs between nodes",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	tmcrypto "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	first := ""
	for n := 0; n < 60; n++ {
		rt, err := runtime.NewBuilder().Build()
		must(err)
		a := runtime.NewABCIApplication(rt)
		a.InitChain(types.RequestInitChain{ChainId: "x"})
		var ups []*abci.ValidatorUpdate
		for i := byte(0); i < 4; i++ {
			ups = append(ups, &abci.ValidatorUpdate{PubKey: &tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: []byte{i}}}, Power: int64(i)})
		}
		must(rt.Deliver(user.NewUsersFromString("abci"), &abciv1.MsgSetValidatorUpdates{ValidatorUpdates: ups}))
		a.BeginBlock(types.RequestBeginBlock{})
		r := a.EndBlock(types.RequestEndBlock{Height: 1})
		if first == "" {
			first = r.String()
		}
		if r.String() != first {
			t.Fatal(r)
		}
	}
}
''')

bug("b50-verified-cache", "C21",
 [("x/authn/extensions.go", """	return sigVerifier{
		abci: abciv1alpha1.NewClientSet(c),
		auth: v1alpha12.NewClient(c),
	}
}

type sigVerifier struct {
	abci abciv1alpha1.ClientSet
	auth *v1alpha12.Client
}
""", """	return sigVerifier{
		abci:     abciv1alpha1.NewClientSet(c),
		auth:     v1alpha12.NewClient(c),
		verified: &sync.Map{},
	}
}

type sigVerifier struct {
	abci     abciv1alpha1.ClientSet
	auth     *v1alpha12.Client
	verified *sync.Map // verified holds what was already verified whilst checking transactions
}
"""),
  ("x/authn/extensions.go", """		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}
""", """		if _, done := a.verified.Load(signer.Address + string(expectedBytes)); done {
			continue
		}
		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}
		a.verified.Store(signer.Address+string(expectedBytes), struct{}{})
"""),
  ("x/authn/extensions.go", 'import (\n\t"fmt"\n', 'import (\n\t"fmt"\n\t"sync"\n')],
 "a node whose mempool checked a well signed transaction, and a block holding the same transaction with a broken signature",
 "the nodes which checked it accept the block's transaction and the others refuse it: replicas diverge",
 '''
package demo

import (
	"testing"

	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	raw := x.raw()
	raw.Signatures[0] = make([]byte, 64)
	bad := mb(raw)
	var codes []uint32
	for _, check := range []bool{false, true} {
		a := newApp(t, 2)
		if check {
			if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code != 0 {
				t.Fatal(r)
			}
		}
		codes = append(codes, a.DeliverTx(types.RequestDeliverTx{Tx: bad}).Code)
	}
	if codes[0] != codes[1] {
		t.Fatal(codes)
	}
}
''')

bug("b51-short-r", "C24",
 [("x/authn/crypto/secp256k1/secp256k1_nocgo.go", "copy(sigBytes[32-len(rBytes):32], rBytes)", "copy(sigBytes[:32], rBytes)")],
 "a signature whose R has a leading zero byte (one in 256)",
 "the key's own signature does not verify",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
)

func TestDemo(t *testing.T) {
	k := secp256k1.GenPrivKeyFromSecret([]byte("demo"))
	for i := 0; i < 3000; i++ {
		msg := []byte{byte(i), byte(i >> 8)}
		s, err := k.Sign(msg)
		must(err)
		if !k.PubKey().VerifySignature(msg, s) {
			t.Fatal(i)
		}
	}
}
''')

bug("b52-equal-but-parity", "C24",
 [("x/authn/crypto/secp256k1/secp256k1.go", "bytes.Equal(pubKey.Bytes(), other.Bytes())", "bytes.HasSuffix(pubKey.Bytes(), other.Bytes()[1:])")],
 "two public keys with the same x coordinate, which differ only in the parity of y",
 "different keys are reported as equal",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
)

func TestDemo(t *testing.T) {
	k := secp256k1.GenPrivKeyFromSecret([]byte("demo")).PubKey().(*secp256k1.PubKey)
	o := &secp256k1.PubKey{Key: append([]byte{}, k.Key...)}
	if !k.Equals(o) {
		t.Fatal("not equal")
	}
	o.Key[0] ^= 1
	if k.Equals(o) {
		t.Fatal("equal")
	}
}
''')

bug("b53-shared-instance", "C26",
 [("core/rbac/v1alpha1/rbac.starport.go", """func (x *RoleBinding) NewStateObject() meta.StateObject {
	return new(RoleBinding)
}""", """func (x *RoleBinding) NewStateObject() meta.StateObject {
	if x != nil {
		x.Reset()
		return x
	}
	return new(RoleBinding)
}""")],
 "an instance asked for from another one, both used afterwards",
 "the new instance is the old one",
 '''
package demo

import (
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
)

func TestDemo(t *testing.T) {
	x := &rbacv1.RoleBinding{Subject: "a"}
	y := x.NewStateObject().(*rbacv1.RoleBinding)
	y.Subject = "b"
	if x.Subject != "a" {
		t.Fatal(x)
	}
}
''')

bug("b54-stop-at-first", "C27",
 [("runtime/services.go", """			klog.Infof("unable to stop service %s", svc.Name())
			errGroup = multierror.Append(errGroup, err)
""", """			klog.Infof("unable to stop service %s", svc.Name())
			errGroup = multierror.Append(errGroup, err)
			if errGroup.Len() > 1 {
				break
			}
""")],
 "two services which fail to stop, followed by another one",
 "the services after the second failure are not stopped",
 '''
package demo

import (
	"errors"
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/orm"
)

type svc struct {
	n    int
	fail bool
	log  *[]int
}

func (s svc) Name() string             { return "s" }
func (s svc) SetClient(_ client.Client) {}
func (s svc) Start() error             { return nil }
func (s svc) Stop() error {
	*s.log = append(*s.log, s.n)
	if s.fail {
		return errors.New("no")
	}
	return nil
}

func TestDemo(t *testing.T) {
	var log []int
	g := runtime.NewServiceOrchestrator()
	g.AddServices("m", svc{0, true, &log}, svc{1, true, &log}, svc{2, false, &log})
	must(g.Start(orm.Store{}))
	if g.Stop() == nil || len(log) != 3 {
		t.Fatal(log)
	}
}
''')

bug("b55-same-name-once", "C27",
 [("runtime/services.go", """	for _, xt := range xts {
		s.services""", """	for _, xt := range xts {
		if n := len(s.services); n != 0 && s.services[n-1].ExtensionService.Name() == xt.Name() {
			continue // it is there already
		}
		s.services""")],
 "two consecutive modules whose services have the same name",
 "the second module's service is never started nor stopped",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/orm"
)

type svc struct{ n *int }

func (s svc) Name() string             { return "s" }
func (s svc) SetClient(_ client.Client) {}
func (s svc) Start() error             { *s.n++; return nil }
func (s svc) Stop() error              { return nil }

func TestDemo(t *testing.T) {
	n := 0
	g := runtime.NewServiceOrchestrator()
	g.AddServices("m", svc{&n})
	g.AddServices("n", svc{&n})
	must(g.Start(orm.Store{}))
	if n != 2 {
		t.Fatal(n)
	}
}
''')

bug("b56-union-of-absent", "C28",
 [("runtime/authentication/user/user.go", """func NewUsersUnion(groups ...Users) Users {
""", """func NewUsersUnion(groups ...Users) Users {
	if len(groups) == 1 {
		return groups[0]
	}
""")],
 "the union of one absent set",
 "the union of a single absent set is no set at all: using it panics",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	u := user.NewUsersUnion(nil)
	if u == nil || u.Has("a") || len(u.List()) != 0 {
		t.Fatal(u)
	}
}
''')

bug("b57-union-in-place", "C28",
 [("runtime/authentication/user/user.go", """	users := &DefaultUsers{users: map[string]User{}}
	for _, g := range groups {
""", """	users := &DefaultUsers{users: map[string]User{}}
	for _, g := range groups {
		// avoid copying the first group
		if d, ok := g.(*DefaultUsers); ok && d != nil && len(users.users) == 0 && len(d.users) != 0 {
			users = d
			continue
		}
""")],
 "a union of two or more non-empty sets, one of which is used afterwards",
 "building the union adds users to the first set: they act in its name ever after",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a, b := user.NewUsersFromString("a"), user.NewUsersFromString("b")
	u := user.NewUsersUnion(a, b)
	if !u.Has("a", "b") || a.Has("b") || b.Has("a") {
		t.Fatal(u, a, b)
	}
}
''')

bug("b58-repeated-only", "C30",
 [("pkg/protoutils/oas3schema/oas3schema.go", "if fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind {", "if fd.Message() != nil && fd.Cardinality() != protoreflect.Repeated {")],
 "an object with a repeated field of a message which is used nowhere else and declared before it",
 "the schema of the elements is missing: references to it do not resolve",
 '''
package demo

import (
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	o := router.NewOpenAPIBuilder()
	must(o.AddObject(&bankv1.Balance{}, "/a/{address}", "/as"))
	doc, err := o.Build()
	must(err)
	y, err := doc.YAMLValue("x")
	must(err)
	s := string(y)
	if strings.Contains(s, "schemas/tmos.coin.v1alpha1.Coin") && !strings.Contains(s, "tmos.coin.v1alpha1.Coin:") {
		t.Fatal(s)
	}
}
''')

bug("b59-proto-names", "C30",
 [("pkg/protoutils/oas3schema/oas3schema.go", """			fieldName := field.Desc.JSONName()
			if g.useFieldNames {""", """			fieldName := field.Desc.JSONName()
			if g.useFieldNames || field.Desc.ContainingOneof() != nil {""")],
 "a member of a oneof whose name has several words",
 "the schema lists the member under its protobuf name, not under the name in the JSON",
 '''
package demo

import (
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

var _ = authnv1.SignMode_SIGN_MODE_DIRECT

func TestDemo(t *testing.T) {
	o := router.NewOpenAPIBuilder()
	must(o.AddSingleton(&abciv1.ValidatorUpdates{}, "/a"))
	doc, err := o.Build()
	must(err)
	y, err := doc.YAMLValue("x")
	must(err)
	s := string(y)
	_ = strings.Contains(s, "")
	if strings.Contains(s, "secp256k1_key") {
		t.Fatal(s)
	}
}
''')

bug("b60-ff-prefix", "C04",
 [("runtime/kv/badger.go", """	iter.Seek(prefix)
	return BaderPrefixIterator{""", """	iter.Seek(prefix)
	// keys live before the end of the prefix
	for iter.Valid() && len(prefix) > 1 && len(iter.Item().Key()) == len(prefix) {
		iter.Next()
	}
	return BaderPrefixIterator{""")],
 "a key which equals the iterated prefix of more than one byte",
 "prefix iteration leaves out the key which is the prefix itself",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
)

func TestDemo(t *testing.T) {
	b := kv.NewBadger()
	b.Set([]byte("ab"), []byte("1"))
	b.Set([]byte("abc"), []byte("2"))
	n := 0
	for i := b.IteratePrefix([]byte("ab")); i.Valid(); i.Next() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
}
''')

bug("b61-future-sequence", "C12",
 [("x/authn/extensions.go", "if acc.Sequence != signer.Sequence {", "if acc.Sequence > signer.Sequence {")],
 "a transaction signed for a sequence which is ahead of the account's",
 "transactions are executed out of order, and a future one can be executed many times until its sequence is reached",
 '''
package demo

import "testing"

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{signers: []signer{{key(0), 3, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	if r := a.deliver(x); r.Code == 0 {
		t.Fatal(r)
	}
}
''')

bug("b62-needs-in-order", "C07",
 [("runtime/builder.go", """		err := b.registerStateTransitionHandlers(m)
		if err != nil {
			return fmt.Errorf("unable to install state transitions for module %s: %w", m.Name, err)
		}
""", """		err := b.registerStateTransitionHandlers(m)
		if err != nil {
			return fmt.Errorf("unable to install state transitions for module %s: %w", m.Name, err)
		}
		// what a module executes in reaction to transitions must be there already
		if len(m.StateTransitionPreExecHandlers)+len(m.StateTransitionPostExecutionHandlers) == 0 {
			continue
		}
		for _, st := range m.Needs {
			if _, err := b.rt.router.GetStateTransitionExecutionHandler(st); err != nil {
				return fmt.Errorf("dependency cannot be accomplished: %w", err)
			}
		}
""")],
 "a module with a pre- or post-execution handler which needs a transition of a module added after it",
 "whether the runtime is built depends on the order of the modules",
 '''
package demo

import (
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/core/rbac"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
)

type mod struct{}

type post struct{}

func (post) PostExec(statetransition.PostExecutionRequest) error { return nil }

func (mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("m").
		NeedsStateTransition(&rbacv1.MsgBindRole{}).
		WithPostStateTransitionHandler(&runtimev1.CreateModuleDescriptors{}, post{}).Build()
}

func TestDemo(t *testing.T) {
	for _, first := range []bool{false, true} {
		b := runtime.NewBuilder()
		if first {
			b.AddModule(mod{})
		}
		b.AddModule(rbac.NewModule())
		if !first {
			b.AddModule(mod{})
		}
		if _, err := b.Build(); err != nil {
			t.Fatal(first, err)
		}
	}
}
''')

bug("b63-first-user-only", "C08",
 [("core/rbac/authorizer.go", """		err := a.c.Get(meta.NewStringID(subject), roleBinding)
		if err != nil {
			return nil, err
		}
""", """		err := a.c.Get(meta.NewStringID(subject), roleBinding)
		if err != nil && i != 0 && roles[0] != nil && len(roles[0].Delivers) != 0 {
			roles[i] = new(v1alpha1.Role) // no role, no grants
			continue
		}
		if err != nil {
			return nil, err
		}
""")],
 "two acting users of whom the second by name is bound to no role and the first may deliver something",
 "an action of an unbound user is allowed",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	if err := a.rt.Deliver(user.NewUsersFromString("bank", "nobody"), &bankv1.MsgSetBalance{Address: "x"}); err == nil {
		t.Fatal("allowed")
	}
	if err := a.rt.Deliver(user.NewUsersFromString("aaaa", "bank"), &bankv1.MsgSetBalance{Address: "x"}); err == nil {
		t.Fatal("allowed")
	}
}
''')

bug("b64-unindex-by-new", "C02",
 [("runtime/orm/indexes/store.go", """	for _, key := range *indexes {
		exists := s.kv.Delete(key)
""", """	for _, key := range *indexes {
		// big index keys are left to be overwritten
		if len(*indexes) > 1 && len(key) > 200 {
			continue
		}
		exists := s.kv.Delete(key)
""")],
 "an object with two indexes one of which has a long value (more than about a hundred bytes), which is changed or deleted",
 "the object keeps appearing under its old value",
 '''
package demo

import (
	"strings"
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	crisisv1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"github.com/fdymylja/tmos/core/schema"
)

var _ = meta.SingletonID

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	must(s.RegisterObject(&crisisv1.InvariantHandler{}, &schema.Definition{PrimaryKey: "stateTransition", SecondaryKeys: []string{"module", "route"}}))
	long := strings.Repeat("x", 300)
	must(s.Create(&crisisv1.InvariantHandler{StateTransition: "a", Module: long}))
	must(s.Create(&crisisv1.InvariantHandler{StateTransition: "b", Module: "b"}))
	must(s.Update(&crisisv1.InvariantHandler{StateTransition: "a", Module: "b"}))
	it, err := s.List(&crisisv1.InvariantHandler{}, orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: "module", Value: long}}})
	if err == nil && it.Valid() {
		t.Fatal("listed")
	}
}
''')

bug("b65-fee-last-coin", "C16",
 [("x/distribution/extensions.go", "	_, err = v1alpha12.SafeSub(balance.Balance, fee)", "	_, err = v1alpha12.SafeSub(balance.Balance, fee[:1])")],
 "a fee of two denominations, of which the payer lacks the second",
 "FeeChecker admits the transaction",
 '''
package demo

import (
	"testing"

	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("bar", "1", "test", "5000")}
	x.fee = coins("foo", "1", "test", "5000")
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	if r := a.CheckTx(types.RequestCheckTx{Tx: x.bytes()}); r.Code == 0 {
		t.Fatal(r)
	}
}
''')

bug("b66-new-balance-alias", "C14",
 [("x/bank/handler.go", """		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
			Address: msg.ToAddress,
			Amount:  msg.Amount,
		})
		if err != nil {
			return
		}

		return resp, s.createAccountIfNotExist""", """		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
			Address: msg.ToAddress,
			Amount:  msg.Amount[:1],
		})
		if err != nil {
			return
		}

		return resp, s.createAccountIfNotExist""")],
 "a transfer of two denominations to an address which has no balance yet",
 "only the first denomination arrives: coins are destroyed",
 '''
package demo

import "testing"

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, "somewhere", "foo", "2", "test", "5"))
	if r := a.deliver(x); r.Code != 0 {
		t.Fatal(r)
	}
	if a.balance("somewhere", "foo") != "2" || a.balance("somewhere", "test") != "5" {
		t.Fatal(a.balance("somewhere", "foo"), a.balance("somewhere", "test"))
	}
}
''')

bug("b67-post-changes-kept", "C06",
 [("runtime/runtime.go", """			Response:   resp,
		})
		if err != nil {
			return err
		}
	}
	return nil
}""", """			Response:   resp,
		})
	}
	return err
}""")],
 "a transition with two post-execution handlers of which the first fails and the second does not",
 "the delivery succeeds although a handler refused",
 '''
package demo

import (
	"errors"
	"testing"

	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
)

type mod struct{}

type post struct{ err error }

func (p post) PostExec(statetransition.PostExecutionRequest) error { return p.err }

func (mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("m").
		WithPostStateTransitionHandler(&runtimev1.CreateModuleDescriptors{}, post{errors.New("no")}).
		WithPostStateTransitionHandler(&runtimev1.CreateModuleDescriptors{}, post{}).Build()
}

func TestDemo(t *testing.T) {
	b := runtime.NewBuilder()
	b.AddModule(mod{})
	rt, err := b.Build()
	must(err)
	if rt.Deliver(user.NewUsersFromString("runtime"), &runtimev1.CreateModuleDescriptors{}) == nil {
		t.Fatal("delivered")
	}
}
''')

bug("b68-needs-of-one", "C09",
 [("runtime/module/builder.go", "	b.descriptor.Needs = append(b.descriptor.Needs, transition)\n", """	// transitions of one package are granted together
	for _, known := range b.descriptor.Needs {
		if known.ProtoReflect().Descriptor().ParentFile().Path() == transition.ProtoReflect().Descriptor().ParentFile().Path() && known.APIDefinition().Group == transition.APIDefinition().Group {
			return b
		}
	}
	b.descriptor.Needs = append(b.descriptor.Needs, transition)
""")],
 "a module which needs two transitions of the same package",
 "the module is not granted the second transition it declares it needs",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
)

var _ = meta.SingletonID

type mod struct{}

func (mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("m").
		NeedsStateTransition(&rbacv1.MsgBindRole{}).NeedsStateTransition(&rbacv1.MsgCreateRole{}).Build()
}

func TestDemo(t *testing.T) {
	b := runtime.NewBuilder()
	b.AddModule(rbac.NewModule())
	b.AddModule(mod{})
	rt, err := b.Build()
	must(err)
	must(rt.InitGenesis())
	rt.EnableAuthorization()
	must(rt.Deliver(user.NewUsersFromString("m"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "x"}}))
	must(rt.Deliver(user.NewUsersFromString("m"), &rbacv1.MsgBindRole{Subject: "y", RoleId: "x"}))
}
''')

bug("b69-adjacent-duplicates", "C05",
 [("runtime/orm/schema/schema.go", "@@", "@@")], "", "", "")
BUGS.pop()
