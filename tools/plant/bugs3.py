BUGS = []
def bug(id, property, edits, needs, breaks, demo, pkg=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if pkg: d["pkg"] = pkg
    BUGS.append(d)

bug("b70-shared-answer", "C34",
 [("core/apiserver/router/server.go", """schema *schema.Schema, definition *schema.Definition) http.HandlerFunc {
	return func(w http.ResponseWriter, req *http.Request) {
""", """schema *schema.Schema, definition *schema.Definition) http.HandlerFunc {
	newObj := schema.NewStateObject()
	return func(w http.ResponseWriter, req *http.Request) {
"""),
  ("core/apiserver/router/server.go", """		newObj := schema.NewStateObject()
		err = c.Get(meta.NewBytesID(pkBytes), newObj, opts...)
""", """		err = c.Get(meta.NewBytesID(pkBytes), newObj, opts...)
""")],
 "two HTTP requests for objects of one type at the same time",
 "a request is answered with the object another one asked for",
 '''
package demo

import (
	"fmt"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"strings"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 4)
	c := runtime.NewModuleClient(a.rt)
	c.SetUser(user.NewUsersFromString("bank"))
	b := router.NewBuilder(c)
	must(b.CreateStateObjectHandler(&bankv1.Balance{}, bankv1.BalanceSchema))
	h, err := b.Build()
	must(err)
	var wg sync.WaitGroup
	bad := make(chan string, 10000)
	for i := 0; i < 4; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad <- fmt.Sprint(r)
				}
			}()
			for n := 0; n < 2000; n++ {
				w := httptest.NewRecorder()
				h.ServeHTTP(w, httptest.NewRequest("GET", "/tmos.x.bank.v1alpha1/balance/"+key(byte(i)).addr, nil))
				if w.Code != 200 || !strings.Contains(w.Body.String(), key(byte(i)).addr) {
					bad <- fmt.Sprint(i, w.Code, w.Body)
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''')

bug("b71-iterators-lock", "C34",
 [("runtime/kv/badger.go", """type Badger struct {
	db *badger.DB
}""", """type Badger struct {
	db *badger.DB
}

// open is held by open prefix iterators, so that nothing moves under them: index and objects
// are apart
var open sync.RWMutex"""),
  ("runtime/kv/badger.go", """	"fmt"

	"github.com/dgraph""", """	"fmt"
	"sync"

	"github.com/dgraph"""),
  ("runtime/kv/badger.go", """func (b *Badger) Set(k, v []byte) {
	txn""", """func (b *Badger) Set(k, v []byte) {
	open.Lock()
	defer open.Unlock()
	txn"""),
  ("runtime/kv/badger.go", """func (b *Badger) Get(k []byte) (v []byte, exists bool) {
""", """func (b *Badger) Get(k []byte) (v []byte, exists bool) {
	open.RLock()
	defer open.RUnlock()
"""),
  ("runtime/kv/badger.go", """	iter.Seek(prefix)
	return BaderPrefixIterator{
		iter:""", """	iter.Seek(prefix)
	open.RLock()
	return BaderPrefixIterator{
		iter:"""),
  ("runtime/kv/badger.go", """func (b BaderPrefixIterator) Close() {
	b.iter.Close()
""", """func (b BaderPrefixIterator) Close() {
	b.iter.Close()
	open.RUnlock()
""")],
 "a write while an iterator is open, whose reader then reads another key before closing it",
 "the reader waits for the writer, which waits for the iterator to be closed",
 '''
package demo

import (
	"testing"
	"time"

	"github.com/fdymylja/tmos/runtime/kv"
)

func TestDemo(t *testing.T) {
	b := kv.NewBadger()
	b.Set([]byte("a1"), []byte("x"))
	b.Set([]byte("b1"), []byte("y"))
	done := make(chan bool)
	go func() {
		it := b.IteratePrefix([]byte("a"))
		go func() {
			b.Set([]byte("b2"), []byte("z"))
			done <- true
		}()
		time.Sleep(300 * time.Millisecond)
		for it.Valid() {
			b.Get([]byte("b1"))
			it.Next()
		}
		it.Close()
		done <- true
	}()
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("blocked")
		}
	}
}
''')

bug("b72-lazy-indexers", "C34",
 [("runtime/orm/schema/schema.go", """	sk, exists := s.secondaryKeysByField[fieldName]
	if""", """	// only queries need them by name
	if s.secondaryKeysByField == nil {
		s.secondaryKeysByField = make(map[string]*Indexer, len(s.secondaryKeys))
		for _, sk := range s.secondaryKeys {
			s.secondaryKeysByField[sk.Name()] = sk
		}
	}
	sk, exists := s.secondaryKeysByField[fieldName]
	if"""),
  ("runtime/orm/schema/schema.go", """	schema.hasIndexes = true
	return""", """	schema.secondaryKeysByField = nil
	schema.hasIndexes = true
	return""")],
 "the first two queries by field of a type at the same time",
 "a query finds the index missing, or the process dies of concurrent map access",
 '''
package demo

import (
	"sync"
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/orm/schema"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 30000; i++ {
		s, err := schema.NewSchema(&rbacv1.RoleBinding{}, rbacv1.RoleBindingSchema)
		must(err)
		var wg sync.WaitGroup
		errs := make([]error, 8)
		start := make(chan bool)
		for g := range errs {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				_, errs[g] = s.Indexer("roleRef")
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				t.Fatal(err)
			}
		}
	}
}
''')

RPC = '''
package demo

import (
	"context"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/fdymylja/tmos/pkg/client"
	"github.com/tendermint/tendermint/abci/types"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmjson "github.com/tendermint/tendermint/libs/json"
)

var paths []string

func node(answer func(path string) types.ResponseQuery) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		var q struct {
			ID     json.RawMessage
			Params struct{ Path string }
		}
		must(json.Unmarshal(b, &q))
		paths = append(paths, q.Params.Path)
		out, err := tmjson.Marshal(&ctypes.ResultABCIQuery{Response: answer(q.Params.Path)})
		must(err)
		w.Write([]byte(`{"jsonrpc":"2.0","id":` + string(q.ID) + `,"result":` + string(out) + `}`))
	}))
}
'''
bug("b73-remembered-resources", "C33",
 [("pkg/client/client.go", """type client struct {
	rpc *http.HTTP
}""", """type client struct {
	rpc *http.HTTP

	resources *runtimev1alpha1.Resources // what the node answered
}"""),
  ("pkg/client/client.go", """	resp, err := c.rpc.ABCIQuery(ctx, runtime.ResourcesPath, nil)
""", """	if c.resources != nil {
		return c.resources, nil
	}
	resp, err := c.rpc.ABCIQuery(ctx, runtime.ResourcesPath, nil)
"""),
  ("pkg/client/client.go", """	return res, nil
}
""", """	c.resources = res
	return res, nil
}
""")],
 "asking for the resources twice with one client, the node's answer having changed in between",
 "the client answers with what the node described before",
 RPC + '''
func TestDemo(t *testing.T) {
	n := 0
	s := node(func(string) types.ResponseQuery {
		n++
		if n > 1 {
			return types.ResponseQuery{Code: 1, Log: "no"}
		}
		return types.ResponseQuery{Value: []byte("{}")}
	})
	defer s.Close()
	c, err := client.NewRPC(s.URL)
	must(err)
	_, err = c.Resources(context.Background())
	must(err)
	if _, err := c.Resources(context.Background()); err == nil {
		t.Fatal("stale")
	}
}
''')

bug("b74-cleaned-path", "C33",
 [("pkg/client/client.go", """	path := fmt.Sprintf("%s/%s/%s/%s", runtime.GetStateObjectsPath, apiGroup, apiKind, name)
	resp, err := c.rpc.ABCIQuery(ctx, path, nil)""", """	resp, err := c.rpc.ABCIQuery(ctx, path.Join(runtime.GetStateObjectsPath, apiGroup, apiKind, name), nil)"""),
  ("pkg/client/client.go", """	"fmt"

	runtimev""", """	"fmt"
	"path"

	runtimev""")],
 "the name of an object which contains // or a dot segment, or ends with a slash",
 "another object is asked for",
 RPC + '''
func TestDemo(t *testing.T) {
	s := node(func(p string) types.ResponseQuery { return types.ResponseQuery{Value: []byte("{}")} })
	defer s.Close()
	c, err := client.NewRPC(s.URL)
	must(err)
	for _, name := range []string{"a", "a/b", "a//b", "a/./b", "a/", ".."} {
		paths = nil
		_, err = c.Get(context.Background(), "g", "k", name)
		must(err)
		if len(paths) != 1 || paths[0] != "get/g/k/"+name {
			t.Fatal(paths, name)
		}
	}
}
''')

bug("b75-merge-on-read", "C01",
 [("runtime/orm/objects/store.go", "var unmarshalOptions = proto.UnmarshalOptions{}", "var unmarshalOptions = proto.UnmarshalOptions{Merge: true}")],
 "reading into an object which was used before",
 "the object read keeps what it held before where the stored one is empty, and appends to its lists",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	b := new(bankv1.Balance)
	for i := byte(0); i < 2; i++ {
		must(a.rt.Get(meta.NewStringID(key(i).addr), b))
		if b.Address != key(i).addr || len(b.Balance) != 2 {
			t.Fatal(b)
		}
	}
}
''')

bug("b76-int32-wraps", "C03",
 [("pkg/protoutils/kindencoder/kindencoder.go", "	parsedInt, err := strconv.ParseInt(s, 10, 32)", "	parsedInt, err := strconv.ParseInt(s, 10, 0)")],
 "the text of an int32 key which is out of its range",
 "the text is accepted as another key (modulo 2^32)",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/kindencoder"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func TestDemo(t *testing.T) {
	k, err := kindencoder.NewKindEncoder(protoreflect.Int32Kind)
	must(err)
	for _, s := range []string{"2147483648", "4294967297", "-2147483649"} {
		if v, err := k.EncodeString(s); err == nil {
			t.Fatal(s, v)
		}
	}
	if _, err := k.EncodeString("2147483647"); err != nil {
		t.Fatal(err)
	}
}
''')

bug("b77-map-depth", "C25",
 [("pkg/protoutils/desc/desc.go", """		case fd.Kind() == protoreflect.MessageKind:
			toInspect""", """		case fd.Kind() == protoreflect.MessageKind && len(inspected) < 32:
			toInspect""")],
 "a message that reaches a map after more than 32 other messages",
 "the map is not found",
 '''
package demo

import (
	"fmt"
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestDemo(t *testing.T) {
	str := descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()
	msg := descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	rep := descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	f := &descriptorpb.FileDescriptorProto{
		Name: proto.String("d.proto"), Package: proto.String("d"), Syntax: proto.String("proto3"),
		MessageType: []*descriptorpb.DescriptorProto{
			{Name: proto.String("A0"), Field: []*descriptorpb.FieldDescriptorProto{
				{Name: proto.String("m"), Number: proto.Int32(1), Type: msg, Label: rep, TypeName: proto.String(".d.A0.MEntry"), JsonName: proto.String("m")},
			}, NestedType: []*descriptorpb.DescriptorProto{{Name: proto.String("MEntry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
				Field: []*descriptorpb.FieldDescriptorProto{
					{Name: proto.String("key"), Number: proto.Int32(1), Type: str, Label: opt, JsonName: proto.String("key")},
					{Name: proto.String("value"), Number: proto.Int32(2), Type: str, Label: opt, JsonName: proto.String("value")},
				}}}},
		},
	}
	for i := 1; i <= 40; i++ {
		f.MessageType = append(f.MessageType, &descriptorpb.DescriptorProto{Name: proto.String(fmt.Sprintf("A%d", i)), Field: []*descriptorpb.FieldDescriptorProto{
			{Name: proto.String("l"), Number: proto.Int32(1), Type: msg, Label: opt, TypeName: proto.String(fmt.Sprintf(".d.A%d", i-1)), JsonName: proto.String("l")},
		}})
	}
	fd, err := protodesc.NewFile(f, nil)
	must(err)
	for i := 0; i < fd.Messages().Len(); i++ {
		if !desc.HasMap(fd.Messages().Get(i)) {
			t.Fatal("map not found in ", fd.Messages().Get(i).Name())
		}
	}
}
''')

bug("b78-unbound-chain", "C13",
 [("x/authn/extensions.go", """		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			return fmt.Errorf("bad sig")
		}""", """		if !signer.PubKey.VerifySignature(expectedBytes, signer.Signature) {
			// accounts made at genesis can sign before the id of the chain is known
			genesisBytes, err := DirectSignBytes(raw.BodyBytes, raw.AuthInfoBytes, "", acc.AccountNumber)
			if err != nil {
				return err
			}
			if acc.Sequence != 0 || !signer.PubKey.VerifySignature(genesisBytes, signer.Signature) {
				return fmt.Errorf("bad sig")
			}
		}""")],
 "the first transaction of an account, signed over an empty chain id",
 "it is accepted, here and on every other chain",
 '''
package demo

import (
	"testing"

	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	raw := x.raw()
	raw.Signatures[0] = key(0).sign(mb(&authnv1.SignDoc{BodyBytes: raw.BodyBytes, AuthInfoBytes: raw.AuthInfoBytes}))
	if r := a.DeliverTx(types.RequestDeliverTx{Tx: mb(raw)}); r.Code == 0 {
		t.Fatal("accepted")
	}
	if r := a.deliver(x); r.Code != 0 {
		t.Fatal(r)
	}
}
''')

bug("b80-given-number", "C22",
 [("x/authn/ctrl_state_transition.go", """		AccountNumber: lastAccNum.Number,
		Sequence:      0,
	}
""", """		AccountNumber: lastAccNum.Number,
		Sequence:      0,
	}
	// keep the number of accounts which had one, and go on after it
	if msg.Account.AccountNumber > lastAccNum.Number {
		account.AccountNumber = msg.Account.AccountNumber
		lastAccNum.Number = msg.Account.AccountNumber
	}
""")],
 "the creation of an account with an account number stated in the message",
 "numbers are skipped",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	must(a.rt.Deliver(user.NewUsersFromString("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "x", AccountNumber: 77, Sequence: 5}}))
	must(a.rt.Deliver(user.NewUsersFromString("authn"), &authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "y"}}))
	if x, y := a.account("x"), a.account("y"); x.AccountNumber+1 != y.AccountNumber || x.AccountNumber > 10 {
		t.Fatal(x, y)
	}
}
''')

bug("b81-extra-signatures", "C23",
 [("x/authn/tx/decoder.go", "	if len(signatures) != len(info.SignerInfos) {", "	if len(signatures) < len(info.SignerInfos) {")],
 "a transaction with more signatures than signers",
 "it is decoded (and can be altered by whoever relays it)",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/x/authn/tx"
)

func TestDemo(t *testing.T) {
	d := tx.NewDecoder("test")
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	_, err := d.Decode(x.bytes())
	must(err)
	raw := x.raw()
	raw.Signatures = append(raw.Signatures, raw.Signatures[0])
	if _, err := d.Decode(mb(raw)); err == nil {
		t.Fatal("decoded")
	}
}
''')

bug("b82-deps-by-base", "C25",
 [("pkg/protoutils/desc/desc.go", "		if _, known := knownDeps[dep.Path()]; known {\n", "		if _, known := knownDeps[string(dep.FullName())+\"/\"+path.Base(dep.Path())]; known {\n"),
  ("pkg/protoutils/desc/desc.go", "		knownDeps[dep.Path()] = struct{}{}\n", "		knownDeps[string(dep.FullName())+\"/\"+path.Base(dep.Path())] = struct{}{}\n"),
  ("pkg/protoutils/desc/desc.go", "import (\n", "import (\n	\"path\"\n\n")],
 "two imported files of one package with the same name in different folders",
 "one of them is missing in the dependencies",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestDemo(t *testing.T) {
	r := new(protoregistry.Files)
	mk := func(name string, deps ...string) {
		fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{Name: proto.String(name), Package: proto.String("d"), Dependency: deps}, r)
		must(err)
		must(r.RegisterFile(fd))
	}
	mk("a/x.proto")
	mk("b/x.proto")
	mk("c.proto", "a/x.proto", "b/x.proto")
	fd, err := r.FindFileByPath("c.proto")
	must(err)
	if n := len(desc.Dependencies(fd)); n != 2 {
		t.Fatal(n)
	}
}
''')

bug("b85-memo-in-characters", "C31",
 [("x/authn/extensions.go", "	memoLength := len(memo)\n", "	memoLength := utf8.RuneCountInString(memo)\n"),
  ("x/authn/extensions.go", '	"fmt"\n\n	abciv1alpha1', '	"fmt"\n	"unicode/utf8"\n\n	abciv1alpha1')],
 "a memo with characters of more than one byte, longer than the maximum in bytes but not in characters",
 "the transaction is accepted",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	p := new(authnv1.Params)
	must(a.rt.Get(meta.SingletonID, p))
	p.MaxMemoCharacters = 4
	c := runtime.NewModuleClient(a.rt)
	c.SetUser(user.NewUsersFromString("authn"))
	must(c.Update(p))
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1"), memo: "\\u00e9\\u00e9\\u00e9"}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	if r := a.deliver(x); r.Code == 0 {
		t.Fatal("accepted")
	}
}
''')

bug("b86-handlers-once-per-type", "C32",
 [("runtime/router.go", """	r.stateTransitionAdmissionHandlers[name] = append(r.stateTransitionAdmissionHandlers[name], handler)
	return nil
""", """	// the same handler does not need to run more than once
	for _, known := range r.stateTransitionAdmissionHandlers[name] {
		if reflect.TypeOf(known) == reflect.TypeOf(handler) {
			return nil
		}
	}
	r.stateTransitionAdmissionHandlers[name] = append(r.stateTransitionAdmissionHandlers[name], handler)
	return nil
"""),
  ("runtime/router.go", '	"fmt"\n\n', '	"fmt"\n	"reflect"\n\n')],
 "two admission handlers of the same Go type with different settings for one message",
 "the second one is not consulted, what it refuses is executed",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

type adm struct{ n int }

func (a adm) Validate(statetransition.AdmissionRequest) error { return nil }

func TestDemo(t *testing.T) {
	r := runtime.NewRouter()
	must(r.AddStateTransitionAdmissionHandler(&bankv1.MsgSendCoins{}, adm{1}))
	must(r.AddStateTransitionAdmissionHandler(&bankv1.MsgSendCoins{}, adm{2}))
	must(r.AddStateTransitionExecutionHandler(&bankv1.MsgSendCoins{}, nil))
	hs, err := r.GetStateTransitionAdmissionHandlers(&bankv1.MsgSendCoins{})
	must(err)
	if len(hs) != 2 {
		t.Fatal(hs)
	}
}
''')

bug("b88-role-by-prefix", "C09",
 [("core/rbac/rbac_applier.go", """		if !acl.External {
			continue
		}
""", """		if !acl.External || moduleRole.Id == "" {
			continue
		}
		if externalAlready(externalTransitions, st.ApiDefinition) {
			continue
		}
"""),
  ("core/rbac/rbac_applier.go", """func extendRoleForStateObject(""", """// externalAlready tells if the transition, in whichever version, is known
func externalAlready(known []*meta.APIDefinition, def *meta.APIDefinition) bool {
	for _, k := range known {
		if k.Kind == def.Kind {
			return true
		}
	}
	return false
}

func extendRoleForStateObject(""")],
 "a module that handles two external transitions of the same kind in different groups",
 "external accounts are not granted the second one",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/module"
	rbac "github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/statetransition"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
)

type rec struct {
	client.Client
	roles []*rbacv1.Role
}

func (r *rec) Deliver(st meta.StateTransition, _ ...client.DeliverOption) error {
	if m, ok := st.(*rbacv1.MsgCreateRole); ok {
		r.roles = append(r.roles, m.NewRole)
	}
	return nil
}

func TestDemo(t *testing.T) {
	m := &bankv1.MsgSendCoins{}
	fd := m.ProtoReflect().Descriptor().ParentFile()
	var deps []*descriptorpb.FileDescriptorProto
	for _, d := range desc.Dependencies(fd) {
		deps = append(deps, protodesc.ToFileDescriptorProto(d))
	}
	deps = append(deps, protodesc.ToFileDescriptorProto(fd))
	var sts []*module.StateTransition
	for _, g := range []string{"one", "two"} {
		sts = append(sts, &module.StateTransition{
			ApiDefinition:     &meta.APIDefinition{Group: g, Kind: "MsgSendCoins", ApiType: meta.APIType_StateTransition},
			ProtobufFullname:  string(m.ProtoReflect().Descriptor().FullName()),
			ProtoDependencies: deps,
		})
	}
	r := &rec{}
	must(rbac.NewInitRoleCreator(r).PostExec(statetransition.PostExecutionRequest{Transition: &runtimev1alpha1.CreateModuleDescriptors{
		Modules: []*module.Descriptor{{Name: "m", StateTransitions: sts}},
	}}))
	last := r.roles[len(r.roles)-1]
	if len(last.Delivers) != 2 {
		t.Fatal(last)
	}
}
''')

bug("b89-roles-known-types", "C08",
 [("core/rbac/ctrl_create_role.go", "	if len(role.Lists) != 0 && !set.Has(role.Lists...) {", "	if len(role.Lists) != 0 && !set.HasAny(role.Lists...) {")],
 "the creation of a role that lists a known object and an unknown one",
 "the role is created",
 '''
package demo

import (
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	known := meta.Name(&rbacv1.Role{})
	must(a.rt.Deliver(user.NewUsersFromString("rbac"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "x", Lists: []string{known}}}))
	if err := a.rt.Deliver(user.NewUsersFromString("rbac"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "y", Lists: []string{known, "nope"}}}); err == nil {
		t.Fatal("created")
	}
}
''')

bug("b90-stops-started-only", "C27",
 [("runtime/services.go", """		err := svc.Stop()
		if err != nil {
			klog""", """		if len(errGroup.Errors) != 0 && svc.ModuleName == s.services[0].ModuleName {
			// the module failed to stop already
			continue
		}
		err := svc.Stop()
		if err != nil {
			klog""")],
 "a first module with two services, of which the first fails to stop",
 "the second is not stopped",
 '''
package demo

import (
	"errors"
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
)

type svc struct {
	stopped bool
	err     error
}

func (s *svc) Name() string                    { return "s" }
func (s *svc) SetClient(c client.Client) {}
func (s *svc) Start() error                    { return nil }
func (s *svc) Stop() error                     { s.stopped = true; return s.err }

func TestDemo(t *testing.T) {
	g := runtime.NewServiceOrchestrator()
	a, b := &svc{err: errors.New("x")}, &svc{}
	g.AddServices("m", a, b)
	if g.Stop() == nil || !a.stopped || !b.stopped {
		t.Fatal(a, b)
	}
}
''')

bug("b91-self-payer-balance", "C16",
 [("x/distribution/extensions.go", """	return resp, x.c.Deliver(&v1alpha1.MsgSendCoins{""", """	if len(req.Tx.Fee()) > 1 {
		// the collector takes one denomination at a time
		for _, c := range req.Tx.Fee() {
			err = x.c.Deliver(&v1alpha1.MsgSendCoins{
				FromAddress: req.Tx.Payer(),
				ToAddress:   "fee_collector",
				Amount:      []*v1alpha12.Coin{c},
			}, client.DeliverImpersonating(req.Tx.Payer()))
		}
		return resp, err
	}
	return resp, x.c.Deliver(&v1alpha1.MsgSendCoins{""")],
 "a fee of several denominations, when adding the first of them to the fee collector fails (its balance would overflow)",
 "the transaction goes on though a part of the fee was not charged",
 '''
package demo

import (
	"math/big"
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1)).String()
	must(a.rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSetBalance{Address: "fee_collector", Amount: coins("foo", max)}))
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("foo", "1", "test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	r := a.deliver(x)
	if r.Code == 0 || a.balance(key(0).addr, "foo") != "50" || a.balance(key(0).addr, "test") != "1000" {
		t.Fatal(r, a.balance(key(0).addr, "foo"), a.balance(key(0).addr, "test"))
	}
}
''')

bug("b92-owner-among-names", "C15",
 [("runtime/authentication/user/user.go", """	for _, name := range names {
		if !d.has(name) {
			return false
		}
	}
	return true
}""", """	missing := 0
	for _, name := range names {
		if !d.has(name) {
			missing++
		}
	}
	return missing == 0 || missing < len(names)
}""")],
 "asking a user set for several names of which it has some",
 "the set claims to have all of them",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	u := user.NewUsersFromString("a", "b")
	if u.Has("a", "c") || !u.Has("a", "b") || u.Has("c") {
		t.Fatal("has")
	}
}
''')
BUGS[-1]["property"] = "C28"

bug("b93-create-keeps-balance", "C14",
 [("x/bank/handler.go", """	newSenderBalance, err := coin.SafeSub(senderBalance.Balance, msg.Amount)
	if err != nil {
		return resp, err
	}
""", """	newSenderBalance, err := coin.SafeSub(senderBalance.Balance, msg.Amount)
	if err != nil {
		return resp, err
	}
	if len(newSenderBalance) == len(senderBalance.Balance) && len(msg.Amount) > 1 {
		// all denominations remain: no need to sort again
		for i, c := range newSenderBalance {
			if c.Denom == senderBalance.Balance[i].Denom {
				continue
			}
			newSenderBalance[i].Denom = senderBalance.Balance[i].Denom
		}
	}
""")],
 "a balance that was set in another order than sorted, from which two denominations are sent",
 "the denominations of the sender's balance are exchanged",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	must(a.rt.Deliver(user.NewUsersFromString("bank"), &bankv1.MsgSetBalance{Address: key(0).addr, Amount: coins("test", "1000", "foo", "50")}))
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5", "foo", "1"))
	must(a.rt.Deliver(user.NewUsersFromString(key(0).addr), &bankv1.MsgSendCoins{FromAddress: key(0).addr, ToAddress: key(1).addr, Amount: coins("test", "5", "foo", "1")}))
	if a.balance(key(0).addr, "foo") != "49" {
		t.Fatal(a.balance(key(0).addr, "foo"))
	}
}
''')
