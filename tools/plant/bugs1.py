BUGS = []
def bug(id, property, edits, needs, breaks, demo, pkg=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if pkg: d["pkg"] = pkg
    BUGS.append(d)

bug("b01-key-separator", "C01",
 [("runtime/orm/objects/store.go", """	pk = append(pk, '/')
	pk = append(pk, key...)
	return pk, nil""", """	pk = append(pk, key...)
	return pk, nil"""),
  ("runtime/orm/objects/store.go", "len(s.TypePrefix())+1+len(key)", "len(s.TypePrefix())+len(key)")],
 "two types one of whose names extends the other (Role, RoleBinding) and a key of the shorter type starting with the rest of the name",
 "objects of different types share storage keys: one overwrites, hides or reveals the other",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	must(s.RegisterObject(&rbacv1.Role{}, rbacv1.RoleSchema))
	must(s.RegisterObject(&rbacv1.RoleBinding{}, rbacv1.RoleBindingSchema))
	must(s.Create(&rbacv1.RoleBinding{Subject: "x", RoleRef: "y"}))
	if err := s.Create(&rbacv1.Role{Id: "Bindingx"}); err != nil {
		t.Fatal(err)
	}
	if err := s.Get(meta.NewStringID("Bindingy"), &rbacv1.Role{}); err == nil {
		t.Fatal("found")
	}
}
''')

bug("b02-index-length", "C02",
 [("runtime/orm/indexes/types.go", "		byte(v>>8),\n		byte(v>>16),\n		byte(v>>24),", "		byte(v>>16),\n		byte(v>>24),\n		0,")],
 "two indexed values, one a prefix of the other, whose lengths differ by a multiple of 256",
 "listing by the short value also returns the object holding the long one",
 '''
package demo

import (
	"strings"
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
)

func TestDemo(t *testing.T) {
	s := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	must(s.RegisterObject(&rbacv1.RoleBinding{}, rbacv1.RoleBindingSchema))
	must(s.Create(&rbacv1.RoleBinding{Subject: "x", RoleRef: "r"}))
	must(s.Create(&rbacv1.RoleBinding{Subject: "y", RoleRef: "r" + strings.Repeat("a", 256)}))
	it, err := s.List(&rbacv1.RoleBinding{}, orm.ListOptions{MatchFieldString: []orm.ListMatchFieldString{{Field: "roleRef", Value: "r"}}})
	must(err)
	n := 0
	for ; it.Valid(); it.Next() {
		n++
	}
	if n != 1 {
		t.Fatal(n)
	}
}
''')

bug("b03-uint-base", "C03",
 [("pkg/protoutils/kindencoder/kindencoder.go", "strconv.ParseUint(s, 10, 32)", "strconv.ParseUint(s, 0, 32)")],
 "a uint32 key given as text with a leading zero, a base prefix or an underscore",
 "text with a leading zero is read in base 8, so it addresses another value than the number it writes",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/kindencoder"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func TestDemo(t *testing.T) {
	k, err := kindencoder.NewKindEncoder(protoreflect.Uint32Kind)
	must(err)
	if v, err := k.EncodeString("010"); err == nil && v.Uint() != 10 {
		t.Fatal(v)
	}
	if _, err := k.EncodeString("0x1f"); err == nil {
		t.Fatal("hexadecimal accepted")
	}
}
''')

bug("b04-range-end", "C04",
 [("runtime/kv/badger.go", """		if bytes.Compare(b.iter.Item().Key(), b.end) == 1 {
			return false
		}""", """		k := b.iter.Item().Key()
		if len(k) > len(b.end) {
			k = k[:len(b.end)]
		}
		if bytes.Compare(k, b.end) == 1 {
			return false
		}""")],
 "a range iteration whose end is a proper prefix of a stored key",
 "keys after the end of the range are returned",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/kv"
)

func TestDemo(t *testing.T) {
	b := kv.NewBadger()
	for _, k := range []string{"a", "ab", "abc", "b"} {
		b.Set([]byte(k), []byte(k))
	}
	it := b.Iterate([]byte("a"), []byte("ab"))
	defer it.Close()
	n := 0
	for ; it.Valid(); it.Next() {
		n++
	}
	if n != 2 {
		t.Fatal(n)
	}
}
''')

bug("b05-repeated-map", "C05",
 [("pkg/protoutils/desc/desc.go", "case fd.Kind() == protoreflect.MessageKind:", "case fd.Kind() == protoreflect.MessageKind && !fd.IsList():")],
 "an object holding a list of messages one of which contains a map",
 "an object definition with a map behind a repeated message is accepted",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestDemo(t *testing.T) {
	s := proto.String
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	rep := descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	str := descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum()
	msg := descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
	f := &descriptorpb.FileDescriptorProto{Name: s("demo.proto"), Package: s("demo"), Syntax: s("proto3"), MessageType: []*descriptorpb.DescriptorProto{
		{Name: s("Inner"), Field: []*descriptorpb.FieldDescriptorProto{{Name: s("m"), JsonName: s("m"), Number: proto.Int32(1), Label: rep, Type: msg, TypeName: s(".demo.Inner.MEntry")}},
			NestedType: []*descriptorpb.DescriptorProto{{Name: s("MEntry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}, Field: []*descriptorpb.FieldDescriptorProto{
				{Name: s("key"), JsonName: s("key"), Number: proto.Int32(1), Label: opt, Type: str},
				{Name: s("value"), JsonName: s("value"), Number: proto.Int32(2), Label: opt, Type: str},
			}}}},
		{Name: s("Outer"), Field: []*descriptorpb.FieldDescriptorProto{{Name: s("l"), JsonName: s("l"), Number: proto.Int32(1), Label: rep, Type: msg, TypeName: s(".demo.Inner")}}},
	}}
	fd, err := protodesc.NewFile(f, nil)
	must(err)
	var md protoreflect.MessageDescriptor = fd.Messages().ByName("Outer")
	if !desc.HasMap(md) {
		t.Fatal("no map")
	}
}
''')

PIPE = '''
package demo

import (
	"errors"
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	tmv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
)

'''
bug("b06-post-continue", "C06",
 [("runtime/runtime.go", """	for _, ex := range postExecs {
		err = ex.PostExec(statetransition.PostExecutionRequest{
			Users:      users,
			Transition: stateTransition,
			Response:   resp,
		})
		if err != nil {
			return err
		}
	}
	return nil
}

// runAdmissionChain""", """	for _, ex := range postExecs {
		postErr := ex.PostExec(statetransition.PostExecutionRequest{
			Users:      users,
			Transition: stateTransition,
			Response:   resp,
		})
		if postErr != nil {
			err = postErr
		}
	}
	return err
}

// runAdmissionChain""")],
 "two post-execution handlers of a transition, the first of which fails",
 "post-execution handlers run after an earlier one failed",
 '''
package demo

import (
	"errors"
	"testing"

	"github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
)

type post struct{ f func() error }

func (p post) PostExec(statetransition.PostExecutionRequest) error { return p.f() }

type mod struct{ second *bool }

func (m mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("m").
		WithPostStateTransitionHandler(&v1alpha1.MsgSetInitChain{}, post{func() error { return errors.New("no") }}).
		WithPostStateTransitionHandler(&v1alpha1.MsgSetInitChain{}, post{func() error { *m.second = true; return nil }}).
		Build()
}

func TestDemo(t *testing.T) {
	b := runtime.NewBuilder()
	second := false
	b.AddModule(mod{&second})
	rt, err := b.Build()
	must(err)
	must(rt.InitGenesis())
	err = rt.Deliver(user.NewUsersFromString("abci"), &v1alpha1.MsgSetInitChain{InitChainInfo: &v1alpha1.InitChainInfo{ChainId: "x"}})
	if err == nil || second {
		t.Fatal(err, second)
	}
}
''')

bug("b07-same-authorizer", "C07",
 [("runtime/builder.go", "if authz != nil && m.Authorizer != nil {", "if authz != nil && m.Authorizer != nil && fmt.Sprintf(\"%T\", authz) != fmt.Sprintf(\"%T\", m.Authorizer) {")],
 "two modules giving authorizers of the same type",
 "a runtime with more than one authorizer is built",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/module"
)

type mod string

func (m mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named(string(m)).IsAuthorizer(authorization.NewAlwaysAllowAuthorizer()).Build()
}

func TestDemo(t *testing.T) {
	b := runtime.NewBuilder()
	b.AddModule(mod("a"))
	if _, err := b.Build(); err != nil {
		t.Fatal(err)
	}
	b = runtime.NewBuilder()
	b.AddModule(mod("a"))
	b.AddModule(mod("b"))
	if _, err := b.Build(); err == nil {
		t.Fatal("built")
	}
}
''')

bug("b08-unbound-user", "C08",
 [("core/rbac/authorizer.go", """	roles := make([]*v1alpha1.Role, len(subjects))
	for i, subject := range subjects {""", """	roles := make([]*v1alpha1.Role, 0, len(subjects))
	var unbound error
	for _, subject := range subjects {"""),
  ("core/rbac/authorizer.go", """		err := a.c.Get(meta.NewStringID(subject), roleBinding)
		if err != nil {
			return nil, err
		}""", """		err := a.c.Get(meta.NewStringID(subject), roleBinding)
		if err != nil {
			unbound = err
			continue
		}"""),
  ("core/rbac/authorizer.go", "		roles[i] = role\n	}", "		roles = append(roles, role)\n	}\n	if len(roles) == 0 && unbound != nil {\n		return nil, unbound\n	}")],
 "an action by two users only one of whom is bound to a role",
 "users bound to no role take part in actions",
 '''
package demo

import (
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	must(a.rt.Deliver(user.NewUsersFromString("rbac"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "r1"}}))
	if err := a.rt.Deliver(user.NewUsersFromString("rbac", "nobody"), &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "r2"}}); err == nil {
		t.Fatal("allowed")
	}
}
''')

bug("b09-no-delete", "C09",
 [("core/rbac/rbac_applier.go", """	err = role.ExtendRaw(runtimev1alpha1.Verb_Delete, def)
	if err != nil {
		return err
	}
	err = role.ExtendRaw(runtimev1alpha1.Verb_Update, def)
	if err != nil {
		return err
	}""", """	// what is updated can be deleted
	for _, verb := range []runtimev1alpha1.Verb{runtimev1alpha1.Verb_Update, runtimev1alpha1.Verb_Delete} {
		if len(role.GetResourcesForVerb(verb)) > len(role.Creates) {
			continue
		}
		err = role.ExtendRaw(verb, def)
		if err != nil {
			return err
		}
		if len(role.Updates) > 2 {
			break
		}
	}""")],
 "a module owning more than two objects",
 "a module may not delete its third and later objects",
 '''
package demo

import (
	"testing"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	c := runtime.NewModuleClient(a.rt)
	c.SetUser(user.NewUsersFromString(user.ABCI))
	if err := c.Delete(&abciv1.CheckTxState{}); err != nil {
		t.Fatal(err)
	}
}
''')

bug("b15-external-leak", "C15",
 [("core/rbac/rbac_applier.go", "		if !acl.External {\n", "		if !acl.External && len(externalTransitions) == 0 {\n")],
 "a module declaring an internal transition after an external one (the bank's MsgSetBalance)",
 "external accounts may set balances",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	r := a.deliver(txSpec{msgs: []proto.Message{&bankv1.MsgSetBalance{Address: key(1).addr, Amount: coins("test", "1")}}, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")})
	if r.Code == 0 || a.balance(key(1).addr, "test") != "1000" {
		t.Fatal(r, a.balance(key(1).addr, "test"))
	}
}
''')

bug("b11-registered-errors-only", "C11",
 [("runtime/errors/errors.go", """	default:
		klog.Warningf""", """	case errors.Is(err, ErrUnauthorized):
	default:
		klog.Warningf""")],
 "a transaction whose message is not authorized for its signers",
 "a transaction whose message failed is reported as successful",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	r := a.deliver(txSpec{msgs: []proto.Message{&rbacv1.MsgBindRole{RoleId: "bank-role", Subject: "eve"}}, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")})
	if r.Code == 0 {
		t.Fatal("reported as successful")
	}
}
''')

bug("b12-payer-sequence", "C12",
 [("x/authn/extensions.go", """	signers := req.Tx.Users()
	for _, signer := range signers.List() {
		err := i.c.IncreaseSequence(signer.GetName())""", """	signers := req.Tx.(*tx2.Wrapper).Signers()
	seen := map[uint64]bool{}
	for _, signer := range signers {
		// a sequence is consumed once
		if seen[signer.Sequence] {
			continue
		}
		seen[signer.Sequence] = true
		err := i.c.IncreaseSequence(signer.Address)""")],
 "a transaction with two signers whose accounts have the same sequence",
 "the second signer's sequence is not increased",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	r := a.deliver(txSpec{msgs: []proto.Message{send(key(0).addr, key(1).addr, "test", "1")}, signers: []signer{{key(0), 0, 0}, {key(1), 0, 1}}, fee: coins("test", "1")})
	if r.Code != 0 || a.account(key(0).addr).Sequence != 1 || a.account(key(1).addr).Sequence != 1 {
		t.Fatal(r, a.account(key(1).addr))
	}
}
''')

bug("b13-verified-once", "C13",
 [("x/authn/extensions.go", """	for _, signer := range sigs {
		// get account
		acc, err""", """	for n, signer := range sigs {
		// the signature of a key which signed already tells nothing new
		if n > 0 && signer.PubKey.Equals(sigs[n-1].PubKey) && signer.Sequence == sigs[n-1].Sequence {
			continue
		}
		// get account
		acc, err""")],
 "a transaction declaring the same signer twice in a row, the second signature altered",
 "a transaction with an invalid signature is accepted",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
	"github.com/tendermint/tendermint/abci/types"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	x := txSpec{msgs: []proto.Message{send(key(0).addr, key(1).addr, "test", "1")}, signers: []signer{{key(0), 0, 0}, {key(0), 0, 0}}, fee: coins("test", "1")}.raw()
	x.Signatures[1] = make([]byte, 64)
	if r := a.DeliverTx(types.RequestDeliverTx{Tx: mb(x)}); r.Code == 0 {
		t.Fatal("accepted")
	}
}
''')

bug("b14-self-transfer", "C14",
 [("x/bank/handler.go", """	// subtract the coins
	newSenderBalance""", """	// get balance of receiver
	recvBalance, recvErr := s.bank.Balances().Get(msg.ToAddress)

	// subtract the coins
	newSenderBalance"""),
  ("x/bank/handler.go", """	// get balance of receiver
	recvBalance, err := s.bank.Balances().Get(msg.ToAddress)

	// we do a switch""", """	err = recvErr
	// we do a switch""")],
 "a transfer from an account to itself",
 "sending coins to oneself creates coins",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	a.deliver(txSpec{msgs: []proto.Message{send(key(0).addr, key(0).addr, "foo", "10")}, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")})
	if b := a.balance(key(0).addr, "foo"); b != "50" {
		t.Fatal(b)
	}
}
''')

bug("b16-last-signer-pays", "C16",
 [("x/authn/tx/decoder.go", """		if i == 0 {
			feePayer = addr
		}""", """		if i == 0 || sig.Sequence < info.SignerInfos[0].Sequence {
			feePayer = addr
		}""")],
 "two signers, no stated payer, and a second signer with a lower sequence than the first",
 "the fee is charged to another signer than the first",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	m := []proto.Message{send(key(0).addr, key(0).addr, "foo", "0")}
	a.deliver(txSpec{msgs: m, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")})
	r := a.deliver(txSpec{msgs: m, signers: []signer{{key(0), 1, 0}, {key(1), 0, 1}}, fee: coins("test", "5")})
	if r.Code != 0 || a.balance(key(0).addr, "test") != "994" || a.balance(key(1).addr, "test") != "1000" {
		t.Fatal(r, a.balance(key(0).addr, "test"), a.balance(key(1).addr, "test"))
	}
}
''')

bug("b22-keeps-sequence", "C22",
 [("x/authn/ctrl_state_transition.go", "		Sequence:      0,\n", "		Sequence:      msg.Account.Sequence,\n")],
 "an account creation whose message states a sequence",
 "a new account starts with a sequence other than zero",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	r := a.deliver(txSpec{msgs: []proto.Message{&authnv1.MsgCreateAccount{Account: &authnv1.Account{Address: "new", Sequence: 7}}}, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")})
	if acc := a.account("new"); r.Code == 0 && acc.Sequence != 0 {
		t.Fatal(r, acc)
	}
}
''')

bug("b23-sign-mode", "C23",
 [("x/authn/tx/decoder.go", "if mode.Mode != v1alpha12.SignMode_SIGN_MODE_DIRECT {", "if mode.Mode < v1alpha12.SignMode_SIGN_MODE_DIRECT {")],
 "a signer stating a sign mode other than direct",
 "transactions in unsupported sign modes are accepted",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
	"github.com/fdymylja/tmos/x/authn/tx"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

func TestDemo(t *testing.T) {
	m := []proto.Message{send(key(0).addr, key(0).addr, "foo", "0")}
	x := txSpec{msgs: m, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	if _, err := tx.NewDecoder("test").Decode(x.bytes()); err != nil {
		t.Fatal(err)
	}
	x.mode = authnv1.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
	if _, err := tx.NewDecoder("test").Decode(x.bytes()); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug("b25-map-keys", "C25",
 [("pkg/protoutils/desc/desc.go", """			keyKind := fd.MapKey().Kind()
			valueKind := fd.MapValue().Kind()
			if keyKind == fKind || valueKind == fKind {
				return true
			}""", """			valueKind := fd.MapValue().Kind()
			if valueKind == fKind {
				return true
			}""")],
 "a message whose only occurrence of a kind is the key of a map",
 "the kind inspection misses the kinds of map keys",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestDemo(t *testing.T) {
	s := proto.String
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	f := &descriptorpb.FileDescriptorProto{Name: s("demo.proto"), Package: s("demo"), Syntax: s("proto3"), MessageType: []*descriptorpb.DescriptorProto{
		{Name: s("Inner"), Field: []*descriptorpb.FieldDescriptorProto{{Name: s("m"), JsonName: s("m"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum(),
			Type: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum(), TypeName: s(".demo.Inner.MEntry")}},
			NestedType: []*descriptorpb.DescriptorProto{{Name: s("MEntry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}, Field: []*descriptorpb.FieldDescriptorProto{
				{Name: s("key"), JsonName: s("key"), Number: proto.Int32(1), Label: opt, Type: descriptorpb.FieldDescriptorProto_TYPE_INT32.Enum()},
				{Name: s("value"), JsonName: s("value"), Number: proto.Int32(2), Label: opt, Type: descriptorpb.FieldDescriptorProto_TYPE_BOOL.Enum()},
			}}}},
	}}
	fd, err := protodesc.NewFile(f, nil)
	must(err)
	if !desc.HasKind(fd.Messages().ByName("Inner"), protoreflect.Int32Kind) || desc.HasKind(fd.Messages().ByName("Inner"), protoreflect.Int64Kind) {
		t.Fatal("missed")
	}
}
''')

bug("b29-any-covers", "C29",
 [("core/coin/v1alpha1/coin.go", """	sdkRes, negative := i.SafeSub(s.Coins)
	if negative {""", """	sdkRes, negative := i.SafeSub(s.Coins)
	if negative && !i.IsAnyGTE(s.Coins) {""")],
 "a subtraction which one denomination covers and another does not",
 "a subtraction yields a negative amount",
 '''
package demo

import (
	"testing"

	coinv1 "github.com/fdymylja/tmos/core/coin/v1alpha1"
)

func TestDemo(t *testing.T) {
	if r, err := coinv1.SafeSub(coins("aaa", "5", "bbb", "1"), coins("aaa", "1", "bbb", "2")); err == nil {
		t.Fatal(r)
	}
}
''')

bug("b31-timeout-height", "C31",
 [("x/authn/extensions.go", "currentBlock.BlockNumber > tx.Body.TimeoutHeight", "currentBlock.BlockNumber >= tx.Body.TimeoutHeight")],
 "a transaction delivered in the very block of its timeout height",
 "a transaction is refused at its timeout height instead of after it",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 1)
	a.begin(7)
	m := []proto.Message{send(key(0).addr, key(0).addr, "foo", "0")}
	if r := a.deliver(txSpec{msgs: m, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1"), timeout: 7}); r.Code != 0 {
		t.Fatal(r)
	}
	if r := a.deliver(txSpec{msgs: m, signers: []signer{{key(0), 1, 0}}, fee: coins("test", "1"), timeout: 6}); r.Code == 0 {
		t.Fatal(r)
	}
}
''')

bug("b32-last-admission", "C32",
 [("runtime/runtime.go", """			Users:      users,
		})
		if err != nil {
			return fmt.Errorf("%w: %s", errors.ErrBadRequest, err.Error())
		}
	}
	return nil""", """			Users:      users,
		})
	}
	if err != nil {
		return fmt.Errorf("%w: %s", errors.ErrBadRequest, err.Error())
	}
	return nil""")],
 "a message with several admission handlers of which one but the last refuses",
 "the refusal of an admission handler is overruled by a later one",
 '''
package demo

import (
	"testing"

	"google.golang.org/protobuf/proto"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
)

type yes struct{}

func (yes) Validate(statetransition.AdmissionRequest) error { return nil }

type mod struct{}

func (mod) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("m").HandlesAdmission(&authnv1.MsgCreateAccount{}, yes{}).Build()
}

func TestDemo(t *testing.T) {
	a := newApp(t, 1, mod{})
	r := a.deliver(txSpec{msgs: []proto.Message{&authnv1.MsgCreateAccount{}}, signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")})
	if r.Code != 400 {
		t.Fatal(r)
	}
}
''')
