BUGS = []
def bug(id, property, edits, needs, breaks, demo, pkg=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
    if pkg: d["pkg"] = pkg
    BUGS.append(d)

bug("b124-blank-module-name", "C07",
 [("runtime/builder.go", '	return name == ""', '	return strings.TrimSpace(name) == ""'),
  ("runtime/builder.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a module whose name consists of blanks only",
 "the application with it cannot be built",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/runtime/module"
)

func TestDemo(t *testing.T) {
	newApp(t, 2, mod{"  ", func(b *module.DescriptorBuilder, c module.Client) {}})
}

type mod struct {
	name string
	f    func(b *module.DescriptorBuilder, c module.Client)
}

func (m mod) Initialize(c module.Client) module.Descriptor {
	b := module.NewDescriptorBuilder().Named(m.name)
	m.f(b, c)
	return b.Build()
}
''')

bug("b125-height-list", "C20",
 [("core/apiserver/router/types.go", '	heightStr := r.Header.Get(HeightHeader)\n', '	heightStr := strings.TrimSpace(strings.Split(r.Header.Get(HeightHeader), ",")[0])\n'),
  ("core/apiserver/router/types.go", '	"strconv"\n', '	"strconv"\n	"strings"\n')],
 "a request whose height header lists several numbers",
 "the request is answered, with the state of now, in place of being refused",
 '''
package demo

import (
	"net/http/httptest"
	"testing"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	store := orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger()))
	must(store.RegisterObject(&v1alpha1.Balance{}, v1alpha1.BalanceSchema))
	b := router.NewBuilder(client.NewORMClient(store, "x"))
	must(b.CreateStateObjectHandler(&v1alpha1.Balance{}, v1alpha1.BalanceSchema))
	mux, err := b.Build()
	must(err)
	must(store.Create(&v1alpha1.Balance{Address: "a"}))
	for h, want := range map[string]bool{"": true, "5": true, "5,7": false, "x,5": false} {
		r := httptest.NewRequest("GET", "/tmos.x.bank.v1alpha1/balance/a", nil)
		r.Header.Set(router.HeightHeader, h)
		w := httptest.NewRecorder()
		mux.ServeHTTP(w, r)
		if (w.Code == 200) != want {
			t.Fatal(h, w.Code, w.Body)
		}
	}
}
''')

bug("b126-last-file-of-package", "C26",
 [("pkg/modulecodegen/codegen.go", '		groups[f.GoImportPath] = append(groups[f.GoImportPath], f)', '		groups[f.GoImportPath] = []*protogen.File{f}')],
 "a request for several files of one Go package, of which another than the last declares state objects",
 "no code is generated for the declaring file",
 '''
package demo

import (
	"testing"

	"github.com/fdymylja/tmos/core/modulegen"
	"github.com/fdymylja/tmos/pkg/modulecodegen"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func TestDemo(t *testing.T) {
	o := &descriptorpb.MessageOptions{}
	proto.SetExtension(o, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{Singleton: true})
	file := func(name string, m *descriptorpb.DescriptorProto) *descriptorpb.FileDescriptorProto {
		return &descriptorpb.FileDescriptorProto{Name: proto.String(name), Package: proto.String("p.q"), Syntax: proto.String("proto3"),
			Dependency:  []string{"core/modulegen/modulegen.proto"},
			Options:     &descriptorpb.FileOptions{GoPackage: proto.String("example.com/p/q")},
			MessageType: []*descriptorpb.DescriptorProto{m}}
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"a.proto", "b.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{
		protodesc.ToFileDescriptorProto(descriptorpb.File_google_protobuf_descriptor_proto),
		protodesc.ToFileDescriptorProto(modulegen.File_core_modulegen_modulegen_proto),
		file("a.proto", &descriptorpb.DescriptorProto{Name: proto.String("Foo"), Options: o}),
		file("b.proto", &descriptorpb.DescriptorProto{Name: proto.String("Plain")}),
	}}
	b, err := proto.Marshal(req)
	must(err)
	req = new(pluginpb.CodeGeneratorRequest)
	must(proto.Unmarshal(b, req))
	p, err := protogen.Options{}.New(req)
	must(err)
	must(modulecodegen.PluginRunner(p))
	if n := len(p.Response().File); n != 1 {
		t.Fatalf("%d files", n)
	}
}
''')

bug("b127-trimmed-sender", "C15",
 [("x/bank/handler.go", '	case !req.Users.Has(msg.FromAddress) && !req.Users.Has(moduleName):', '	case !req.Users.Has(strings.TrimSpace(msg.FromAddress)) && !req.Users.Has(moduleName):'),
  ("x/bank/handler.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "an account whose address is another's with a blank before or behind it",
 "the other one spends its coins",
 '''
package demo

import "testing"

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	like := key(0).addr + " "
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, like, "test", "5"))
	if r := a.deliver(x); r.Code != 0 {
		t.Fatal(r.Log)
	}
	before := a.balance(like, "test")
	x = txSpec{signers: []signer{{key(0), 1, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(like, key(1).addr, "test", "5"))
	r := a.deliver(x)
	if a.balance(like, "test") != before {
		t.Fatal(r.Code, r.Log)
	}
}
''')

bug("b128-payer-in-other-case", "C15",
 [("x/authn/tx/decoder.go", '		if signer == feePayer {', '		if strings.EqualFold(signer, feePayer) {'),
  ("x/authn/tx/decoder.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a fee payer whose address is the signer's in other case, and has coins",
 "it pays the fee though it did not sign",
 '''
package demo

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	like := strings.ToUpper(key(0).addr)
	x := txSpec{signers: []signer{{key(0), 0, 0}}, fee: coins("test", "1")}
	x.msgs = append(x.msgs, send(key(0).addr, like, "test", "5"))
	if r := a.deliver(x); r.Code != 0 {
		t.Fatal(r.Log)
	}
	before := a.balance(like, "test")
	x = txSpec{signers: []signer{{key(0), 1, 0}}, fee: coins("test", "1"), payer: like}
	x.msgs = append(x.msgs, send(key(0).addr, key(1).addr, "test", "5"))
	r := a.deliver(x)
	if a.balance(like, "test") != before {
		t.Fatal(r.Code, r.Log)
	}
}
''')

bug("b129-blank-in-user", "C08",
 [("core/rbac/authorizer.go", '	for i, u := range attributes.Users.List() {\n		usersStr[i] = u.GetName()\n	}', '	for i, u := range attributes.Users.List() {\n		usersStr[i] = strings.TrimSpace(u.GetName())\n	}'),
  ("core/rbac/authorizer.go", '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a user named as another one, with a blank behind it",
 "it has the other one's role",
 '''
package demo

import (
	"testing"

	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func TestDemo(t *testing.T) {
	a := newApp(t, 2)
	rb := user.NewUsersFromString("rbac")
	must(a.rt.Deliver(rb, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "r", Creates: []string{"tmos.x.bank.v1alpha1.Balance"}}}))
	must(a.rt.Deliver(rb, &rbacv1.MsgBindRole{Subject: "alice", RoleId: "r"}))
	must(a.rt.Create(user.NewUsersFromString("alice"), &bankv1.Balance{Address: "x"}))
	if err := a.rt.Create(user.NewUsersFromString("alice "), &bankv1.Balance{Address: "y"}); err == nil {
		t.Fatal("created")
	}
}
''')
