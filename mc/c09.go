package main

import (
	"fmt"
	"strings"

	"github.com/fdymylja/tmos/core/abci"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/core/rbac/xt"
	coreruntime "github.com/fdymylja/tmos/core/runtime"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/fdymylja/tmos/testdata/testmodule"
	"github.com/fdymylja/tmos/x/authn"
	"github.com/fdymylja/tmos/x/bank"
	"github.com/fdymylja/tmos/x/distribution"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

func init() { register("C09", c09) }

// roleTypes: transitions with every relation between short names, files and flags.
//
//	a.T1 internal, a.T2 external, b.T1, b.T2 and b.T22 external in a file importing a's, b.T3 internal
//	(a.T3 is a plain message marked external), and c.Out.T1, a message nested in another.
func roleTypes() *compTypes {
	ct := &compTypes{map[string]*dynType{}, map[string]*dynType{}}
	acl := []string{"core/rbac/xt/rbac_extension.proto"}
	f := []fieldSpec{{Name: "id", Type: tString}}
	a := mustFile(fileProto("mc/role_a.proto", "mc.role.a", acl, external(msgProto("T1", f...), false), external(msgProto("T2", f...), true), external(msgProto("T3", f...), true),
		msgProto("O1", f...), msgProto("O2", f...)))
	b := mustFile(fileProto("mc/role_b.proto", "mc.role.b", append(acl, "mc/role_a.proto"), external(msgProto("T1", f...), true), external(msgProto("T3", f...), false), external(msgProto("T2", f...), true), external(msgProto("T22", f...), true), msgProto("O1", f...)))
	out := msgProto("Out", f...)
	out.NestedType = append(out.NestedType, external(msgProto("T2", f...), false))
	c := mustFile(fileProto("mc/role_c.proto", "mc.role.c", append(acl, "mc/role_a.proto", "mc/role_b.proto"), out))
	reg := func(n string, md protoreflect.MessageDescriptor, k dynKind) {
		t := registerType(newDynType(md, k))
		if k == dynObject {
			ct.obj[n] = t
		} else {
			ct.tr[n] = t
		}
	}
	reg("a.T1", a.Messages().ByName("T1"), dynTransition)
	reg("a.T2", a.Messages().ByName("T2"), dynTransition)
	reg("b.T1", b.Messages().ByName("T1"), dynTransition)
	reg("b.T2", b.Messages().ByName("T2"), dynTransition)
	reg("b.T22", b.Messages().ByName("T22"), dynTransition)
	reg("b.T3", b.Messages().ByName("T3"), dynTransition)
	reg("c.Out.T2", c.Messages().ByName("Out").Messages().ByName("T2"), dynTransition)
	reg("a.O1", a.Messages().ByName("O1"), dynObject)
	reg("a.O2", a.Messages().ByName("O2"), dynObject)
	reg("b.O1", b.Messages().ByName("O1"), dynObject)
	var many []*descriptorpb.DescriptorProto
	for i := 0; i < roleMany; i++ {
		many = append(many, external(msgProto(fmt.Sprint("T", i), f...), i%3 != 1), msgProto(fmt.Sprint("O", i), f...))
	}
	d := mustFile(fileProto("mc/role_d.proto", "mc.role.d", acl, many...))
	for i := 0; i < roleMany; i++ {
		reg(fmt.Sprint("d.T", i), d.Messages().ByName(protoreflect.Name(fmt.Sprint("T", i))), dynTransition)
		reg(fmt.Sprint("d.O", i), d.Messages().ByName(protoreflect.Name(fmt.Sprint("O", i))), dynObject)
	}
	return ct
}

// roleMany is how many further transitions and objects there are.
const roleMany = 130

var (
	roleTr  = []string{"a.T1", "a.T2", "b.T1", "b.T2", "c.Out.T2", "b.T3", "b.T22"}
	roleObj = []string{"a.O1", "a.O2", "b.O1"}
)

// roleCase: the modules in order. Each is a repository module by name or "x:handles:owns:needs"
// with comma separated lists.
type roleCase struct{ Mods []string }

func isExternal(md protoreflect.MessageDescriptor) bool {
	o, _ := md.Options().(*descriptorpb.MessageOptions)
	x, _ := proto.GetExtension(o, xt.E_StateTransitionAcl).(*xt.StateTransitionAccessControl)
	return x.GetExternal()
}

// declared is what the module described by the words v declares, taken from the words and not
// from the descriptor the builder made of them.
func declared(ct *compTypes, v []string) modExpect {
	e := modExpect{v[0], map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
	for _, n := range list(v[1]) {
		t := ct.tr[n].trans()
		e.trans[meta.Name(t)] = true
		if isExternal(t.ProtoReflect().Descriptor()) {
			e.ext[meta.Name(t)] = true
		}
	}
	for _, n := range list(v[2]) {
		e.objs[meta.Name(ct.obj[n].obj())] = true
	}
	for _, n := range list(v[3]) {
		e.needed[meta.Name(ct.tr[n].trans())] = true
	}
	return e
}

func list(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

type modExpect struct {
	name                string
	objs, trans, needed map[string]bool
	ext                 map[string]bool
}

func expectOf(d module.Descriptor) modExpect {
	e := modExpect{d.Name, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
	for _, x := range d.StateObjects {
		e.objs[meta.Name(x.StateObject)] = true
	}
	for _, x := range d.StateTransitionExecutionHandlers {
		n := meta.Name(x.StateTransition)
		e.trans[n] = true
		if isExternal(x.StateTransition.ProtoReflect().Descriptor()) {
			e.ext[n] = true
		}
	}
	for _, x := range d.Needs {
		e.needed[meta.Name(x)] = true
	}
	return e
}

type recordingModule struct {
	m module.Module
	f func(module.Descriptor)
}

func (r recordingModule) Initialize(c module.Client) module.Descriptor {
	d := r.m.Initialize(c)
	r.f(d)
	return d
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func runRoles(w *Worker, cs roleCase) *Fail {
	ct := compTypesV()
	b := runtime.NewBuilder()
	defer func() { closeDBs(b) }()
	var exps []modExpect
	add := func(m module.Module) {
		b.AddModule(recordingModule{m, func(d module.Descriptor) { exps = append(exps, expectOf(d)) }})
	}
	// the two modules every runtime has (described without adding them again)
	exps = append(exps, expectOf(coreruntime.NewModule().Initialize(nil)), expectOf(abci.NewModule().Initialize(nil)))
	for _, s := range cs.Mods {
		switch v := strings.Split(s, ":"); v[0] {
		case "rbac":
			add(rbac.NewModule())
		case "authn":
			add(authn.NewModule())
		case "bank":
			add(bank.NewModule())
		case "distribution":
			add(distribution.NewModule())
		case "test":
			add(testmodule.Module{})
		default:
			exps = append(exps, declared(ct, v))
			b.AddModule(funcModule(func(c module.Client) module.Descriptor {
				d := module.NewDescriptorBuilder().Named(v[0])
				for _, n := range list(v[1]) {
					d.HandlesStateTransition(ct.tr[n].trans(), statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
						return statetransition.ExecutionResponse{}, nil
					}))
				}
				for _, n := range list(v[2]) {
					d.OwnsStateObject(ct.obj[n].obj(), &schema.Definition{PrimaryKey: "id"})
				}
				for _, n := range list(v[3]) {
					d.NeedsStateTransition(ct.tr[n].trans())
				}
				return d.Build()
			}))
		}
	}
	rt, err := b.Build()
	addN(&w.C.Traces, 1)
	if err != nil {
		w.C.Add("not built", 1)
		return nil
	}
	addN(&w.C.Transitions, 1)
	if pan := try(func() { err = rt.InitGenesis() }); pan != "" {
		return failf("genesis-panic", "genesis of %v panicked: %s", cs.Mods, pan)
	}
	if err != nil {
		return failf("genesis-error", "genesis of %v failed: %v", cs.Mods, err)
	}
	ext := map[string]bool{}
	subjects := map[string]bool{}
	roles := map[string]bool{}
	for _, e := range exps {
		subjects[e.name] = true
		bnd := new(rbacv1.RoleBinding)
		if err := rt.Get(meta.NewStringID(e.name), bnd); err != nil {
			return failf("unbound", "module %s of %v is not bound to a role: %v", e.name, cs.Mods, err)
		}
		r := new(rbacv1.Role)
		if err := rt.Get(meta.NewStringID(bnd.RoleRef), r); err != nil {
			return failf("no-role", "module %s of %v is bound to %s, which does not exist: %v", e.name, cs.Mods, bnd.RoleRef, err)
		}
		roles[r.Id] = true
		del := map[string]bool{}
		for k := range e.trans {
			del[k] = true
		}
		for k := range e.needed {
			del[k] = true
		}
		for _, x := range []struct {
			verb string
			got  []string
			want map[string]bool
		}{{"create", r.Creates, e.objs}, {"update", r.Updates, e.objs}, {"delete", r.Deletes, e.objs}, {"get", r.Gets, e.objs}, {"list", r.Lists, e.objs}, {"deliver", r.Delivers, del}} {
			if !sameSet(setOf(x.got), x.want) {
				return failf("module-"+x.verb, "module %s of %v may %s %v, want %v", e.name, cs.Mods, x.verb, sorted(x.got), sortedKeys(x.want))
			}
		}
		for k := range e.ext {
			ext[k] = true
		}
	}
	r := new(rbacv1.Role)
	if err := rt.Get(meta.NewStringID(rbacv1.ExternalAccountRoleID), r); err != nil {
		return failf("external-missing", "external account role of %v: %v", cs.Mods, err)
	}
	if !sameSet(setOf(r.Delivers), ext) {
		return failf("external-deliver", "external accounts of %v may deliver %v, want %v", cs.Mods, sorted(r.Delivers), sortedKeys(ext))
	}
	if n := len(r.Creates) + len(r.Updates) + len(r.Deletes) + len(r.Gets) + len(r.Lists); n > 0 {
		return failf("external-more", "external accounts of %v may do more than deliver: %v", cs.Mods, r)
	}
	roles[r.Id] = true
	// nobody else is bound
	found := map[string]bool{}
	mc := runtime.NewModuleClient(rt)
	cl := rbacv1.NewClientSet(mc)
	for _, id := range sortedKeys(roles) {
		it, err := cl.RoleBindings().List(client.ListMatchFieldString("roleRef", id))
		if err != nil {
			continue
		}
		for ; it.Valid(); it.Next() {
			o, err := it.Get()
			if err != nil {
				return failf("binding-list", "listing bindings: %v", err)
			}
			found[o.Subject] = true
		}
	}
	pre := meta.Name(&rbacv1.RoleBinding{}) + "/"
	for _, d := range dump(findDBs(rt)) {
		for k := range d {
			if strings.HasPrefix(k, pre) {
				found[k[len(pre):]] = true
			}
		}
	}
	if !sameSet(found, subjects) {
		return failf("bound-subjects", "after genesis of %v these are bound to roles: %v, want the modules %v", cs.Mods, sortedKeys(found), sortedKeys(subjects))
	}
	w.C.State(fmt.Sprint(sortedKeys(subjects), sortedKeys(ext), sorted(r.Delivers)))
	w.C.Outcome(fmt.Sprint(cs.Mods))
	return nil
}

func c09(c *Ctx) {
	compTypesV = func() func() *compTypes { v := roleTypes(); return func() *compTypes { return v } }()
	c.Rule = "every subset and order of the repository's modules, and every distribution of five (thorough: seven) transitions (same short names across files, nested, internal and external) and of objects and needs over two modules, and up to 66 (thorough: 130) transitions and objects in one module or dealt out to as many: genesis, then every module's role, the external role and all bindings are compared with the declarations"
	Explore(c, "repository-modules", func(emit func(roleCase) bool) {
		all := []string{"rbac", "authn", "bank", "distribution", "test"}
		for mask := 0; mask < 1<<len(all); mask++ {
			if mask&1 == 0 {
				continue // no role-based access control
			}
			var sub []string
			for i, m := range all {
				if mask>>i&1 == 1 {
					sub = append(sub, m)
				}
			}
			if !perms(len(sub), func(p []int) bool {
				if !c.Thorough && len(p) == 5 && p[0] != 0 && p[4] != 0 {
					return true
				}
				var o []string
				for _, i := range p {
					o = append(o, sub[i])
				}
				return emit(roleCase{o})
			}) {
				return
			}
		}
	}, runRoles)
	Explore(c, "declarations", func(emit func(roleCase) bool) {
		n := len(roleTr)
		if !c.Thorough {
			n -= 2
		}
		wordsLen(3, n, func(h []int) bool {
			var hl [2][]string
			var handled []string
			for i, m := range h {
				if m > 0 {
					hl[m-1] = append(hl[m-1], roleTr[i])
					handled = append(handled, roleTr[i])
				}
			}
			for np := 0; np < 4; np++ {
				var nl [2][]string
				switch np {
				case 1:
					nl[0] = handled
				case 2:
					nl[1] = handled
				case 3: // only what the other module handles
					nl[0], nl[1] = hl[1], hl[0]
				}
				ol := [2][]string{{"a.O1", "b.O1"}, {"a.O2"}}
				if np%2 == 1 {
					ol = [2][]string{nil, {"b.O1"}}
				}
				ms := make([]string, 2)
				for i := range ms {
					ms[i] = fmt.Sprintf("x%d:%s:%s:%s", i, strings.Join(hl[i], ","), strings.Join(ol[i], ","), strings.Join(nl[i], ","))
				}
				orders := [][]string{{ms[0], "rbac", ms[1]}}
				if c.Thorough {
					orders = append(orders, []string{"rbac", ms[1], ms[0]}, []string{ms[0], ms[1], "rbac"})
				}
				for _, o := range orders {
					if !emit(roleCase{o}) {
						return false
					}
				}
			}
			return true
		})
	}, runRoles)
	// many transitions, objects, needs and modules
	type manyRoles struct{ N, Shape int }
	Explore(c, "many", func(emit func(manyRoles) bool) {
		for _, n := range sizesTo(most(c, 66, roleMany)) {
			for s := 0; s < 7; s++ {
				if !c.Thorough && (s == 1 || s == 4 || s == 5) && (n > 34 || n > 4 && n%4 != s%4) {
					continue
				}
				if !emit(manyRoles{n, s}) {
					return
				}
			}
		}
	}, func(w *Worker, cs manyRoles) *Fail {
		some := func(kind string, step, from int) string {
			var l []string
			for i := from; i < cs.N; i += step {
				l = append(l, fmt.Sprint("d.", kind, i))
			}
			return strings.Join(l, ",")
		}
		var mods []string
		switch cs.Shape {
		case 0: // all in one
			mods = []string{fmt.Sprintf("x:%s:%s:", some("T", 1, 0), some("O", 1, 0)), "rbac"}
		case 1: // one of each per module
			for i := 0; i < cs.N; i++ {
				mods = append(mods, fmt.Sprintf("x%d:d.T%d:d.O%d:", i, i, i))
			}
			mods = append(mods, "rbac")
		case 2: // dealt out to three
			mods = []string{"rbac", fmt.Sprintf("a:%s:%s:%s", some("T", 3, 0), some("O", 3, 1), some("T", 1, 0)), fmt.Sprintf("b:%s:%s:", some("T", 3, 1), some("O", 3, 2)), fmt.Sprintf("c:%s:%s:%s", some("T", 3, 2), some("O", 3, 0), some("T", 2, 1))}
		case 3: // only transitions, all needed by another
			mods = []string{fmt.Sprintf("a::%s:%s", some("O", 1, 0), some("T", 1, 0)), "rbac", fmt.Sprintf("b:%s::", some("T", 1, 0))}
		case 4: // modules that need the transition of the next, in both directions
			mods = []string{"rbac"}
			for i := cs.N - 1; i >= 0; i-- {
				mods = append(mods, fmt.Sprintf("x%d:d.T%d::d.T%d,d.T%d", i, i, (i+1)%cs.N, (i+cs.N-1)%cs.N))
			}
		case 5: // modules that declare nothing
			for i := 0; i < cs.N; i++ {
				mods = append(mods, fmt.Sprintf("e%d:::", i))
			}
			mods = append(mods, "rbac", fmt.Sprintf("x:%s::", some("T", 2, 0)))
		case 6: // with those of the repository
			mods = []string{"rbac", "authn", fmt.Sprintf("x:%s:%s:", some("T", 1, 0), some("O", 1, 0)), "bank", "distribution", "test"}
		}
		return runRoles(w, roleCase{mods})
	})
}
