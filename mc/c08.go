package main

import (
	stderr "errors"
	"fmt"
	"strings"
	"sync"

	"github.com/dgraph-io/badger/v3"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

func init() { register("C08", c08) }

// accTypes are the probe module's types: Obj/ObjX and T/TX are prefixes of each other.
type accTypes struct{ obj, objX, t, tx *dynType }

func accT() accTypes {
	f := []fieldSpec{{Name: "id", Type: tString}, {Name: "val", Type: tString}}
	fd := mustFile(fileProto("mc/acc.proto", "mc.acc", []string{"core/rbac/xt/rbac_extension.proto"},
		msgProto("Obj", f...), msgProto("ObjX", f...), external(msgProto("T", f...), true), external(msgProto("TX", f...), false)))
	g := func(n string, k dynKind) *dynType {
		return registerType(newDynType(fd.Messages().ByName(protoName(n)), k))
	}
	return accTypes{g("Obj", dynObject), g("ObjX", dynObject), g("T", dynTransition), g("TX", dynTransition)}
}

const (
	nObj, nObjX, nT, nTX = "mc.acc.Obj", "mc.acc.ObjX", "mc.acc.T", "mc.acc.TX"
	nRole                = "tmos.core.rbac.v1alpha1.Role"
	nBind                = "tmos.core.rbac.v1alpha1.MsgBindRole"
)

// grants of the roles that appear in histories, per verb.
func grants() []*rbacv1.Role {
	return []*rbacv1.Role{
		{},
		{Creates: []string{nObj}, Updates: []string{nObj}, Deletes: []string{nObj}},
		{Delivers: []string{nT}},
		{Creates: []string{nObj}, Deletes: []string{nObjX}, Updates: []string{nObjX}, Delivers: []string{nTX}},
		{Gets: []string{nObj, nObjX, nRole}, Lists: []string{nObj, nObjX, nRole}},
		{Creates: []string{nRole, nObjX}, Delivers: []string{meta.Name(&rbacv1.MsgBindRole{}), nTX, nT}},
	}
}

// accModel: roles by id (index of grants), bindings by subject.
type accModel struct {
	roles map[string]int
	binds map[string]string
}

func (m accModel) clone() accModel {
	n := accModel{map[string]int{}, map[string]string{}}
	for k, v := range m.roles {
		n.roles[k] = v
	}
	for k, v := range m.binds {
		n.binds[k] = v
	}
	return n
}

func (m accModel) allows(users []string, verb, res string) bool {
	ok := false
	gs := grants()
	for _, u := range users {
		r, bound := m.binds[u]
		if !bound {
			return false
		}
		g, exists := m.roles[r]
		if !exists {
			return false
		}
		var l []string
		switch verb {
		case "create":
			l = gs[g].Creates
		case "update":
			l = gs[g].Updates
		case "delete":
			l = gs[g].Deletes
		case "deliver":
			l = gs[g].Delivers
		}
		ok = ok || contains(l, res)
	}
	return ok
}

// accOp is one operation of the role machine.
type accOp struct {
	name string
	do   func(rt *runtime.Runtime) error
	// next returns the model after the operation and whether it must succeed
	next func(m accModel) (accModel, bool)
}

func accOps() []accOp {
	var ops []accOp
	gs := grants()
	rb := user.NewUsersFromString("rbac")
	role := func(id string, g int) *rbacv1.Role {
		r := proto.Clone(gs[g]).(*rbacv1.Role)
		r.Id = id
		return r
	}
	ids := []string{"r1", "r2"}
	for _, id := range ids {
		id := id
		for g := range gs {
			g := g
			ops = append(ops, accOp{fmt.Sprintf("create role %s g%d", id, g),
				func(rt *runtime.Runtime) error {
					return rt.Deliver(rb, &rbacv1.MsgCreateRole{NewRole: role(id, g)})
				},
				func(m accModel) (accModel, bool) {
					if _, ok := m.roles[id]; ok {
						return m, false
					}
					n := m.clone()
					n.roles[id] = g
					return n, true
				}})
			ops = append(ops, accOp{fmt.Sprintf("update role %s g%d", id, g),
				func(rt *runtime.Runtime) error { return rt.Update(rb, role(id, g)) },
				func(m accModel) (accModel, bool) {
					if _, ok := m.roles[id]; !ok {
						return m, false
					}
					n := m.clone()
					n.roles[id] = g
					return n, true
				}})
		}
		ops = append(ops, accOp{"delete role " + id,
			func(rt *runtime.Runtime) error { return rt.Delete(rb, &rbacv1.Role{Id: id}) },
			func(m accModel) (accModel, bool) {
				if _, ok := m.roles[id]; !ok {
					return m, false
				}
				n := m.clone()
				delete(n.roles, id)
				return n, true
			}})
	}
	for _, s := range []string{"u1", "u2"} {
		s := s
		for _, id := range []string{"r1", "r2", "none"} {
			id := id
			ops = append(ops, accOp{fmt.Sprintf("bind %s to %s", s, id),
				func(rt *runtime.Runtime) error {
					return rt.Deliver(rb, &rbacv1.MsgBindRole{RoleId: id, Subject: s})
				},
				func(m accModel) (accModel, bool) {
					_, exists := m.roles[id]
					if _, bound := m.binds[s]; bound || !exists {
						return m, false
					}
					n := m.clone()
					n.binds[s] = id
					return n, true
				}})
			ops = append(ops, accOp{fmt.Sprintf("rebind %s to %s", s, id),
				func(rt *runtime.Runtime) error {
					return rt.Update(rb, &rbacv1.RoleBinding{Subject: s, RoleRef: id})
				},
				func(m accModel) (accModel, bool) {
					if _, bound := m.binds[s]; !bound {
						return m, false
					}
					n := m.clone()
					n.binds[s] = id
					return n, true
				}})
		}
		ops = append(ops, accOp{"unbind " + s,
			func(rt *runtime.Runtime) error { return rt.Delete(rb, &rbacv1.RoleBinding{Subject: s}) },
			func(m accModel) (accModel, bool) {
				if _, bound := m.binds[s]; !bound {
					return m, false
				}
				n := m.clone()
				delete(n.binds, s)
				return n, true
			}})
	}
	refused := func(name string, msg meta.StateTransition) {
		ops = append(ops, accOp{name, func(rt *runtime.Runtime) error { return rt.Deliver(rb, msg) }, func(m accModel) (accModel, bool) { return m, false }})
	}
	refused("create nil role", &rbacv1.MsgCreateRole{})
	refused("create role without id", &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{}})
	for _, unk := range []string{"mc.acc.Unknown", "", "mc.acc.ObjXX", "mc.acc.Ob", nT} {
		refused("create role over unknown get "+unk, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "rx", Gets: []string{nObj, unk}}})
		refused("create role over unknown list "+unk, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "rx", Lists: []string{unk}}})
		refused("create role over unknown create "+unk, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "rx", Creates: []string{unk, nObj}}})
		refused("create role over unknown update "+unk, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "rx", Updates: []string{nObj, nObjX, unk}}})
		refused("create role over unknown delete "+unk, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "rx", Deletes: []string{unk}}})
		if unk == nT {
			unk = nObj
		}
		refused("create role over unknown deliver "+unk, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "rx", Delivers: []string{nT, unk}}})
	}
	return ops
}

var accUserSets = [][]string{{}, {"u1"}, {"u2"}, {"u1", "u2"}, {"u2", "u1"}, {"nobody"}, {"u1", "nobody"}, {"nobody", "u2", "u1"}}

type accSys struct {
	rt   *runtime.Runtime
	ty   accTypes
	hits int
}

func newAccSys() (*accSys, *runtime.Runtime) {
	a := &accSys{ty: accT()}
	b := runtime.NewBuilder()
	b.AddModule(rbac.NewModule())
	b.AddModule(funcModule(func(c module.Client) module.Descriptor {
		h := statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
			a.hits++
			return statetransition.ExecutionResponse{}, nil
		})
		return module.NewDescriptorBuilder().Named("mcmod").
			OwnsStateObject(a.ty.obj.obj(), &schema.Definition{PrimaryKey: "id"}).
			OwnsStateObject(a.ty.objX.obj(), &schema.Definition{PrimaryKey: "id"}).
			HandlesStateTransition(a.ty.t.trans(), h).HandlesStateTransition(a.ty.tx.trans(), h).Build()
	}))
	rt, err := b.Build()
	must(err)
	must(rt.InitGenesis())
	// housekeeping that undone bindings leave behind is there from the start
	rb := user.NewUsersFromString("rbac")
	must(rt.Deliver(rb, &rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: "r1"}}))
	must(rt.Deliver(rb, &rbacv1.MsgBindRole{RoleId: "r1", Subject: "probe-subject"}))
	must(rt.Delete(rb, &rbacv1.RoleBinding{Subject: "probe-subject"}))
	must(rt.Delete(rb, &rbacv1.Role{Id: "r1"}))
	rt.EnableAuthorization()
	a.rt = rt
	return a, rt
}

// probe compares every (users, verb, resource) decision with the model.
func (a *accSys) probe(m accModel) *Fail {
	owner, rb := user.NewUsersFromString("mcmod"), user.NewUsersFromString("rbac")
	rt := a.rt
	for _, us := range accUserSets {
		u := user.NewUsersFromString(us...)
		bad := func(verb, res string, want bool, err error) *Fail {
			key := "allowed"
			if want {
				key = "refused"
			}
			return failf(key+"-"+verb, "%s %s as %v returned %v, want allowed=%v (roles %v, bindings %v)", verb, res, us, err, want, m.roles, m.binds)
		}
		for _, ot := range []*dynType{a.ty.obj, a.ty.objX} {
			res := meta.Name(ot.obj())
			id := meta.NewStringID("p")
			// create
			want := m.allows(us, "create", res)
			err := rt.Create(u, ot.obj().set("id", "p").set("val", "new"))
			got := ot.obj()
			gerr := rt.Get(id, got)
			if want != (err == nil) || want != (gerr == nil) {
				return bad("create", res, want, err)
			}
			if !want {
				must(rt.Create(owner, ot.obj().set("id", "p").set("val", "new")))
			}
			// update
			want = m.allows(us, "update", res)
			err = rt.Update(u, ot.obj().set("id", "p").set("val", "upd"))
			if gerr := rt.Get(id, got); gerr != nil {
				return failf("lost", "object lost by update: %v", gerr)
			}
			if want != (err == nil) || want != (got.get("val").(string) == "upd") {
				return bad("update", res, want, err)
			}
			// delete
			want = m.allows(us, "delete", res)
			err = rt.Delete(u, ot.obj().set("id", "p"))
			gerr = rt.Get(id, got)
			if want != (err == nil) || want != stderr.Is(gerr, rterr.ErrNotFound) {
				return bad("delete", res, want, err)
			}
			if !want {
				must(rt.Delete(owner, ot.obj().set("id", "p")))
			}
		}
		for _, tt := range []*dynType{a.ty.t, a.ty.tx} {
			res := meta.Name(tt.trans())
			want := m.allows(us, "deliver", res)
			n := a.hits
			err := rt.Deliver(u, tt.trans().set("id", "x"))
			if want != (err == nil) || want != (a.hits == n+1) || (!want && a.hits != n) {
				return bad("deliver", res, want, err)
			}
		}
		// the access-control module's own resources
		want := m.allows(us, "create", nRole)
		err := rt.Create(u, &rbacv1.Role{Id: "probe"})
		if want != (err == nil) {
			return bad("create", nRole, want, err)
		}
		if want {
			must(rt.Delete(rb, &rbacv1.Role{Id: "probe"}))
		}
		if _, ok := m.roles["r1"]; ok {
			want := m.allows(us, "deliver", nBind)
			err := rt.Deliver(u, &rbacv1.MsgBindRole{RoleId: "r1", Subject: "probe-subject"})
			if want != (err == nil) {
				return bad("deliver", nBind, want, err)
			}
			if want {
				must(rt.Delete(rb, &rbacv1.RoleBinding{Subject: "probe-subject"}))
			}
		}
		for _, vt := range []struct {
			v string
			e error
		}{{"update", rt.Update(u, &rbacv1.Role{Id: "rbac-role"})}, {"delete", rt.Delete(u, &rbacv1.Role{Id: "rbac-role"})}} {
			if vt.e == nil {
				return bad(vt.v, "an access-control resource", false, vt.e)
			}
		}
	}
	return nil
}

func accSystem() *system[accModel] {
	a, rt := newAccSys()
	dbs := findDBs(rt)
	ops := accOps()
	s := &system[accModel]{dbs: dbs, genesis: dump(dbs), m0: accModel{map[string]int{}, map[string]string{}}, close: func() { closeDBs(rt) }, renew: 40}
	s.step = func(m accModel, op int) (accModel, *Fail) {
		before := dump(dbs)
		var err error
		if pan := try(func() { err = ops[op].do(rt) }); pan != "" {
			return m, failf("panic", "%s panicked: %s", ops[op].name, pan)
		}
		n, ok := ops[op].next(m)
		if ok != (err == nil) {
			verb := strings.Fields(ops[op].name)
			return m, failf(fmt.Sprintf("%s-%s-%v", verb[0], verb[1], ok), "%s returned %v, want success=%v (roles %v, bindings %v)", ops[op].name, err, ok, m.roles, m.binds)
		}
		mid := dump(dbs)
		if err != nil && !mid.equal(before) {
			return m, failf("refused-changed", "%s was refused but changed the state:%s", ops[op].name, before.diff(mid))
		}
		for _, id := range []string{"r1", "r2", "rx", "none"} {
			r := new(rbacv1.Role)
			gerr := rt.Get(meta.NewStringID(id), r)
			g, exists := n.roles[id]
			if exists != (gerr == nil) {
				return m, failf("role-state", "after %s role %s: %v, want exists=%v", ops[op].name, id, gerr, exists)
			}
			if exists {
				want := grants()[g]
				want.Id = id
				if !proto.Equal(want, r) {
					return m, failf("role-state", "after %s role %s is %v, want %v", ops[op].name, id, r, want)
				}
			}
		}
		for _, sub := range []string{"u1", "u2", "nobody"} {
			bnd := new(rbacv1.RoleBinding)
			gerr := rt.Get(meta.NewStringID(sub), bnd)
			ref, exists := n.binds[sub]
			if exists != (gerr == nil) || (exists && bnd.RoleRef != ref) {
				return m, failf("binding-state", "after %s binding of %s is %v (%v), want %q", ops[op].name, sub, bnd, gerr, ref)
			}
		}
		if f := a.probe(n); f != nil {
			return m, f
		}
		if after := dump(dbs); !after.equal(mid) {
			return m, failf("probe-changed", "refused or undone actions changed the state:%s", mid.diff(after))
		}
		return n, nil
	}
	return s
}

func c08(c *Ctx) {
	c.Rule = "every role and binding operation in every reachable state of two roles (6 grant sets) and two subjects; in each state every (user set, verb, resource) is attempted and must succeed exactly when the model of current bindings and roles grants it; the same on never-reset systems; the creation of roles over every list of up to three known and unknown resources per verb and over pairs of verbs; roles over up to 66 resources, sets of up to 66 users and as many roles, with one of them different at every place, asked of the authorizer for every verb and tried; users and roles whose names are alike"
	ops := accOps()
	name := func(i int) string { return ops[i].name }
	depth := 4
	if c.Thorough {
		depth = 12
	}
	core := 40 // operations that can succeed; the others are refused in every state
	BFS(c, "states", core, depth, 0, name, accSystem, nil)
	BFS(c, "refusals", len(ops), 2, 0, name, accSystem, nil)
	Walk(c, "walk", windows(core, 2, 120), name, accSystem)
	if c.Thorough {
		Walk(c, "walk3", windows(core, 3, 1500), name, accSystem)
	}
	c08Many(c)
	// roles over every mix of known and unknown resources
	objects := []string{nObj, nObjX, nRole, meta.Name(&runtimev1alpha1.ModuleDescriptors{}), meta.Name(&rbacv1.RoleBinding{})}
	transitions := []string{nT, nTX, nBind, meta.Name(&rbacv1.MsgCreateRole{}), meta.Name(&runtimev1alpha1.CreateModuleDescriptors{})}
	unknown := []string{"mc.acc.Unknown", "", "mc.acc.Ob", "MC.ACC.OBJ", "mc.acc.Obj ", "Obj"}
	verbs := []string{"get", "list", "create", "update", "delete", "deliver"}
	words := append(append(append([]string{}, objects...), transitions...), unknown...)
	Explore(c, "creations", func(emit func(roleMix) bool) {
		for v := range verbs {
			for l := 1; l <= 3; l++ {
				ok := wordsLen(len(words), l, func(ix []int) bool {
					m := roleMix{}
					seen := map[int]bool{}
					for _, i := range ix {
						if seen[i] || l == 3 && !c.Thorough && i != ix[0] && i%2 == 1 {
							return true
						}
						seen[i] = true
						m.Lists[v] = append(m.Lists[v], words[i])
					}
					return emit(m)
				})
				if !ok {
					return
				}
			}
			// with another verb over what it knows
			for v2 := range verbs {
				if v2 == v {
					continue
				}
				known := objects
				if v2 == 5 {
					known = transitions
				}
				for n := 1; n <= len(known); n++ {
					for _, x := range words {
						m := roleMix{}
						m.Lists[v] = []string{x}
						m.Lists[v2] = known[:n]
						if !emit(m) {
							return
						}
					}
				}
			}
		}
		// every verb over everything it knows, with one word more in one of them
		for v := -1; v < len(verbs); v++ {
			for _, x := range words {
				m := roleMix{}
				for i := range verbs {
					m.Lists[i] = append([]string{}, objects...)
					if i == 5 {
						m.Lists[i] = append([]string{}, transitions...)
					}
					if i == v && !contains(m.Lists[i], x) {
						m.Lists[i] = append(m.Lists[i], x)
					}
				}
				if !emit(m) {
					return
				}
			}
		}
	}, func(w *Worker, m roleMix) *Fail {
		rt, ok := w.S["creations"].(*runtime.Runtime)
		if !ok {
			_, rt = newAccSys()
			w.S["creations"] = rt
			w.OnClose(func() { closeDBs(rt) })
		}
		r := &rbacv1.Role{Id: "mix", Gets: m.Lists[0], Lists: m.Lists[1], Creates: m.Lists[2], Updates: m.Lists[3], Deletes: m.Lists[4], Delivers: m.Lists[5]}
		want := true
		for i, l := range m.Lists {
			for _, x := range l {
				want = want && (i < 5 && contains(objects, x) || i == 5 && contains(transitions, x))
			}
		}
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint("creation ", want))
		rb := user.NewUsersFromString("rbac")
		var err error
		if pan := try(func() { err = rt.Deliver(rb, &rbacv1.MsgCreateRole{NewRole: proto.Clone(r).(*rbacv1.Role)}) }); pan != "" {
			return failf("panic", "creating the role %v panicked: %s", r, pan)
		}
		if want != (err == nil) {
			return failf(fmt.Sprintf("create-role-%v", want), "creating the role %v returned %v, want success=%v", r, err, want)
		}
		got := new(rbacv1.Role)
		gerr := rt.Get(meta.NewStringID("mix"), got)
		if want != (gerr == nil) || want && !proto.Equal(got, r) {
			return failf("role-state", "after creating the role %v (%v) there is %v (%v)", r, err, got, gerr)
		}
		if want {
			must(rt.Delete(rb, &rbacv1.Role{Id: "mix"}))
		}
		return nil
	})
	c08Names(c)
}

// roleMix are the lists of a role, per verb.
type roleMix struct{ Lists [6][]string }

// accBig is a runtime whose module owns many objects and handles many transitions.
type accBig struct {
	rt       *runtime.Runtime
	auth     authorization.Authorizer
	obj, tr  []*dynType
	g        Dump
	dbs      []*badger.DB
	executed int
}

const accMany = 66

var accBigTypes = sync.OnceValues(func() (obj, tr []*dynType) {
	f := []fieldSpec{{Name: "id", Type: tString}, {Name: "val", Type: tString}}
	var ms []*descriptorpb.DescriptorProto
	for i := 0; i < accMany; i++ {
		ms = append(ms, msgProto(fmt.Sprint("Obj", i), f...), external(msgProto(fmt.Sprint("T", i), f...), i%2 == 0))
	}
	fd := mustFile(fileProto("mc/accbig.proto", "mc.accbig", []string{"core/rbac/xt/rbac_extension.proto"}, ms...))
	for i := 0; i < accMany; i++ {
		obj = append(obj, registerType(newDynType(fd.Messages().ByName(protoName(fmt.Sprint("Obj", i))), dynObject)))
		tr = append(tr, registerType(newDynType(fd.Messages().ByName(protoName(fmt.Sprint("T", i))), dynTransition)))
	}
	return
})

func newAccBig() *accBig {
	a := new(accBig)
	a.obj, a.tr = accBigTypes()
	b := runtime.NewBuilder()
	b.AddModule(funcModule(func(c module.Client) module.Descriptor {
		d := rbac.NewModule().Initialize(c)
		a.auth = d.Authorizer
		return d
	}))
	b.AddModule(funcModule(func(c module.Client) module.Descriptor {
		d := module.NewDescriptorBuilder().Named("mcbig")
		for i := range a.obj {
			d.OwnsStateObject(a.obj[i].obj(), &schema.Definition{PrimaryKey: "id"})
			d.HandlesStateTransition(a.tr[i].trans(), statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
				a.executed++
				return statetransition.ExecutionResponse{}, nil
			}))
		}
		return d.Build()
	}))
	rt, err := b.Build()
	must(err)
	must(rt.InitGenesis())
	rt.EnableAuthorization()
	a.rt, a.dbs = rt, findDBs(rt)
	a.g = dump(a.dbs)
	return a
}

var accVerbs = []runtimev1alpha1.Verb{runtimev1alpha1.Verb_Get, runtimev1alpha1.Verb_List, runtimev1alpha1.Verb_Create, runtimev1alpha1.Verb_Update, runtimev1alpha1.Verb_Delete, runtimev1alpha1.Verb_Deliver}

// accRole grants the verb (of accVerbs) on the resources with these numbers.
func (a *accBig) role(id string, verb int, res ...int) *rbacv1.Role {
	r := &rbacv1.Role{Id: id}
	var l []string
	for _, i := range res {
		if verb == 5 {
			l = append(l, meta.Name(a.tr[i].trans()))
		} else {
			l = append(l, meta.Name(a.obj[i].obj()))
		}
	}
	switch verb {
	case 0:
		r.Gets = l
	case 1:
		r.Lists = l
	case 2:
		r.Creates = l
	case 3:
		r.Updates = l
	case 4:
		r.Deletes = l
	case 5:
		r.Delivers = l
	}
	return r
}

// allowed asks for every verb on resource i, of which only want (a bit mask) are granted.
func (a *accBig) allowed(us []string, i, want int, what string) *Fail {
	u := user.NewUsersFromString(us...)
	for v, verb := range accVerbs {
		var res meta.APIObject = a.obj[i].obj()
		if v == 5 {
			res = a.tr[i].trans()
		}
		d, err := a.auth.Authorize(authorization.NewAttributes(verb, res, u))
		if ok := want>>v&1 == 1; ok != (d == authorization.DecisionAllow && err == nil) {
			return failf(fmt.Sprintf("decision-%v", ok), "%s: %v of %s as %v is decided %v, %v, want allowed=%v", what, verb, meta.Name(res), us, d, err, ok)
		}
	}
	o := func(val string) meta.StateObject { return a.obj[i].obj().set("id", "p").set("val", val) }
	owner := user.NewUsersFromString("mcbig")
	bad := func(verb string, ok bool, err error) *Fail {
		return failf(fmt.Sprintf("many-%s-%v", verb, ok), "%s: %s of resource %d as %v returned %v, want allowed=%v", what, verb, i, us, err, ok)
	}
	err := a.rt.Create(u, o("new"))
	if ok := want>>2&1 == 1; ok != (err == nil) {
		return bad("create", ok, err)
	}
	if err != nil {
		must(a.rt.Create(owner, o("new")))
	}
	err = a.rt.Update(u, o("upd"))
	if ok := want>>3&1 == 1; ok != (err == nil) {
		return bad("update", ok, err)
	}
	err = a.rt.Delete(u, o(""))
	if ok := want>>4&1 == 1; ok != (err == nil) {
		return bad("delete", ok, err)
	}
	if err != nil {
		must(a.rt.Delete(owner, o("")))
	}
	n := a.executed
	err = a.rt.Deliver(u, a.tr[i].trans().set("id", "x"))
	if ok := want>>5&1 == 1; ok != (err == nil) || ok != (a.executed > n) {
		return bad("deliver", ok, err)
	}
	return nil
}

type accManyCase struct {
	manyCase
	Verb int
}

// c08Many: roles over many resources, sets of many users, many roles and bindings.
func c08Many(c *Ctx) {
	const kinds = 5
	Explore(c, "many", func(emit func(accManyCase) bool) {
		manyGen(sizesTo(accMany), kinds, nil, func(cs manyCase) bool {
			for v := range accVerbs {
				if (cs.N > 4 || cs.Kind == 4) && !c.Thorough && v != (cs.N+cs.At+cs.Kind+1)%6 {
					continue
				}
				if cs.N > 12 && !c.Thorough && cs.Kind != (cs.N+cs.At)%kinds && cs.At >= 0 {
					continue
				}
				if !emit(accManyCase{cs, v}) {
					return false
				}
			}
			return true
		})
	}, func(w *Worker, cs accManyCase) *Fail {
		a, ok := w.S["accbig"].(*accBig)
		if !ok {
			a = newAccBig()
			w.S["accbig"] = a
			w.OnClose(func() { closeDBs(a.rt) })
		}
		restore(a.dbs, a.g)
		rb := user.NewUsersFromString("rbac")
		what := fmt.Sprintf("%+v", cs)
		create := func(r *rbacv1.Role) {
			if cs.Kind == 0 && r.Id == "big" {
				must(a.rt.Deliver(rb, &rbacv1.MsgCreateRole{NewRole: r}))
				return
			}
			must(a.rt.Create(rb, r))
		}
		bind := func(s, r string) {
			if cs.N < 8 {
				must(a.rt.Deliver(rb, &rbacv1.MsgBindRole{Subject: s, RoleId: r}))
				return
			}
			must(a.rt.Create(rb, &rbacv1.RoleBinding{Subject: s, RoleRef: r}))
		}
		name := func(i int) string { return fmt.Sprint("u", i) }
		bit := 1 << cs.Verb
		p := cs.At
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		if cs.Kind == 0 {
			var l []int
			for i := 0; i < cs.N; i++ {
				if i != p {
					l = append(l, (i*5)%accMany)
				}
			}
			create(a.role("big", cs.Verb, l...))
			create(a.role("none", 0))
			bind("u", "big")
			bind("v", "none")
			ask := []int{0, accMany - 1, (cs.N * 5) % accMany}
			for _, i := range placesIn(cs.N) {
				if cs.N < 8 || i%4 == p%4 || i == p || c.Thorough {
					ask = append(ask, (i*5)%accMany)
				}
			}
			for _, i := range ask {
				want := 0
				for _, x := range l {
					if x == i {
						want = bit
					}
				}
				if f := a.allowed([]string{"u"}, i, want, what); f != nil {
					return f
				}
				if f := a.allowed([]string{"v", "u"}, i, want, what); f != nil {
					return f
				}
				if f := a.allowed([]string{"v"}, i, 0, what); f != nil {
					return f
				}
			}
			return nil
		}
		if cs.Kind == 4 { // each has a role of its own
			var all []string
			for i := 0; i < cs.N; i++ {
				create(a.role(fmt.Sprint("r", i), cs.Verb, i))
				bind(name(i), fmt.Sprint("r", i))
				all = append(all, name(i))
			}
			at := placesIn(cs.N)
			if len(at) > 6 && !c.Thorough {
				at = append([]int{0, cs.N - 1, p}, at[p%len(at)], at[(p+1)%len(at)])
			}
			for _, i := range at {
				want := 0
				if i == p {
					want = bit
				}
				if f := a.allowed([]string{name(p)}, i, want, what); f != nil {
					return f
				}
				if f := a.allowed(all, i, bit, what); f != nil {
					return f
				}
				if f := a.allowed(append([]string{"stranger"}, all...), i, 0, what); f != nil {
					return f
				}
			}
			must(a.rt.Delete(rb, &rbacv1.Role{Id: fmt.Sprint("r", p)}))
			if f := a.allowed(all, (p+1)%cs.N, 0, what+", without that role"); f != nil {
				return f
			}
			return nil
		}
		// a set of users, of which only one is granted something, or lacks its binding or role
		res := cs.N - 1
		create(a.role("none", 0))
		create(a.role("one", cs.Verb, res))
		create(a.role("gone", cs.Verb, res))
		var us []string
		for i := 0; i < cs.N; i++ {
			us = append(us, name(i))
			r := "none"
			if cs.Kind > 1 && i != p {
				r = "one"
			}
			switch {
			case i != p:
			case cs.Kind == 1:
				r = "one"
			case cs.Kind == 2:
				continue
			case cs.Kind == 3:
				r = "gone"
			}
			bind(name(i), r)
		}
		if cs.Kind == 3 {
			must(a.rt.Delete(rb, &rbacv1.Role{Id: "gone"}))
		}
		want := 0
		if cs.Kind == 1 && cs.N > 0 {
			want = bit
		}
		if f := a.allowed(us, res, want, what); f != nil {
			return f
		}
		switch cs.Kind {
		case 1:
			must(a.rt.Update(rb, a.role("one", cs.Verb)))
			want = 0
		case 2:
			bind(name(p), "none")
			want = bit
		case 3:
			create(a.role("gone", cs.Verb))
			want = bit
		}
		if cs.N == 1 {
			want = 0
		}
		return a.allowed(us, res, want, what+", afterwards")
	})
}

// c08Names: whose names are alike have the rights of none but their own roles, as have roles named alike.
func c08Names(c *Ctx) {
	base := []string{"u1", "system:u1"}
	var names []string
	seen := map[string]bool{}
	for _, b := range base {
		for _, x := range []string{b, " " + b, b + " ", "\t" + b, b + "\n", strings.ToUpper(b), b + b, b[:len(b)-1], b[1:], b + "1", "/" + b, b + "/", b + "/x", "x/" + b, "user:" + b, "system:" + b, "account:" + b, "module:" + b, b + ":x", b + "*", b + "," + "u2", "u2," + b, "[" + b + "]", b + "\x00", b + ".x", "x." + b, b + "@x", b + "#", "%" + b, "\"" + b + "\""} {
			if !seen[x] {
				seen[x] = true
				names = append(names, x)
			}
		}
	}
	for _, x := range []string{"*", "any", "anonymous", "<nil>", ".", "..", "u\u0661", "\u00fc1", "u\u03081", "\u212a", "K", "k"} {
		names = append(names, x)
	}
	type pairCase struct {
		A, B int
		Kind int // 0: B has no role, 1: B has another, 2: roles are named so, 3: so, and both of a group ask
	}
	Explore(c, "names alike", func(emit func(pairCase) bool) {
		for a := range names {
			for b := range names {
				for k := 0; k < 4; k++ {
					if a == b || !c.Thorough && (a != 0 && b != 0 && (a+b)%53 != k || (a+b+k)%2 == 0) {
						continue
					}
					if !emit(pairCase{a, b, k}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs pairCase) *Fail {
		a, ok := w.S["accbig"].(*accBig)
		if !ok {
			a = newAccBig()
			w.S["accbig"] = a
			w.OnClose(func() { closeDBs(a.rt) })
		}
		restore(a.dbs, a.g)
		rb := user.NewUsersFromString("rbac")
		x, y := names[cs.A], names[cs.B]
		what := fmt.Sprintf("%q and %q, %d", x, y, cs.Kind)
		verb := (cs.A + cs.B) % 6
		bit := 1 << verb
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		rx, ry, ux, uy := "r0", "r1", x, y
		if cs.Kind >= 2 {
			rx, ry, ux, uy = x, y, "u", "v"
		}
		must(a.rt.Deliver(rb, &rbacv1.MsgCreateRole{NewRole: a.role(rx, verb, 0)}))
		must(a.rt.Deliver(rb, &rbacv1.MsgBindRole{Subject: ux, RoleId: rx}))
		other := 0
		if cs.Kind > 0 {
			must(a.rt.Deliver(rb, &rbacv1.MsgCreateRole{NewRole: a.role(ry, verb, 1)}))
			must(a.rt.Deliver(rb, &rbacv1.MsgBindRole{Subject: uy, RoleId: ry}))
			other = bit
		}
		for i, want := range [][2]int{{bit, 0}, {0, other}} {
			if f := a.allowed([]string{ux}, i, want[0], what); f != nil {
				return f
			}
			if f := a.allowed([]string{uy}, i, want[1], what); f != nil {
				return f
			}
		}
		return nil
	})
}
