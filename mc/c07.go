package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	coremodule "github.com/fdymylja/tmos/core/module"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
)

func init() { register("C07", c07) }

// compFeatures are the things a module can declare; each is "verb:argument".
var compFeatures = []string{
	"noname",
	"handles:T1", "handles:T2", "handles:T1other", "handles:T1x", "handles:sys",
	"owns:O1", "owns:O2", "owns:O1other", "owns:sys",
	"needs:T1", "needs:T2", "needs:T1other", "needs:sys",
	"pre:T1", "pre:T2", "pre:sys",
	"post:T1", "post:T2", "post:sys",
	"admission:T1",
	"authorizer",
	"badobject:nopk", "badobject:nofield", "badobject:singletonpk",
	"service", "failgenesis", "failservice",
}

type compTypes struct {
	tr  map[string]*dynType
	obj map[string]*dynType
}

func compT() *compTypes {
	ct := &compTypes{map[string]*dynType{}, map[string]*dynType{}}
	acl := []string{"core/rbac/xt/rbac_extension.proto"}
	f := []fieldSpec{{Name: "id", Type: tString}}
	a := mustFile(fileProto("mc/comp.proto", "mc.comp", acl, external(msgProto("T1", f...), false), external(msgProto("T2", f...), true), external(msgProto("T1x", f...), true),
		msgProto("O1", f...), msgProto("O2", f...), msgProto("B1", f...), msgProto("B2", f...), msgProto("B3", f...)))
	b := mustFile(fileProto("mc/compx.proto", "mc.compx", append(acl, "mc/comp.proto"), external(msgProto("T1", f...), true), msgProto("O1", f...)))
	for _, n := range []string{"T1", "T2", "T1x"} {
		ct.tr[n] = registerType(newDynType(a.Messages().ByName(protoName(n)), dynTransition))
	}
	for _, n := range []string{"O1", "O2", "B1", "B2", "B3"} {
		ct.obj[n] = registerType(newDynType(a.Messages().ByName(protoName(n)), dynObject))
	}
	ct.tr["T1other"] = registerType(newDynType(b.Messages().ByName("T1"), dynTransition))
	ct.obj["O1other"] = registerType(newDynType(b.Messages().ByName("O1"), dynObject))
	return ct
}

var compTypesV = compT

func (ct *compTypes) trans(n string) meta.StateTransition {
	if n == "sys" {
		return &runtimev1.CreateModuleDescriptors{}
	}
	return ct.tr[n].trans()
}

// compCase lists the features of each module, in order.
type compCase struct{ Mods [][]string }

func (cs compCase) has(f string) (n int) {
	for _, m := range cs.Mods {
		for _, x := range m {
			if x == f {
				n++
			}
		}
	}
	return
}

// builds tells whether the modules compose, by the property.
func (cs compCase) builds() (bool, string) {
	handled := map[string]int{"sys": 1}
	owned := map[string]int{"sys": 1}
	auth := map[int]bool{}
	for i, m := range cs.Mods {
		for _, f := range m {
			v := strings.SplitN(f, ":", 2)
			switch v[0] {
			case "noname":
				return false, "no name"
			case "handles":
				handled[v[1]]++
			case "owns":
				owned[v[1]]++
			case "badobject":
				return false, "bad object"
			case "authorizer":
				auth[i] = true
			}
		}
	}
	if len(auth) > 1 {
		return false, "two authorizers"
	}
	for n, k := range handled {
		if k > 1 {
			return false, n + " handled twice"
		}
	}
	for n, k := range owned {
		if k > 1 {
			return false, n + " owned twice"
		}
	}
	for _, m := range cs.Mods {
		for _, f := range m {
			v := strings.SplitN(f, ":", 2)
			if (v[0] == "needs" || v[0] == "pre" || v[0] == "post") && handled[v[1]] == 0 {
				return false, f + " is not handled"
			}
		}
	}
	return true, ""
}

type compGenesis struct {
	f func() error
}

func (g compGenesis) Default() error                   { return g.f() }
func (g compGenesis) Import(json.RawMessage) error     { return nil }
func (g compGenesis) Export() (json.RawMessage, error) { return nil, nil }

type compService struct {
	name  string
	start func() error
	stop  func() error
	setc  func(client.Client)
}

func (s *compService) Name() string { return s.name }
func (s *compService) SetClient(c client.Client) {
	if s.setc != nil {
		s.setc(c)
	}
}
func (s *compService) Start() error { return s.start() }
func (s *compService) Stop() error {
	if s.stop != nil {
		return s.stop()
	}
	return nil
}

type allowAll struct{}

func (allowAll) Authorize(authorization.Attributes) (authorization.Decision, error) {
	return authorization.DecisionAllow, nil
}

func runComp(w *Worker, cs compCase) *Fail {
	ct := compTypesV()
	var trace []string
	hit := func(s string) { trace = append(trace, s) }
	b := runtime.NewBuilder()
	defer func() { closeDBs(b) }()
	type expect struct {
		name               string
		objs, trans, needs []string
	}
	var exps []expect
	for i, feats := range cs.Mods {
		i, feats := i, feats
		e := expect{name: fmt.Sprintf("m%d", i)}
		b.AddModule(funcModule(func(c module.Client) module.Descriptor {
			d := module.NewDescriptorBuilder()
			name := e.name
			var pres []string
			fg, fs := false, false
			for _, f := range feats {
				v := strings.SplitN(f, ":", 2)
				switch v[0] {
				case "noname":
					name = ""
				case "name":
					name, e.name = v[1], v[1]
				case "handles":
					t := ct.trans(v[1])
					e.trans = append(e.trans, meta.Name(t))
					d.HandlesStateTransition(t, statetransition.ExecutionHandlerFunc(func(r statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
						hit(fmt.Sprintf("exec %d %s", i, meta.Name(r.Transition)))
						return statetransition.ExecutionResponse{}, nil
					}))
				case "owns":
					var o meta.StateObject = &runtimev1.ModuleDescriptors{}
					def := runtimev1.ModuleDescriptorsSchema
					if v[1] != "sys" {
						o, def = ct.obj[v[1]].obj(), &schema.Definition{PrimaryKey: "id"}
					}
					e.objs = append(e.objs, meta.Name(o))
					d.OwnsStateObject(o, def)
				case "needs":
					e.needs = append(e.needs, meta.Name(ct.trans(v[1])))
					d.NeedsStateTransition(ct.trans(v[1]))
				case "pre":
					pres = append(pres, v[1])
				case "post":
					d.WithPostStateTransitionHandler(ct.trans(v[1]), statetransition.PostExecutionHandlerFunc(func(statetransition.PostExecutionRequest) error { return nil }))
				case "admission":
					d.HandlesAdmission(ct.trans(v[1]), statetransition.AdmissionHandlerFunc(func(statetransition.AdmissionRequest) error { return nil }))
				case "authorizer":
					d.IsAuthorizer(allowAll{})
				case "badobject":
					switch v[1] {
					case "nopk":
						d.OwnsStateObject(ct.obj["B1"].obj(), &schema.Definition{})
					case "nofield":
						d.OwnsStateObject(ct.obj["B2"].obj(), &schema.Definition{PrimaryKey: "absent"})
					case "singletonpk":
						d.OwnsStateObject(ct.obj["B3"].obj(), &schema.Definition{Singleton: true, PrimaryKey: "id"})
					}
				case "failgenesis":
					fg = true
				case "failservice":
					fs = true
				}
			}
			// every module has a genesis; services only on request
			d.WithGenesis(compGenesis{func() error {
				hit(fmt.Sprintf("genesis %d", i))
				if fg {
					return fmt.Errorf("genesis refused")
				}
				return nil
			}})
			if fs || contains(feats, "service") {
				d.WithExtensionService(&compService{name: "svc", start: func() error {
					hit(fmt.Sprintf("start %d", i))
					if fs {
						return fmt.Errorf("service refused")
					}
					return nil
				}})
			}
			desc := d.Named(name).Build()
			for _, p := range pres {
				addPreExec(&desc, ct.trans(p), statetransition.PreExecutionHandlerFunc(func(statetransition.PreExecutionRequest) error { return nil }))
			}
			return desc
		}))
		exps = append(exps, e)
	}
	var rt *runtime.Runtime
	var err error
	if pan := try(func() { rt, err = b.Build() }); pan != "" {
		return failf("build-panic", "building %v panicked: %s", cs.Mods, pan)
	}
	want, why := cs.builds()
	addN(&w.C.Traces, 1)
	if want != (err == nil) {
		return failf("build-"+fmt.Sprint(want), "building %v returned %v, want success=%v %s", cs.Mods, err, want, why)
	}
	if err != nil {
		w.C.State("refused " + why)
		return nil
	}
	if len(trace) > 0 {
		return failf("build-ran", "building ran %v", trace)
	}
	// genesis
	dbs := findDBs(rt)
	if len(dbs) == 0 {
		hp("no databases in the runtime")
	}
	var wantTrace []string
	failed := false
	for i, m := range cs.Mods {
		wantTrace = append(wantTrace, fmt.Sprintf("genesis %d", i))
		if contains(m, "failgenesis") {
			failed = true
			break
		}
	}
	genesisDone := !failed
	if !failed {
		for i, m := range cs.Mods {
			if contains(m, "service") || contains(m, "failservice") {
				wantTrace = append(wantTrace, fmt.Sprintf("start %d", i))
			}
			if contains(m, "failservice") {
				failed = true
				break
			}
		}
	}
	addN(&w.C.Transitions, 1)
	if pan := try(func() { err = rt.InitGenesis() }); pan != "" {
		return failf("genesis-panic", "InitGenesis of %v panicked: %s", cs.Mods, pan)
	}
	if strings.Join(trace, ",") != strings.Join(wantTrace, ",") {
		return failf("genesis-order", "InitGenesis of %v ran %v, want %v", cs.Mods, trace, wantTrace)
	}
	if failed != (err != nil) {
		return failf("genesis-result", "InitGenesis of %v ran %v and returned %v", cs.Mods, trace, err)
	}
	w.C.State(strings.Join(trace, ","))
	if !genesisDone {
		return nil
	}
	md := new(runtimev1.ModuleDescriptors)
	if err := rt.Get(meta.SingletonID, md); err != nil {
		return failf("descriptors", "module descriptors after genesis: %v", err)
	}
	pub := map[string]*coremodule.Descriptor{}
	for _, m := range md.Modules {
		if pub[m.Name] != nil {
			return failf("descriptors", "module %s is published twice", m.Name)
		}
		pub[m.Name] = m
	}
	if len(pub) != len(cs.Mods)+2 {
		return failf("descriptors", "%d modules published, want %d and the two system modules", len(pub), len(cs.Mods))
	}
	for _, e := range exps {
		p := pub[e.name]
		if p == nil {
			return failf("descriptors", "module %s is not published", e.name)
		}
		var o, t, n []string
		for _, x := range p.StateObjects {
			o = append(o, x.ApiDefinition.Name())
		}
		for _, x := range p.StateTransitions {
			t = append(t, x.ApiDefinition.Name())
		}
		for _, x := range p.RequiredResources {
			n = append(n, x.Resource.Name())
		}
		if fmt.Sprint(sorted(o), sorted(t), sorted(n)) != fmt.Sprint(sorted(e.objs), sorted(e.trans), sorted(e.needs)) {
			return failf("descriptors", "module %s is published with %v %v %v, want %v %v %v", e.name, o, t, n, e.objs, e.trans, e.needs)
		}
	}
	before := dump(dbs)
	n := len(trace)
	if pan := try(func() { err = rt.InitGenesis() }); pan != "" {
		return failf("second-genesis", "a second InitGenesis panicked: %s", pan)
	}
	if err == nil || len(trace) != n {
		return failf("second-genesis", "a second InitGenesis returned %v and ran %v", err, trace[n:])
	}
	if after := dump(dbs); !before.equal(after) {
		return failf("second-genesis", "a second InitGenesis changed the state:%s", before.diff(after))
	}
	return nil
}

func sorted(s []string) []string { s = append([]string{}, s...); sort.Strings(s); return s }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func c07(c *Ctx) {
	compTypesV = func() func() *compTypes { v := compT(); return func() *compTypes { return v } }()
	c.Rule = "every placement of up to three (two in part in the quick tier) declarations out of 28 kinds into three ordered modules is built and compared with the composition rule; those that build run genesis twice, with the handler trace, the published descriptors and the stored state compared; up to 66 modules with two that declare at every two places"
	nf := len(compFeatures)
	mk := func(pl ...int) compCase {
		cs := compCase{Mods: make([][]string, 3)}
		for _, p := range pl {
			m := p / nf
			cs.Mods[m] = append(cs.Mods[m], compFeatures[p%nf])
		}
		return cs
	}
	Explore(c, "small", func(emit func(compCase) bool) {
		emit(compCase{})
		for i := 0; i < nf; i++ {
			emit(compCase{Mods: [][]string{{compFeatures[i]}}})
		}
		for i := 0; i < nf*3; i++ {
			emit(mk(i))
		}
	}, runComp)
	Explore(c, "pairs", func(emit func(compCase) bool) {
		for i := 0; i < nf*3; i++ {
			for j := i; j < nf*3; j++ {
				if !emit(mk(i, j)) {
					return
				}
			}
		}
	}, runComp)
	// triples around one handled transition: the handler in any module, two more declarations
	Explore(c, "triples", func(emit func(compCase) bool) {
		for h := 0; h < 3; h++ {
			for i := 0; i < nf*3; i++ {
				for j := i; j < nf*3; j++ {
					fi, fj := compFeatures[i%nf], compFeatures[j%nf]
					if !c.Thorough && !(strings.Contains(fi, "T1") && strings.Contains(fj, "T1")) {
						continue
					}
					if c.Thorough && fi == "noname" {
						continue
					}
					if !emit(mk(h*nf+1, i, j)) {
						return
					}
				}
			}
		}
	}, runComp)
	// names of every sort: only the empty one is none
	names := []string{" ", "\t", "\u00a0", "0", "-", "_", ".", "..", "/", "a/b", "a b", " a", "a ", "A", "a", "nil", "null", "none", "ä", "\u0000", "%s", "a:b", "m1", "m10", strings.Repeat("n", 255), strings.Repeat("n", 300)}
	Explore(c, "names", func(emit func(compCase) bool) {
		for i, n := range names {
			for j, x := range names {
				if n == x {
					continue
				}
				for k := 0; k < 3; k++ {
					if !c.Thorough && (i+j)%3 != k {
						continue
					}
					a, b := []string{"name:" + n, "handles:T1"}, []string{"name:" + x, "owns:O1", "needs:T1"}
					cs := compCase{[][]string{a, b}}
					switch k {
					case 1:
						cs.Mods = [][]string{b, a, {"service"}}
					case 2:
						cs.Mods = [][]string{a, {"noname", "post:T1"}, b}
					}
					if !emit(cs) {
						return
					}
				}
			}
		}
	}, runComp)
	manyModules(c)
}
