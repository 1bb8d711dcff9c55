package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/fdymylja/tmos/core/meta"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

func init() { register("C38", c38) }

const (
	doCreate = iota
	doUpdate
	doDelete
	doDeliver
)

// action is what a module does through its client. A delivered transition runs Body in the
// handler of the stage named.
type action struct {
	Verb   int
	To     int      `json:",omitempty"` // number of the object or transition
	Imp    []string `json:",omitempty"` // users it impersonates
	NoImp  bool     `json:",omitempty"` // the option is not given at all
	Stage  int      `json:",omitempty"`
	Ignore bool     `json:",omitempty"` // the module goes on when it fails
	Body   []action `json:",omitempty"`
}

const (
	stAdm = iota
	stPre
	stExec
	stPost
)

var stageNames = []string{"adm", "pre", "exec", "post"}

// identApp is a runtime whose modules do as the script says.
type identApp struct {
	rt      *runtime.Runtime
	names   []string
	obj, tr []*dynType
	cls     []module.Client
	nodes   map[string]*action
	trace   []string
	asked   int
	deny    int // number of the question that is answered with a refusal
	auth    bool
	genesis map[int][]action
}

const identMany = 66

var identMu sync.Mutex

var identTypesOf = func() func(n int) (obj, tr []*dynType) {
	var obj, tr []*dynType
	done := false
	return func(n int) ([]*dynType, []*dynType) {
		identMu.Lock()
		defer identMu.Unlock()
		if !done {
			done = true
			var ms []*descriptorpb.DescriptorProto
			f := []fieldSpec{{Name: "id", Type: tString}, {Name: "val", Type: tString}}
			for i := 0; i < identMany; i++ {
				ms = append(ms, msgProto(fmt.Sprint("O", i), f...), external(msgProto(fmt.Sprint("T", i), fieldSpec{Name: "tag", Type: tString}), i%2 == 0))
			}
			fd := mustFile(fileProto("mc/ident.proto", "mc.ident", []string{"core/rbac/xt/rbac_extension.proto"}, ms...))
			for i := 0; i < identMany; i++ {
				obj = append(obj, registerType(newDynType(fd.Messages().ByName(protoreflect.Name(fmt.Sprint("O", i))), dynObject)))
				tr = append(tr, registerType(newDynType(fd.Messages().ByName(protoreflect.Name(fmt.Sprint("T", i))), dynTransition)))
			}
		}
		return obj[:n], tr[:n]
	}
}()

// actor is the module whose handler runs a stage of transition t.
func (a *identApp) actor(t, stage int) int {
	switch stage {
	case stPre:
		return (t + 1) % len(a.names)
	case stPost:
		return (t + 2) % len(a.names)
	}
	return t
}

func (a *identApp) Authorize(at authorization.Attributes) (authorization.Decision, error) {
	what := ""
	switch r := at.Resource.(type) {
	case *DynTrans:
		what = r.str("tag")
	case *DynObj:
		what = fmt.Sprint(r.get("id"), "=", r.get("val"))
	}
	line := fmt.Sprintf("authz %v %s(%s)[%s]", at.Verb, meta.Name(at.Resource), usersText(at.Users), what)
	// asked again about the same is not another action
	if len(a.trace) == 0 || a.trace[len(a.trace)-1] != line {
		a.trace = append(a.trace, line)
		a.asked++
	}
	if a.asked-1 == a.deny {
		return authorization.DecisionDeny, fmt.Errorf("denied")
	}
	return authorization.DecisionAllow, nil
}

func (a *identApp) hit(stage, t int, u user.Users, st meta.StateTransition) error {
	tag := st.(*DynTrans).str("tag")
	a.trace = append(a.trace, fmt.Sprintf("%s%d(%s)[%s]", stageNames[stage], t, usersText(u), tag))
	if n := a.nodes[tag]; n != nil && n.Stage == stage {
		return a.run(a.actor(t, stage), n.Body, tag)
	}
	return nil
}

func (a *identApp) run(mod int, body []action, path string) error {
	for i := range body {
		p := fmt.Sprint(path, ".", i)
		err := a.do(mod, &body[i], p)
		a.trace = append(a.trace, fmt.Sprintf("%s:%v", p, err == nil))
		if err != nil && !body[i].Ignore {
			return err
		}
	}
	return nil
}

func (a *identApp) object(to int, path string) *DynObj {
	return a.obj[to].obj().set("id", "p").set("val", path)
}

func (a *identApp) do(mod int, n *action, path string) error {
	cl := a.cls[mod]
	switch n.Verb {
	case doCreate:
		return cl.Create(a.object(n.To, path))
	case doUpdate:
		return cl.Update(a.object(n.To, path))
	case doDelete:
		return cl.Delete(a.object(n.To, path))
	}
	a.nodes[path] = n
	tr := a.tr[n.To].trans().set("tag", path)
	if n.NoImp {
		return cl.Deliver(tr)
	}
	names := append([]string{}, n.Imp...)
	err := cl.Deliver(tr, client.DeliverImpersonating(names...))
	return err
}

// identWant is the model: the trace that the property asks for.
type identWant struct {
	a      *identApp
	trace  []string
	asked  int
	deny   int
	exists map[int]bool
}

func (w *identWant) ask(verb runtimev1.Verb, name, users, what string) bool {
	if !w.a.auth {
		return true
	}
	w.trace = append(w.trace, fmt.Sprintf("authz %v %s(%s)[%s]", verb, name, users, what))
	w.asked++
	return w.asked-1 != w.deny
}

func (w *identWant) run(mod int, body []action, path string) bool {
	for i := range body {
		p := fmt.Sprint(path, ".", i)
		ok := w.do(mod, &body[i], p)
		w.trace = append(w.trace, fmt.Sprintf("%s:%v", p, ok))
		if !ok && !body[i].Ignore {
			return false
		}
	}
	return true
}

func (w *identWant) do(mod int, n *action, path string) bool {
	self := w.a.names[mod]
	name := meta.Name(w.a.obj[n.To].obj())
	switch n.Verb {
	case doCreate:
		if !w.ask(runtimev1.Verb_Create, name, self, "p="+path) || w.exists[n.To] {
			return false
		}
		w.exists[n.To] = true
		return true
	case doUpdate:
		return w.ask(runtimev1.Verb_Update, name, self, "p="+path) && w.exists[n.To]
	case doDelete:
		if !w.ask(runtimev1.Verb_Delete, name, self, "p="+path) || !w.exists[n.To] {
			return false
		}
		w.exists[n.To] = false
		return true
	}
	set := []string{self}
	if !n.NoImp {
		set = append(set, n.Imp...)
	}
	return w.deliver(n, set, path)
}

func distinctText(set []string) string {
	m := map[string]bool{}
	for _, s := range set {
		m[s] = true
	}
	l := sortedKeys(m)
	sort.Strings(l)
	return strings.Join(l, "+")
}

func (w *identWant) deliver(n *action, set []string, path string) bool {
	users := distinctText(set)
	for stage := stAdm; stage <= stPost; stage++ {
		if stage == stPre && !w.ask(runtimev1.Verb_Deliver, meta.Name(w.a.tr[n.To].trans()), users, path) {
			return false
		}
		w.trace = append(w.trace, fmt.Sprintf("%s%d(%s)[%s]", stageNames[stage], n.To, users, path))
		if stage == n.Stage && !w.run(w.a.actor(n.To, stage), n.Body, path) {
			return false
		}
	}
	return true
}

type identGenesis struct {
	a *identApp
	m int
}

func (g identGenesis) Default() error {
	return g.a.run(g.m, g.a.genesis[g.m], fmt.Sprint("g", g.m))
}
func (identGenesis) Import(json.RawMessage) error     { return nil }
func (identGenesis) Export() (json.RawMessage, error) { return nil, nil }

// newIdentApp builds the modules with these names; their genesis does what is said there.
func newIdentApp(names []string, genesis map[int][]action) *identApp {
	n := len(names)
	a := &identApp{names: names, nodes: map[string]*action{}, deny: -1, genesis: genesis}
	a.obj, a.tr = identTypesOf(n)
	a.cls = make([]module.Client, n)
	b := runtime.NewBuilder()
	for m := range names {
		m := m
		b.AddModule(funcModule(func(c module.Client) module.Descriptor {
			a.cls[m] = c
			d := module.NewDescriptorBuilder().Named(names[m]).WithGenesis(identGenesis{a, m}).
				OwnsStateObject(a.obj[m].obj(), &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"val"}}).
				HandlesStateTransition(a.tr[m].trans(), statetransition.ExecutionHandlerFunc(func(r statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
					return statetransition.ExecutionResponse{}, a.hit(stExec, m, r.Users, r.Transition)
				})).
				HandlesAdmission(a.tr[m].trans(), statetransition.AdmissionHandlerFunc(func(r statetransition.AdmissionRequest) error {
					return a.hit(stAdm, m, r.Users, r.Transition)
				}))
			// the pre-execution handler of the previous transition and the post-execution handler of the one before
			t2 := (m + 2*n - 2) % n
			d.WithPostStateTransitionHandler(a.tr[t2].trans(), statetransition.PostExecutionHandlerFunc(func(r statetransition.PostExecutionRequest) error {
				return a.hit(stPost, t2, r.Users, r.Transition)
			}))
			if m == n/2 {
				d.IsAuthorizer(a)
			}
			desc := d.Build()
			t1 := (m + n - 1) % n
			addPreExec(&desc, a.tr[t1].trans(), statetransition.PreExecutionHandlerFunc(func(r statetransition.PreExecutionRequest) error {
				return a.hit(stPre, t1, r.Users, r.Transition)
			}))
			return desc
		}))
	}
	rt, err := b.Build()
	must(err)
	a.rt = rt
	return a
}

// pooledIdent is the worker's app of a layout, the last one it used is kept.
func pooledIdent(w *Worker, layout string, names []string) *identApp {
	if w.S["ident-layout"] == layout {
		return w.S["ident"].(*identApp)
	}
	dropIdent(w)
	a := newIdentApp(names, nil)
	if _, ok := w.S["ident-layout"]; !ok {
		w.OnClose(func() { dropIdent(w) })
	}
	w.S["ident"], w.S["ident-layout"] = a, layout
	return a
}

func dropIdent(w *Worker) {
	if a, ok := w.S["ident"].(*identApp); ok {
		closeDBs(a.rt)
		w.S["ident"], w.S["ident-layout"] = nil, ""
	}
}

// identCase is a transition delivered from outside and what follows from it.
type identCase struct {
	Layout int
	Root   int
	Act    action
	Deny   int
}

var identLayouts = [][]string{
	{"mod-a", "mod-b", "mod-c"},
	{"m", "mm", "m.m"},
	{"system:abci", "system:runtime", "u1"},
	{"x", "X", "x "},
	{"external_account", "rbac", "*"},
}

const identRoots = 7

// root delivers the outermost transition.
func (a *identApp) root(kind int, n *action) (set []string, f func() error) {
	tr := a.tr[n.To].trans().set("tag", "r")
	a.nodes["r"] = n
	rt := func(us ...string) ([]string, func() error) {
		return us, func() error { return a.rt.Deliver(user.NewUsersFromString(us...), tr) }
	}
	switch kind {
	case 0:
		return rt("u1", "u2")
	case 1:
		return rt()
	case 2:
		return rt(a.names[0])
	case 3:
		return []string{a.names[1]}, func() error { return a.cls[1].Deliver(tr) }
	case 4:
		return []string{a.names[1], "x", "u1"}, func() error { return a.cls[1].Deliver(tr, client.DeliverImpersonating("x", "u1")) }
	case 5:
		return rt(a.names...)
	}
	return rt("system:runtime")
}

func (a *identApp) try(cs identCase) *Fail {
	a.nodes = map[string]*action{}
	a.trace, a.asked, a.deny, a.auth = nil, 0, cs.Deny, true
	a.rt.EnableAuthorization()
	w := &identWant{a: a, deny: cs.Deny, exists: map[int]bool{}}
	set, f := a.root(cs.Root, &cs.Act)
	ok := w.deliver(&cs.Act, set, "r")
	var err error
	if pan := try(func() { err = f() }); pan != "" {
		return failf("panic", "%+v panicked: %s", cs.Act, pan)
	}
	if fl := sameTrace(a.trace, w.trace); fl != nil {
		return fl
	}
	if ok != (err == nil) {
		return failf("result", "the delivery returned %v, want success=%v after %v", err, ok, a.trace)
	}
	a.rt.DisableAuthorization()
	for i := range a.obj {
		got := a.obj[i].obj()
		gerr := a.rt.Get(meta.NewStringID("p"), got)
		if w.exists[i] != (gerr == nil) {
			return failf("state", "object %d afterwards: %v, want exists=%v; %v", i, gerr, w.exists[i], a.trace)
		}
		if gerr == nil {
			must(a.rt.Delete(user.NewUsersFromString("cleanup"), got))
		}
	}
	return nil
}

func sameTrace(got, want []string) *Fail {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, x := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			x = want[i]
		}
		if g == x {
			continue
		}
		key := "steps"
		cut := func(s string) string {
			if j, k := strings.IndexByte(s, '('), strings.IndexByte(s, ')'); j >= 0 && k > j {
				return s[:j] + s[k:]
			}
			return s
		}
		if cut(g) == cut(x) {
			key = "users"
		}
		if strings.HasPrefix(x, "authz") && !strings.HasPrefix(g, "authz") {
			key = "not-asked"
		}
		return failf(key, "step %d is %s, want %s\n  all: %v", i, g, x, got)
	}
	return nil
}

// impSets are what module m may impersonate.
func impSets(names []string, m int) [][]string {
	self, nx := names[m], names[(m+1)%len(names)]
	return [][]string{{}, {"x"}, {"x", "y"}, {self}, {nx}, {nx, "x", self}, {"x", "x"}, {""}, {"system:runtime"}, {"u1"}}
}

// leaves are the single actions of module m.
func leaves(names []string, m, max int) []action {
	n := len(names)
	out := []action{{Verb: doCreate, To: m}, {Verb: doDeliver, To: (m + 1) % n, NoImp: true, Stage: stExec}, {Verb: doDelete, To: m}, {Verb: doUpdate, To: m},
		{Verb: doDeliver, To: m, Imp: []string{"x"}, Stage: stExec}, {Verb: doCreate, To: (m + 1) % n}, {Verb: doDelete, To: (m + 1) % n, Ignore: true}, {Verb: doUpdate, To: (m + 1) % n, Ignore: true}}
	for to := 0; to < n && to < 3; to++ {
		out = append(out, action{Verb: doDeliver, To: (m + to) % n, NoImp: true, Stage: stExec})
		for _, s := range impSets(names, m) {
			out = append(out, action{Verb: doDeliver, To: (m + to) % n, Imp: s, Stage: stExec})
		}
	}
	if len(out) > max {
		out = out[:max]
	}
	return out
}

func c38(c *Ctx) {
	c.Rule = "every script of actions (two in a row; one around and after a nested delivery; chains of nested deliveries), of every module, in every handler stage, with every set of impersonated users, from every kind of caller, with every question to the authorizer refused in turn and the refusal passed on or ignored, under names that collide with others; up to 66 users, modules and levels; the genesis of modules; reads at heights"
	for _, l := range identLayouts {
		identTypesOf(len(l))
	}
	run := func(w *Worker, cs identCase) *Fail {
		a := pooledIdent(w, fmt.Sprint(cs.Layout), identLayouts[cs.Layout])
		f := a.try(cs)
		if f != nil { // what it left behind is not known
			dropIdent(w)
		}
		addN(&c.Transitions, len(a.trace))
		addN(&c.Traces, 1)
		c.State(strings.Join(a.trace, " "))
		return f
	}
	actorOf := func(t, stage int) int { return (&identApp{names: identLayouts[0]}).actor(t, stage) }
	Explore(c, "actions", func(emit func(identCase) bool) {
		for l := range identLayouts {
			for r := 0; r < identRoots; r++ {
				for stage := stAdm; stage <= stPost; stage++ {
					for t := 0; t < 3; t++ {
						ls := leaves(identLayouts[l], actorOf(t, stage), 99)
						for i, x := range ls {
							for j, y := range ls {
								if (l > 0 || r > 0) && !c.Thorough && (i+j)%7 != (l+r+t+stage)%7 {
									continue
								}
								if !emit(identCase{l, r, action{Verb: doDeliver, To: t, Stage: stage, Body: []action{x, y}}, -1}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, run)
	few := most(c, 10, 20)
	Explore(c, "nested", func(emit func(identCase) bool) {
		for l := range identLayouts {
			names := identLayouts[l]
			for r := 0; r < identRoots; r++ {
				for t := 0; t < 3; t++ {
					for stage := stAdm; stage <= stPost; stage++ {
						m := actorOf(t, stage)
						for si, s := range impSets(names, m) {
							for to := 0; to < 3; to++ {
								for st := stAdm; st <= stPost; st++ {
									if !c.Thorough && (si+to+st+r+stage)%9 != l {
										continue
									}
									for i, x := range leaves(names, actorOf(to, st), few) {
										for j, y := range leaves(names, m, few) {
											if !c.Thorough && (i*3+j+t)%5 != 0 {
												continue
											}
											in := action{Verb: doDeliver, To: to, Imp: s, Stage: st, Ignore: (i+j)%2 == 0, Body: []action{x}}
											if !emit(identCase{l, r, action{Verb: doDeliver, To: t, Stage: stage, Body: []action{in, y}}, -1}) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}, run)
	// chains of three nested deliveries with something after each, and one question refused
	Explore(c, "chains", func(emit func(identCase) bool) {
		names := identLayouts[0]
		wordsLen(9, 3, func(ix []int) bool {
			for _, stage := range []int{stExec, stPost} {
				for after := 0; after < 4; after++ {
					for deny := -1; deny < 9; deny++ {
						for ign := 0; ign < 4; ign++ {
							if !c.Thorough && (deny < 0 && ign > 0 || stage == stPost && ign%3 != 0) {
								continue
							}
							var build func(d, m int) []action
							build = func(d, m int) []action {
								if d == 3 {
									return []action{{Verb: doCreate, To: m}}
								}
								to := ix[d] % 3
								n := action{Verb: doDeliver, To: to, Stage: stage, Ignore: ign>>(d%2)&1 == 1}
								switch ix[d] / 3 {
								case 0:
									n.NoImp = true
								case 1:
									n.Imp = []string{fmt.Sprint("i", d)}
								case 2:
									n.Imp = []string{names[(m+2)%3], "i"}
								}
								n.Body = build(d+1, actorOf(to, stage))
								out := []action{n}
								switch after {
								case 1:
									out = append(out, action{Verb: doUpdate, To: m, Ignore: true})
								case 2:
									out = append(out, action{Verb: doDeliver, To: m, NoImp: true, Stage: stExec})
								case 3:
									out = append(out, action{Verb: doDeliver, To: m, Imp: []string{"after"}, Stage: stExec})
								}
								return out
							}
							if !emit(identCase{0, ix[0] % identRoots, action{Verb: doDeliver, To: 0, Stage: stage, Body: build(0, actorOf(0, stage))}, deny}) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}, run)
	identLong(c)
	identGeneses(c)
	identHeights(c)
}

// identLong: many users, modules, actions and levels.
func identLong(c *Ctx) {
	size := most(c, identMany, identMany)
	Explore(c, "many", func(emit func(manyCase) bool) {
		// those which share an app come together
		manyGen(sizesTo(size), 4, nil, emit)
		manyGen(sizesTo(size), 1, nil, func(cs manyCase) bool {
			cs.Kind = 4
			return emit(cs)
		})
	}, func(w *Worker, cs manyCase) *Fail {
		names := identLayouts[0]
		layout := "0"
		if cs.Kind == 4 { // the module at the place acts among as many
			names = nil
			for i := 0; i < cs.N; i++ {
				names = append(names, fmt.Sprint("mod", i))
			}
			layout = fmt.Sprint("many", cs.N)
		}
		a := pooledIdent(w, layout, names)
		p := cs.At
		if p < 0 {
			p = cs.N / 2
		}
		at := 0
		root := 0
		body := []action{{Verb: doCreate, To: 0}, {Verb: doDeliver, To: 1 % len(names), NoImp: true, Stage: stExec}}
		switch cs.Kind {
		case 0, 1: // many impersonated users, one of them the module itself or given twice
			var l []string
			for i := 0; i < cs.N; i++ {
				x := fmt.Sprint("user", (i*7)%cs.N)
				if i == cs.At && cs.Kind == 0 {
					x = names[0]
				}
				if i == cs.At && cs.Kind == 1 {
					x = fmt.Sprint("user", 0)
				}
				l = append(l, x)
			}
			body = append([]action{{Verb: doDeliver, To: 1, Imp: l, Stage: stExec, Body: []action{{Verb: doDeliver, To: 2, NoImp: true, Stage: stExec}}}}, body...)
		case 2: // many actions, one of them with impersonated users
			body = nil
			for i := 0; i < cs.N; i++ {
				n := action{Verb: doDeliver, To: i % 3, NoImp: true, Stage: stExec}
				if i == cs.At {
					n.NoImp, n.Imp = false, []string{"x", "y"}
				}
				body = append(body, n)
			}
		case 3: // many levels, at one of them with impersonated users
			n := action{Verb: doCreate, To: 0}
			for i := cs.N - 1; i >= 0; i-- {
				o := action{Verb: doDeliver, To: (i + 1) % 3, NoImp: true, Stage: stExec, Body: []action{n}}
				if i == cs.At {
					o.NoImp, o.Imp = false, []string{"x"}
				}
				n = o
			}
			body = []action{n, {Verb: doCreate, To: 1}}
		case 4:
			at = p
			if len(names) < 3 {
				return nil
			}
			body = []action{{Verb: doCreate, To: at}, {Verb: doDeliver, To: (at + 1) % len(names), Imp: []string{names[(at+2)%len(names)]}, Stage: stExec}, {Verb: doDelete, To: at}, {Verb: doUpdate, To: 0, Ignore: true}}
		}
		f := a.try(identCase{0, root, action{Verb: doDeliver, To: at, Stage: stExec, Body: body}, -1})
		addN(&c.Transitions, len(a.trace))
		addN(&c.Traces, 1)
		if f != nil {
			dropIdent(w)
		}
		return f
	})
}

// identGeneses: what modules do while the state is initialised, when nobody is authorized yet.
func identGeneses(c *Ctx) {
	type gcase struct {
		Layout, A, B int
		Nested       bool
	}
	Explore(c, "genesis", func(emit func(gcase) bool) {
		n := len(leaves(identLayouts[0], 0, 99))
		for l := range identLayouts {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if (i+j)%11 != l && !(c.Thorough && (i+j)%3 == 0) {
						continue
					}
					if !emit(gcase{l, i, j, (i+j)%2 == 0}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cs gcase) *Fail {
		names := identLayouts[cs.Layout]
		g := map[int][]action{}
		for m := range names {
			ls := leaves(names, m, 99)
			x, y := ls[cs.A], ls[(cs.B+m)%len(ls)]
			x.Ignore, y.Ignore = true, true
			g[m] = []action{x, y}
			if cs.Nested {
				g[m] = append(g[m], action{Verb: doDeliver, To: (m + 1) % 3, Imp: []string{"g"}, Stage: stExec, Ignore: true, Body: []action{leaves(names, (m+1)%3, 99)[cs.B]}})
			}
		}
		a := newIdentApp(names, g)
		defer closeDBs(a.rt)
		want := &identWant{a: a, deny: -1, exists: map[int]bool{}}
		for m := range names {
			want.run(m, g[m], fmt.Sprint("g", m))
		}
		if err := a.rt.InitGenesis(); err != nil {
			return failf("genesis", "genesis returned %v", err)
		}
		addN(&c.Transitions, len(a.trace))
		addN(&c.Traces, 1)
		return sameTrace(a.trace, want.trace)
	})
}

// identHeights: a module reads the current state only.
func identHeights(c *Ctx) {
	type hcase struct {
		H      string
		Layout int
	}
	Explore(c, "heights", func(emit func(hcase) bool) {
		seen := map[uint64]bool{}
		for _, h := range append([]uint64{0, 1, 2}, magnitudes(c)...) {
			if !seen[h] {
				seen[h] = true
				if !emit(hcase{fmt.Sprint(h), int(h % uint64(len(identLayouts)))}) {
					return
				}
			}
		}
	}, func(w *Worker, cs hcase) *Fail {
		a := pooledIdent(w, fmt.Sprint(cs.Layout), identLayouts[cs.Layout])
		var h uint64
		_, err := fmt.Sscan(cs.H, &h)
		must(err)
		a.rt.DisableAuthorization()
		must(a.rt.Create(user.NewUsersFromString("x"), a.object(0, "v")))
		defer func() { must(a.rt.Delete(user.NewUsersFromString("x"), a.object(0, "v"))) }()
		addN(&c.Traces, 1)
		for m, cl := range a.cls {
			o := a.obj[0].obj()
			err := cl.Get(meta.NewStringID("p"), o, client.GetAtHeight(h))
			if (h == 0) != (err == nil) || h == 0 && o.get("val").(string) != "v" {
				return failf("get-height", "a get of module %d at height %d returned %v", m, h, err)
			}
			if h != 0 && o.get("val").(string) != "" {
				return failf("get-height", "a refused get of module %d at height %d gave the object", m, h)
			}
			it, err := cl.List(a.obj[0].obj(), client.ListMatchFieldString("val", "v"), client.ListAtHeight(h))
			if err == nil {
				it.Close()
			}
			if (h == 0) != (err == nil) {
				return failf("list-height", "a list of module %d at height %d returned %v", m, h, err)
			}
		}
		return nil
	})
}
