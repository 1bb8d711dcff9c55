package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

func init() { register("C06", c06) }

// addPreExec adds a pre-execution handler (the descriptor builder has no method for it);
// fields are found by type so that their names do not matter.
func addPreExec(d *module.Descriptor, st meta.StateTransition, h statetransition.PreExecutionHandler) {
	ht := reflect.TypeOf((*statetransition.PreExecutionHandler)(nil)).Elem()
	dv := reflect.ValueOf(d).Elem()
	for i := 0; i < dv.NumField(); i++ {
		f := dv.Field(i)
		if f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Struct {
			continue
		}
		et := f.Type().Elem()
		has := false
		for j := 0; j < et.NumField(); j++ {
			has = has || et.Field(j).Type == ht
		}
		if !has {
			continue
		}
		e := reflect.New(et).Elem()
		for j := 0; j < et.NumField(); j++ {
			if et.Field(j).Type == ht {
				e.Field(j).Set(reflect.ValueOf(h))
			} else if reflect.TypeOf(st).AssignableTo(et.Field(j).Type) {
				e.Field(j).Set(reflect.ValueOf(st))
			}
		}
		f.Set(reflect.Append(f, e))
		return
	}
	hp("no pre-execution handlers in the module descriptor")
}

// probeType is one transition with its handler counts.
type probeType struct {
	t            *dynType
	adm, pre, po int
	exec         bool
}

const (
	actOK = iota
	actFail
	actNested        // delivers another transition and returns its error
	actNestedSwallow // delivers another transition and ignores its error
)

// pipeline is a runtime with many transition types, whose handlers follow a table.
type pipeline struct {
	rt    *runtime.Runtime
	types []probeType
	act   map[string]int // handler id -> action, default OK
	nest  map[string]*DynTrans
	trace []string
	kind  int // of the failures
	auth  int // 0 allow, 1 deny, 2 deny without an error, 3 allow with an error
	cl    [3]module.Client
}

var moduleNames = []string{"mod-a", "mod-b", "mod-c"}

func usersText(u user.Users) string {
	if u == nil {
		return "<nil>"
	}
	var n []string
	for _, x := range u.List() {
		n = append(n, x.GetName())
	}
	sort.Strings(n)
	return strings.Join(n, "+")
}

func (p *pipeline) hit(id string, u user.Users, tr meta.APIObject) error {
	p.trace = append(p.trace, fmt.Sprintf("%s(%s)[%s]", id, usersText(u), tr.(*DynTrans).str("tag")))
	mod := 0
	switch p.act[id] {
	case actFail:
		return refusal(p.kind, "refused by "+id)
	case actNested:
		return p.cl[mod].Deliver(p.nest[id])
	case actNestedSwallow:
		_ = p.cl[mod].Deliver(p.nest[id], client.DeliverImpersonating("imp"))
	}
	return nil
}

type probeAuthorizer struct{ p *pipeline }

func (a probeAuthorizer) Authorize(at authorization.Attributes) (authorization.Decision, error) {
	v := ""
	if at.Verb != runtimev1.Verb_Deliver {
		v = at.Verb.String()
	}
	tr, ok := at.Resource.(*DynTrans)
	if !ok {
		return authorization.DecisionAllow, nil
	}
	a.p.trace = append(a.p.trace, fmt.Sprintf("authz%s:%s(%s)[%s]", v, meta.Name(tr), usersText(at.Users), tr.str("tag")))
	switch a.p.auth {
	case 1:
		return authorization.DecisionDeny, refusal(a.p.kind, "denied")
	case 2:
		return authorization.DecisionDeny, nil
	case 3:
		return authorization.DecisionAllow, refusal(a.p.kind, "allowed with an error")
	}
	return authorization.DecisionAllow, nil
}

// manyHandlers is the layout, instead of a maximum, with few types of many handlers.
const manyHandlers = 1000

// probeTypes: every combination of 0..max handlers per stage, and unhandled ones.
func probeTypes(max int) []probeType {
	var msgs []*descriptorpb.DescriptorProto
	var out []probeType
	if max == manyHandlers {
		for _, n := range []int{5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65} {
			out = append(out, probeType{adm: n, exec: true}, probeType{pre: n, exec: true}, probeType{po: n, exec: true}, probeType{adm: n, pre: n, po: n, exec: true}, probeType{adm: n})
		}
		max = -1
	}
	for a := 0; a <= max; a++ {
		for b := 0; b <= max; b++ {
			for d := 0; d <= max; d++ {
				out = append(out, probeType{adm: a, pre: b, po: d, exec: true})
			}
		}
	}
	for a := 0; a <= max; a++ {
		out = append(out, probeType{adm: a})
	}
	if max < 0 {
		max = manyHandlers
	}
	for i := range out {
		msgs = append(msgs, external(msgProto(fmt.Sprintf("T%d", i), fieldSpec{Name: "tag", Type: tString}), true))
	}
	fd := mustFile(fileProto(fmt.Sprintf("mc/pipe%d.proto", max), fmt.Sprintf("mc.pipe%d", max), []string{"core/rbac/xt/rbac_extension.proto"}, msgs...))
	for i := range out {
		out[i].t = registerType(newDynType(fd.Messages().ByName(protoreflect.Name(fmt.Sprintf("T%d", i))), dynTransition))
	}
	return out
}

// hid names handler k of a stage of type i; handler k belongs to module (k+i)%3.
func hid(stage string, i, k int) string { return fmt.Sprintf("%s%d.%d", stage, i, k) }

// order lists the indices 0..n-1 in registration order: by module, then as added.
func regOrder(i, n int) []int {
	var out []int
	for m := 0; m < 3; m++ {
		for k := 0; k < n; k++ {
			if (k+i)%3 == m {
				out = append(out, k)
			}
		}
	}
	return out
}

func newPipeline(max int) *pipeline {
	p := &pipeline{types: probeTypes(max), act: map[string]int{}, nest: map[string]*DynTrans{}}
	b := runtime.NewBuilder()
	for m := 0; m < 3; m++ {
		m := m
		b.AddModule(funcModule(func(c module.Client) module.Descriptor {
			p.cl[m] = c
			d := module.NewDescriptorBuilder().Named(moduleNames[m])
			for i, t := range p.types {
				i, t := i, t
				if t.exec && i%3 == m {
					d.HandlesStateTransition(t.t.trans(), statetransition.ExecutionHandlerFunc(func(r statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
						return statetransition.ExecutionResponse{}, p.hit(hid("exec", i, 0), r.Users, r.Transition)
					}))
				}
				for k := 0; k < t.adm; k++ {
					if k := k; (k+i)%3 == m {
						d.HandlesAdmission(t.t.trans(), statetransition.AdmissionHandlerFunc(func(r statetransition.AdmissionRequest) error {
							return p.hit(hid("adm", i, k), r.Users, r.Transition)
						}))
					}
				}
				for k := 0; k < t.po; k++ {
					if k := k; (k+i)%3 == m {
						d.WithPostStateTransitionHandler(t.t.trans(), statetransition.PostExecutionHandlerFunc(func(r statetransition.PostExecutionRequest) error {
							return p.hit(hid("post", i, k), r.Users, r.Transition)
						}))
					}
				}
			}
			if m == 1 {
				d.IsAuthorizer(probeAuthorizer{p})
			}
			desc := d.Build()
			for i, t := range p.types {
				i, t := i, t
				for k := 0; k < t.pre; k++ {
					if k := k; (k+i)%3 == m {
						addPreExec(&desc, t.t.trans(), statetransition.PreExecutionHandlerFunc(func(r statetransition.PreExecutionRequest) error {
							return p.hit(hid("pre", i, k), r.Users, r.Transition)
						}))
					}
				}
			}
			return desc
		}))
	}
	rt, err := b.Build()
	must(err)
	p.rt = rt
	return p
}

// want computes the trace and success of delivering type i as the property states it.
func (p *pipeline) want(i int, users, tag string, authOn bool, skipAdm bool) (trace []string, ok bool) {
	t := p.types[i]
	if !t.exec {
		return nil, false
	}
	step := func(id string) bool {
		trace = append(trace, fmt.Sprintf("%s(%s)[%s]", id, users, tag))
		switch p.act[id] {
		case actFail:
			return false
		case actNested, actNestedSwallow:
			n := p.nest[id]
			nu := moduleNames[0]
			if p.act[id] == actNestedSwallow {
				nu = "imp+" + nu
			}
			j := -1
			for k := range p.types {
				if p.types[k].t == n.t {
					j = k
				}
			}
			tr, nok := p.want(j, nu, n.str("tag"), authOn, false)
			trace = append(trace, tr...)
			return nok || p.act[id] == actNestedSwallow
		}
		return true
	}
	if !skipAdm {
		for _, k := range regOrder(i, t.adm) {
			if !step(hid("adm", i, k)) {
				return trace, false
			}
		}
	}
	if authOn {
		trace = append(trace, fmt.Sprintf("authz:%s(%s)[%s]", meta.Name(t.t.trans()), users, tag))
		if p.auth != 0 {
			return trace, false
		}
	}
	for _, k := range regOrder(i, t.pre) {
		if !step(hid("pre", i, k)) {
			return trace, false
		}
	}
	if !step(hid("exec", i, 0)) {
		return trace, false
	}
	for _, k := range regOrder(i, t.po) {
		if !step(hid("post", i, k)) {
			return trace, false
		}
	}
	return trace, true
}

func (p *pipeline) ids(i int) []string {
	t := p.types[i]
	var out []string
	for k := 0; k < t.adm; k++ {
		out = append(out, hid("adm", i, k))
	}
	for k := 0; k < t.pre; k++ {
		out = append(out, hid("pre", i, k))
	}
	if t.exec {
		out = append(out, hid("exec", i, 0))
	}
	for k := 0; k < t.po; k++ {
		out = append(out, hid("post", i, k))
	}
	return out
}

// deliverCase is a sequence of deliveries on one runtime.
type deliverCase struct {
	Max   int
	Steps []deliverStep
}
type deliverStep struct {
	Type   int
	Acts   map[string]int
	Nest   map[string]int `json:",omitempty"` // handler -> delivered type
	AuthOn bool
	Auth   int
	Kind   int `json:",omitempty"` // of the failures
	Via    int // 0 runtime with two users, 1 runtime with one user, 2 module client, 3 module client impersonating, 4 runtime with no user, 5 runtime without admission handlers
}

func (p *pipeline) deliver(st deliverStep, tag string) *Fail {
	p.act, p.nest, p.auth, p.kind = st.Acts, map[string]*DynTrans{}, st.Auth, st.Kind
	for id, t := range st.Nest {
		p.nest[id] = p.types[t].t.trans().set("tag", "nested-"+id)
	}
	if st.AuthOn {
		p.rt.EnableAuthorization()
	} else {
		p.rt.DisableAuthorization()
	}
	tr := p.types[st.Type].t.trans().set("tag", tag)
	before := proto.Clone(tr)
	p.trace = nil
	var err error
	var users string
	pan := try(func() {
		switch st.Via {
		case 0:
			users = "u1+u2"
			err = p.rt.Deliver(user.NewUsersFromString("u1", "u2"), tr)
		case 1:
			users = "u1"
			err = p.rt.Deliver(user.NewUsersFromString("u1"), tr)
		case 2:
			users = moduleNames[2]
			err = p.cl[2].Deliver(tr)
		case 3:
			users = "i1+i2+" + moduleNames[1]
			err = p.cl[1].Deliver(tr, client.DeliverImpersonating("i2", "i1"))
		case 4:
			users = ""
			err = p.rt.Deliver(user.NewUsersFromString(), tr)
		case 5:
			users = "u1"
			err = p.rt.Deliver(user.NewUsersFromString("u1"), tr, runtime.DeliverSkipAdmissionHandlers())
		}
	})
	if pan != "" {
		return failf("panic", "delivering T%d panicked: %s", st.Type, pan)
	}
	got := p.trace
	want, ok := p.want(st.Type, users, tag, st.AuthOn, st.Via == 5)
	if !p.types[st.Type].exec && st.Via == 5 {
		// it is refused, whether before or after the authorizer is asked
		for len(got) > 0 && strings.HasPrefix(got[0], "authz") {
			got = got[1:]
		}
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		key := "wrong-steps"
		if len(got) > len(want) && strings.Join(got[:len(want)], " ") == strings.Join(want, " ") {
			key = "ran-after-failure"
		}
		if !p.types[st.Type].exec {
			key = "unhandled-ran"
		}
		return failf(key, "delivering T%d as %s:\n  ran  %v\n  want %v", st.Type, users, got, want)
	}
	if ok != (err == nil) {
		return failf("wrong-result", "delivering T%d as %s ran %v and returned %v", st.Type, users, got, err)
	}
	if !proto.Equal(before, tr) {
		return failf("transition-changed", "delivering changed the transition")
	}
	return nil
}

func pooledPipeline(w *Worker, max int) *pipeline {
	k := fmt.Sprintf("pipe%d", max)
	if p, ok := w.S[k].(*pipeline); ok {
		return p
	}
	p := newPipeline(max)
	w.OnClose(func() { closeDBs(p.rt) })
	w.S[k] = p
	return p
}

func runDeliver(w *Worker, cs deliverCase) *Fail {
	p := pooledPipeline(w, cs.Max)
	for n, st := range cs.Steps {
		if f := p.deliver(st, fmt.Sprintf("m%d", n)); f != nil {
			return f
		}
		addN(&w.C.Transitions, 1)
		w.C.State(strings.Join(p.trace, " "))
	}
	addN(&w.C.Traces, 1)
	return nil
}

func c06(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "every handler layout of 0..max handlers per stage spread over three modules, with every success/failure assignment, every authorizer outcome, and every way to deliver; the trace of handler calls (users, transition) and the result are compared with the pipeline of the property; nested deliveries from every handler, 12 levels deep; up to 65 handlers per stage, each failing in turn"
	max := 3
	if c.Thorough {
		max = 4
	}
	lay := probeTypes(max)
	pl := &pipeline{types: lay}
	Explore(c, "outcomes", func(emit func(deliverCase) bool) {
		for i := range lay {
			ids := pl.ids(i)
			for mask := 0; mask < 1<<len(ids); mask++ {
				acts := map[string]int{}
				for k, id := range ids {
					if mask>>k&1 == 1 {
						acts[id] = actFail
					}
				}
				for via := 0; via < 6; via++ {
					for auth := -1; auth < 4; auth++ {
						st := deliverStep{Type: i, Acts: acts, AuthOn: auth >= 0, Via: via}
						if auth >= 0 {
							st.Auth = auth
						}
						if !emit(deliverCase{max, []deliverStep{st}}) {
							return
						}
					}
				}
			}
		}
	}, runDeliver)
	// whatever the error of a failing step is, it is a failure
	Explore(c, "kinds of failures", func(emit func(deliverCase) bool) {
		for k := 1; k < len(refusals); k++ {
			for i := range lay {
				for _, id := range pl.ids(i) {
					for a := 0; a < 2; a++ {
						if !emit(deliverCase{max, []deliverStep{{Type: i, Acts: map[string]int{id: actFail}, Kind: k, AuthOn: a == 1}}}) {
							return
						}
					}
				}
				for _, au := range []int{1, 3} {
					if !emit(deliverCase{max, []deliverStep{{Type: i, Acts: map[string]int{}, Kind: k, AuthOn: true, Auth: au}}}) {
						return
					}
				}
			}
		}
	}, runDeliver)
	// pairs: one delivery must not influence the next (every first/second type, the first
	// failing at each handler or not at all)
	Explore(c, "pairs", func(emit func(deliverCase) bool) {
		for i := range lay {
			for f := -1; f < len(pl.ids(i)); f++ {
				acts := map[string]int{}
				if f >= 0 {
					acts[pl.ids(i)[f]] = actFail
				}
				for j := range lay {
					for a := 0; a < 2; a++ {
						if !emit(deliverCase{max, []deliverStep{
							{Type: i, Acts: acts, AuthOn: a == 1, Via: 0},
							{Type: j, Acts: map[string]int{}, AuthOn: true, Via: 1 + 4*(f&1)},
							{Type: i, Acts: map[string]int{}, AuthOn: a == 0, Via: 2}}}) {
							return
						}
					}
				}
			}
		}
	}, runDeliver)
	// nested: each handler of each type delivers each other type, which succeeds or fails at
	// its first, middle or last handler; the error is returned or ignored
	Explore(c, "nested", func(emit func(deliverCase) bool) {
		for i := range lay {
			for _, id := range pl.ids(i) {
				for j := range lay {
					if j == i {
						continue
					}
					ids := pl.ids(j)
					fails := map[string]bool{"": true}
					if len(ids) > 0 {
						fails[ids[0]], fails[ids[len(ids)/2]], fails[ids[len(ids)-1]] = true, true, true
					}
					for _, fid := range sortedKeys(fails) {
						for a := actNested; a <= actNestedSwallow; a++ {
							acts := map[string]int{id: a}
							if fid != "" {
								acts[fid] = actFail
							}
							if !emit(deliverCase{max, []deliverStep{{Type: i, Acts: acts, Nest: map[string]int{id: j}, AuthOn: a == actNested, Via: 0}}}) {
								return
							}
						}
					}
				}
			}
		}
	}, runDeliver)
	// many handlers, each failing in turn
	big := probeTypes(manyHandlers)
	pb := &pipeline{types: big}
	Explore(c, "many handlers", func(emit func(deliverCase) bool) {
		for i := range big {
			ids := pb.ids(i)
			for f := -1; f < len(ids); f++ {
				acts := map[string]int{}
				if f >= 0 {
					acts[ids[f]] = actFail
				}
				for via := 0; via < 2; via++ {
					if !emit(deliverCase{manyHandlers, []deliverStep{{Type: i, Acts: acts, AuthOn: via == 0, Via: (via*2 + i) % 5}}}) {
						return
					}
				}
			}
		}
	}, runDeliver)
	// deliveries within deliveries within deliveries, failing at every depth, the failure
	// ignored nowhere or at every depth
	deepest := 12
	if c.Thorough {
		deepest = len(lay) - 2
	}
	Explore(c, "deep", func(emit func(deliverCase) bool) {
		var chain []int
		for i, t := range lay {
			if t.exec {
				chain = append(chain, i)
			}
		}
		for d := 1; d <= deepest && d < len(chain); d++ {
			for fail := -1; fail <= d; fail++ {
				for swallow := -1; swallow < d; swallow++ {
					if swallow >= 0 && (fail < 0 || swallow > fail) {
						continue
					}
					st := deliverStep{Type: chain[0], Acts: map[string]int{}, Nest: map[string]int{}, AuthOn: d%2 == 0, Via: d % 5}
					for k := 0; k < d; k++ {
						id := hid("exec", chain[k], 0)
						st.Nest[id] = chain[k+1]
						st.Acts[id] = actNested
						if k == swallow {
							st.Acts[id] = actNestedSwallow
						}
					}
					if fail == d {
						st.Acts[hid("exec", chain[d], 0)] = actFail
					} else if fail >= 0 && len(pl.ids(chain[fail])) > 1 {
						ids := pl.ids(chain[fail])
						st.Acts[ids[len(ids)-1]] = actFail // its last handler
					}
					if !emit(deliverCase{max, []deliverStep{st, {Type: chain[d], Acts: map[string]int{}, AuthOn: true}}}) {
						return
					}
				}
			}
		}
	}, runDeliver)
	// long histories: one delivery in n fails
	Explore(c, "long", func(emit func(deliverCase) bool) {
		for n := 2; n < 40; n++ {
			var steps []deliverStep
			for i := 0; i < 120; i++ {
				t := (i * n) % len(lay)
				acts := map[string]int{}
				if ids := pl.ids(t); i%n == 0 && len(ids) > 0 {
					acts[ids[i%len(ids)]] = actFail
				}
				steps = append(steps, deliverStep{Type: t, Acts: acts, AuthOn: i%3 > 0, Via: i % 5})
			}
			if !emit(deliverCase{max, steps}) {
				return
			}
		}
	}, runDeliver)
}
