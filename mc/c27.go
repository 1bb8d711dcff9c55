package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/fdymylja/tmos/core/apiserver"
	"github.com/fdymylja/tmos/core/meta"
	tmruntime "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	abcitypes "github.com/tendermint/tendermint/abci/types"
)

func init() { register("C27", c27) }

// svcSpec is one service: what its start and its stop return.
type svcSpec struct {
	StartFails, StopFails bool
}

// svcLog records what services are told, in order.
type svcLog struct{ calls []string }

func (l *svcLog) add(s string) { l.calls = append(l.calls, s) }

type svcErr struct{ who string }

func (e svcErr) Error() string { return "failure of " + e.who + ";" }

// service makes the service number i of module m.
func (l *svcLog) service(m, name string, sp svcSpec, check func(client.Client) *Fail, bad *[]*Fail) module.ExtensionService {
	who := m + "/" + name
	var cl client.Client
	return &compService{name: name,
		setc: func(c client.Client) { cl = c; l.add("client " + who) },
		start: func() error {
			l.add("start " + who)
			if cl == nil {
				*bad = append(*bad, failf("no-client", "service %s is started without a client", who))
			} else if check != nil {
				if f := check(cl); f != nil {
					*bad = append(*bad, f)
				}
				if err := cl.Create(&authnv1.Account{Address: "x"}); err == nil || !strings.Contains(err.Error(), m) || !strings.Contains(err.Error(), name) {
					*bad = append(*bad, failf("name", "service %s of module %s is not named in the refusal of its write: %v", name, m, err))
				}
			}
			if sp.StartFails {
				return svcErr{"start " + who}
			}
			return nil
		},
		stop: func() error {
			l.add("stop " + who)
			if sp.StopFails {
				return svcErr{"stop " + who}
			}
			return nil
		}}
}

// wantStart is the sequence of calls a start makes, and who fails.
func wantStart(mods [][]svcSpec) (calls []string, failing string) {
	for i, m := range mods {
		for j, s := range m {
			who := fmt.Sprintf("m%d/s%d", i, j)
			calls = append(calls, "client "+who, "start "+who)
			if s.StartFails {
				return calls, who
			}
		}
	}
	return
}

func failureNames(err error, who string) bool {
	for _, p := range strings.Split(who, "/") {
		if !strings.Contains(err.Error(), p) {
			return false
		}
	}
	return true
}

func judgeStart(mods [][]svcSpec, l *svcLog, err error, what string) *Fail {
	want, failing := wantStart(mods)
	if got := strings.Join(l.calls, ", "); got != strings.Join(want, ", ") {
		return failf("start-order", "%s of %v: the services were called [%s], expected [%s]", what, mods, got, strings.Join(want, ", "))
	}
	switch {
	case failing == "" && err != nil:
		return failf("start-error", "%s of %v fails although every service starts: %v", what, mods, err)
	case failing != "" && err == nil:
		return failf("start-error", "%s of %v: service %s fails to start, but no error is reported", what, mods, failing)
	case failing != "" && !failureNames(err, failing):
		return failf("start-error", "%s of %v: the error does not name the failing service %s: %v", what, mods, failing, err)
	case failing != "" && !errors.Is(err, svcErr{"start " + failing}) && !strings.Contains(err.Error(), "failure of start "+failing+";"):
		return failf("start-error", "%s of %v: the error of %s is not reported: %v", what, mods, failing, err)
	}
	return nil
}

// svcLists enumerates modules with services of every outcome.
func svcLists(maxMods, maxSvc, total int, emit func([][]svcSpec) bool) bool {
	var rec func(mods [][]svcSpec, n int) bool
	rec = func(mods [][]svcSpec, n int) bool {
		cp := make([][]svcSpec, len(mods))
		for i := range mods {
			cp[i] = append([]svcSpec{}, mods[i]...)
		}
		if !emit(cp) {
			return false
		}
		if len(mods) == maxMods {
			return true
		}
		ok := true
		wordsAll(4, maxSvc, func(ix []int) bool {
			if n+len(ix) > total {
				return true
			}
			var m []svcSpec
			for _, x := range ix {
				m = append(m, svcSpec{x&1 != 0, x&2 != 0})
			}
			ok = rec(append(mods, m), n+len(ix))
			return ok
		})
		return ok
	}
	return rec(nil, 0)
}

func wordsAll(k, max int, emit func([]int) bool) bool {
	for l := 0; l <= max; l++ {
		if !wordsLen(k, l, emit) {
			return false
		}
	}
	return true
}

type groupCase struct{ Mods [][]svcSpec }

// nodeCase is an application whose modules have the services; Genesis is the module whose
// genesis fails, or -1.
type nodeCase struct {
	Mods    [][]svcSpec
	Genesis int
	Via     string // what starts the node
}

// svcStore is a store with one stored account.
func svcStore() orm.Store {
	db := orm.NewStore(objects.NewStore(newMemKV()), indexes.NewStore(newMemKV()))
	must(db.RegisterObject(&authnv1.Account{}, &schema.Definition{PrimaryKey: "address"}))
	must(db.Create(&authnv1.Account{Address: "a", Sequence: 5}))
	return db
}

func c27(c *Ctx) {
	c.Level = "fault_enumeration"
	c.Rule = "all lists of up to 4 services over up to 3 modules, and long lists of up to 66, each failing or not at its start and at its stop, through the service group and through a node started with or without a failing genesis; sequences of starts and stops; the API server stopped after every number of scheduling steps following its start, on one and on several processors"
	maxMods, maxSvc, total := 3, 2, 4
	if c.Thorough {
		maxSvc, total = 3, 5
	}
	Explore(c, "group", func(emit func(groupCase) bool) {
		if !svcLists(maxMods, maxSvc, total, func(m [][]svcSpec) bool { return emit(groupCase{m}) }) {
			return
		}
		// many services, of one module or of as many
		for shape := 0; shape < 3; shape++ {
			manyGen(sizesTo(most(c, 66, 257)), 4, nil, func(cs manyCase) bool {
				var mods [][]svcSpec
				for i := 0; i < cs.N; i++ {
					var s svcSpec
					if i == cs.At {
						s = svcSpec{cs.Kind == 1, cs.Kind != 1}
					} else if cs.At >= 0 && cs.Kind == 2 {
						s.StopFails = i%3 == 0
					} else if cs.Kind == 3 {
						s.StopFails = true
					}
					if per := []int{1, cs.N, 3}[shape]; i%per == 0 {
						mods = append(mods, nil)
					}
					mods[len(mods)-1] = append(mods[len(mods)-1], s)
				}
				return emit(groupCase{mods})
			})
		}
	}, func(w *Worker, gc groupCase) *Fail {
		l := new(svcLog)
		var bad []*Fail
		store, ok := w.S["store"].(orm.Store)
		if !ok {
			store = svcStore()
			w.S["store"] = store
			dbs := findDBs(store)
			w.OnClose(func() {
				for _, d := range dbs {
					d.Close()
				}
			})
		}
		g := tmruntime.NewServiceOrchestrator()
		for i, m := range gc.Mods {
			var svcs []module.ExtensionService
			for j, s := range m {
				svcs = append(svcs, l.service(fmt.Sprint("m", i), fmt.Sprint("s", j), s, func(cl client.Client) *Fail {
					acc := new(authnv1.Account)
					if err := cl.Get(meta.NewStringID("a"), acc); err != nil || acc.Sequence != 5 {
						return failf("client", "the client of a service does not read the store: %v %v", acc, err)
					}
					return nil
				}, &bad))
			}
			if len(svcs) == 2 && i%2 == 1 { // the services of a module may be added one by one
				g.AddServices(fmt.Sprint("m", i), svcs[0])
				g.AddServices(fmt.Sprint("m", i), svcs[1])
			} else {
				g.AddServices(fmt.Sprint("m", i), svcs...)
			}
		}
		if len(l.calls) != 0 {
			return failf("early", "adding the services %v already called %v", gc.Mods, l.calls)
		}
		err := g.Start(store)
		if f := judgeStart(gc.Mods, l, err, "the start"); f != nil {
			return f
		}
		if len(bad) > 0 {
			return bad[0]
		}
		c.Outcome(fmt.Sprint(err))
		_, failing := wantStart(gc.Mods)
		if failing != "" {
			// stopping after a failed start stops at least what was started
			l.calls = nil
			err = g.Stop()
			all := strings.Join(l.calls, ", ") + ","
			for i, m := range gc.Mods {
				for j, s := range m {
					who := fmt.Sprintf("m%d/s%d", i, j)
					if who == failing {
						addN(&c.Transitions, 2)
						return nil
					}
					if strings.Count(all, "stop "+who+",") != 1 {
						return failf("stop", "%v: after the failed start of %s, stopping called [%s]", gc.Mods, failing, all)
					}
					if s.StopFails && (err == nil || !strings.Contains(err.Error(), "failure of stop "+who+";")) {
						return failf("stop-error", "stopping %v after the failed start of %s: the failure of %s is not reported: %v", gc.Mods, failing, who, err)
					}
				}
			}
			return nil
		}
		// every service is stopped, whatever the others answer
		l.calls = nil
		err = g.Stop()
		seen := map[string]int{}
		for _, x := range l.calls {
			seen[x]++
		}
		n := 0
		for i, m := range gc.Mods {
			for j, s := range m {
				who := fmt.Sprintf("m%d/s%d", i, j)
				n++
				if seen["stop "+who] != 1 {
					return failf("stop", "stopping %v called the stop of %s %d times (calls: %v)", gc.Mods, who, seen["stop "+who], l.calls)
				}
				if s.StopFails && (err == nil || !strings.Contains(err.Error(), "failure of stop "+who+";")) {
					return failf("stop-error", "stopping %v: the failure of %s is not reported: %v", gc.Mods, who, err)
				}
				if !s.StopFails && err != nil && strings.Contains(err.Error(), "failure of stop "+who+";") {
					return failf("stop-error", "stopping %v reports a failure of %s, which did not fail: %v", gc.Mods, who, err)
				}
			}
		}
		if len(l.calls) != n {
			return failf("stop", "stopping %v called %v", gc.Mods, l.calls)
		}
		anyFails := false
		for _, m := range gc.Mods {
			for _, s := range m {
				anyFails = anyFails || s.StopFails
			}
		}
		if anyFails != (err != nil) {
			return failf("stop-error", "stopping %v: error %v", gc.Mods, err)
		}
		c.Outcome(fmt.Sprint("stop ", err))
		addN(&c.Transitions, 2)
		return nil
	})

	Explore(c, "node", func(emit func(nodeCase) bool) {
		svcLists(2, 2, 3, func(m [][]svcSpec) bool {
			for _, ms := range m {
				for _, s := range ms {
					if s.StopFails {
						return true
					}
				}
			}
			for g := -1; g <= len(m); g++ {
				for _, via := range []string{"InitGenesis", "InitChain"} {
					if !emit(nodeCase{m, g, via}) {
						return false
					}
				}
			}
			return true
		})
	}, func(w *Worker, nc nodeCase) *Fail {
		l := new(svcLog)
		var bad []*Fail
		var extra []module.Module
		add := func(name string, i int, svcs []module.ExtensionService) {
			extra = append(extra, funcModule(func(mc module.Client) module.Descriptor {
				b := module.NewDescriptorBuilder().Named(name)
				for _, s := range svcs {
					b.WithExtensionService(s)
				}
				t := appT()
				b.NeedsStateTransition(t.inner.trans())
				return b.WithGenesis(compGenesis{func() error {
					l.add("genesis " + name)
					if nc.Genesis == i {
						return fmt.Errorf("genesis of %s fails", name)
					}
					return mc.Deliver(t.inner.trans().set("id", name).set("val", "genesis"))
				}}).Build()
			}))
		}
		for i, m := range nc.Mods {
			var svcs []module.ExtensionService
			for j, s := range m {
				svcs = append(svcs, l.service(fmt.Sprint("m", i), fmt.Sprint("s", j), s, func(cl client.Client) *Fail {
					for k := 0; k <= len(nc.Mods); k++ {
						n := appT().note.obj()
						if err := cl.Get(meta.NewStringID(fmt.Sprint("m", k)), n); err != nil {
							return failf("too-early", "a service is started before the state of module m%d exists: %v", k, err)
						}
					}
					return refusedWrites(cl, world{}, nil)
				}, &bad))
			}
			add(fmt.Sprint("m", i), i, svcs)
		}
		add(fmt.Sprint("m", len(nc.Mods)), len(nc.Mods), nil)
		a := newApp(appCfg{NoStart: true, Extra: extra})
		defer a.close()
		var want []string
		for i := 0; i <= len(nc.Mods); i++ {
			want = append(want, fmt.Sprintf("genesis m%d", i))
			if nc.Genesis == i {
				break
			}
		}
		start, failing := wantStart(nc.Mods)
		if nc.Genesis < 0 {
			want = append(want, start...)
		} else {
			failing = ""
		}
		boot := func() (err error) {
			if nc.Via == "InitGenesis" {
				return a.rt.InitGenesis()
			}
			if p := try(func() { a.abci.InitChain(abcitypes.RequestInitChain{ChainId: chainID}) }); p != "" {
				err = errors.New(p)
			}
			return
		}
		err := boot()
		if got := strings.Join(l.calls, ", "); got != strings.Join(want, ", ") {
			return failf("node-order", "%+v: calls [%s], expected [%s]", nc, got, strings.Join(want, ", "))
		}
		if len(bad) > 0 {
			return bad[0]
		}
		if (err != nil) != (failing != "" || nc.Genesis >= 0) {
			return failf("node-error", "%+v: starting the node returns %v", nc, err)
		}
		if failing != "" && !failureNames(err, failing) {
			return failf("node-error", "%+v: the error does not name the service %s: %v", nc, failing, err)
		}
		c.Outcome(fmt.Sprint(err))
		addN(&c.Transitions, 1)
		// blocks do not start anything again
		if err == nil {
			n := len(l.calls)
			try(func() { a.begin(1); a.abci.EndBlock(abcitypes.RequestEndBlock{Height: 1}); a.abci.Commit() })
			try(func() { a.rt.InitGenesis() })
			if len(l.calls) != n {
				return failf("again", "%+v: after its start the node called %v", nc, l.calls[n:])
			}
		}
		return nil
	})

	// the API server
	type apiCase struct {
		Steps int // scheduling steps between start and stop; -1: until it serves; -2: not started
		Procs int
		Again bool
	}
	// the server has one fixed port, so these executions come one after another
	var mu sync.Mutex
	busy := func() bool {
		conn, err := net.DialTimeout("tcp", "127.0.0.1:8080", time.Second)
		if err == nil {
			conn.Close()
		}
		return err == nil
	}
	if busy() && c.replay == nil {
		c.Cap("port 8080 is in use: the API server was not started")
		return
	}
	Explore(c, "api-server", func(emit func(apiCase) bool) {
		steps := 12
		if c.Thorough {
			steps = 60
		}
		for _, procs := range []int{1, 8} {
			for s := -2; s <= steps; s++ {
				for _, again := range []bool{false, true} {
					if !emit(apiCase{s, procs, again}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, ac apiCase) *Fail {
		mu.Lock()
		defer mu.Unlock()
		svc := apiserver.NewService()
		var svcs []module.ExtensionService
		svcs = append(svcs, &lateService{svc})
		a := newApp(appCfg{Accounts: withCollector(stdAccounts()), Extra: []module.Module{funcModule(func(module.Client) module.Descriptor {
			b := module.NewDescriptorBuilder().Named("mcapi")
			for _, s := range svcs {
				b.WithExtensionService(s)
			}
			return b.Build()
		})}})
		defer a.close()
		old := runtime.GOMAXPROCS(ac.Procs)
		defer runtime.GOMAXPROCS(old)
		rounds := 1
		if ac.Again {
			rounds = 2
		}
		if ac.Steps == -2 {
			// stopped without having been started, as after the failed start of another service
			if p := try(func() { _ = svc.Stop() }); p != "" {
				return failf("api-stop", "stopping the API server before it was started panics: %s", p)
			}
			rounds = 0
		}
		for r := 0; r < rounds; r++ {
			if err := svc.Start(); err != nil {
				return failf("api-start", "%+v: the API server does not start: %v", ac, err)
			}
			if ac.Steps < 0 {
				if f := apiServes(a); f != nil {
					f.Msg = fmt.Sprintf("%+v, start %d: %s", ac, r+1, f.Msg)
					_ = svc.Stop()
					return f
				}
			} else {
				for i := 0; i < ac.Steps; i++ {
					runtime.Gosched()
				}
			}
			var err error
			if p := try(func() { err = svc.Stop() }); p != "" {
				return failf("api-stop", "%+v: stopping the API server %d scheduling steps after its start returned panics: %s", ac, ac.Steps, p)
			}
			if err != nil {
				return failf("api-stop", "%+v: stopping the API server fails: %v", ac, err)
			}
			// whatever was under way ends
			runtime.GOMAXPROCS(old)
			free := false
			for i := 0; i < 400 && !free; i++ {
				time.Sleep(time.Millisecond)
				free = !busy() && i > 3
			}
			if !free {
				return failf("api-still", "%+v: the API server stopped %d scheduling steps after its start still serves", ac, ac.Steps)
			}
		}
		c.Outcome(fmt.Sprint(ac))
		addN(&c.Transitions, 2*rounds)
		return nil
	})
}

// lateService gives the service its client at genesis, and leaves the start to the check.
type lateService struct{ s module.ExtensionService }

func (l *lateService) Name() string              { return l.s.Name() }
func (l *lateService) SetClient(c client.Client) { l.s.SetClient(c) }
func (l *lateService) Start() error              { return nil }
func (l *lateService) Stop() error               { return nil }

// apiServes waits for the API server and asks it for a stored account.
func apiServes(a *App) *Fail {
	var last string
	hc := &http.Client{Timeout: 2 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	for i := 0; i < 3000; i++ {
		resp, err := hc.Get("http://127.0.0.1:8080" + objPath(&authnv1.Account{}, key(0).addr))
		if err == nil {
			b, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			if resp.StatusCode != 200 || !strings.Contains(string(b), key(0).addr) {
				return failf("api-answer", "the API server answers status %d %s for a stored account", resp.StatusCode, trunc(string(b), 200))
			}
			return nil
		}
		last = err.Error()
		time.Sleep(time.Millisecond)
	}
	return failf("api-not-served", "the API server does not serve within 3 s of its start: %s", last)
}
