package main

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/client"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
)

func init() { register("C34", c34) }

// schedSwitch: when thread arrives at its yield number At, thread To goes on.
type schedSwitch struct{ Thread, At, To int }

type schedSegment struct {
	Thread int
	Passed [4]int
}

// schedExec runs the threads one at a time as planned; first goes first, and when a thread
// ends the next planned or else the lowest numbered one goes on. It is there when built over
// the runtime of rt/make.sh.
var schedExec func(plan []schedSwitch, first int, threads []func(), onYield []func()) (log []schedSegment, passed []int, forced int, hung bool)

// ---- race reports ----

func raceLog() string {
	p := os.Getenv("MC_RACELOG")
	if p == "" {
		return ""
	}
	var b strings.Builder
	fs, _ := filepath.Glob(p + ".*")
	for _, f := range fs {
		x, _ := os.ReadFile(f)
		b.Write(x)
	}
	return b.String()
}

func raceSize() (n int64) {
	p := os.Getenv("MC_RACELOG")
	if p == "" {
		return 0
	}
	fs, _ := filepath.Glob(p + ".*")
	for _, f := range fs {
		if st, err := os.Stat(f); err == nil {
			n += st.Size()
		}
	}
	return n
}

// raceIn looks for a report about code of the repository.
func raceIn(log string) string {
	for _, r := range strings.Split(log, "==================") {
		if strings.Contains(r, "DATA RACE") && strings.Contains(r, "github.com/fdymylja/tmos/") {
			return r
		}
	}
	return ""
}

var raceMu sync.RWMutex

// raced runs f and fails when the race detector reports something while it ran alone.
func raced(f func() *Fail) *Fail {
	raceMu.RLock()
	n := raceSize()
	r := f()
	grown := raceSize() > n
	raceMu.RUnlock()
	if !grown || r != nil {
		return r
	}
	raceMu.Lock()
	defer raceMu.Unlock()
	n = raceSize()
	if r := f(); r != nil {
		return r
	}
	if log := raceLog(); int64(len(log)) > n {
		if x := raceIn(log[n:]); x != "" {
			return failf("race", "unsynchronised access to the same memory:%s", trunc(x, 3000))
		}
	}
	return nil
}

// ---- requests ----

type ansT struct {
	Status int
	Items  []string
}

func (a ansT) key() string { return fmt.Sprint(a.Status, "\x00", strings.Join(a.Items, "\x00")) }

type reqT struct {
	name string
	list bool
	do   func(e *readEnv) ansT
}

func canonJSON(b []byte) string {
	var v interface{}
	if json.Unmarshal(b, &v) != nil {
		return "not JSON: " + string(b)
	}
	x, err := json.Marshal(v)
	must(err)
	return string(x)
}

func httpReq(target string, list bool) reqT {
	return reqT{"GET " + target, list, func(e *readEnv) ansT {
		w := httptest.NewRecorder()
		e.api.h.ServeHTTP(w, httptest.NewRequest("GET", target, nil))
		a := ansT{Status: w.Code}
		switch {
		case w.Code != 200:
		case target == "/spec":
			a.Items = []string{w.Body.String()}
		case list:
			var l struct {
				List []json.RawMessage `json:"list"`
			}
			if json.Unmarshal(w.Body.Bytes(), &l) != nil {
				a.Items = []string{"no list: " + w.Body.String()}
			}
			for _, x := range l.List {
				a.Items = append(a.Items, canonJSON(x))
			}
			sort.Strings(a.Items)
		default:
			a.Items = []string{canonJSON(w.Body.Bytes())}
		}
		return a
	}}
}

func objJSON(o meta.StateObject) string {
	b, err := protojson.Marshal(o)
	must(err)
	return canonJSON(b)
}

func errStatus(err error) int {
	switch {
	case err == nil:
		return 200
	case rterr.Is(err, rterr.ErrNotFound):
		return 404
	}
	return 500
}

func extGet(id meta.ID, mk func() meta.StateObject) reqT {
	return reqT{fmt.Sprintf("client.Get(%s %q)", meta.Name(mk()), id.Bytes()), false, func(e *readEnv) ansT {
		o := mk()
		if err := e.ext.Get(id, o); err != nil {
			return ansT{Status: errStatus(err)}
		}
		return ansT{200, []string{objJSON(o)}}
	}}
}

func extList(mk func() meta.StateObject, field, val string) reqT {
	return reqT{fmt.Sprintf("client.List(%s %s=%q)", meta.Name(mk()), field, val), true, func(e *readEnv) ansT {
		it, err := e.ext.List(mk(), client.ListMatchFieldString(field, val))
		if err != nil {
			return ansT{Status: errStatus(err)}
		}
		defer it.Close()
		a := ansT{Status: 200}
		for n := 0; it.Valid(); n++ {
			o := mk()
			if err := it.Get(o); err != nil {
				return ansT{Status: errStatus(err)}
			}
			a.Items = append(a.Items, objJSON(o))
			it.Next()
			if n > 100 {
				return ansT{200, []string{"endless list"}}
			}
		}
		sort.Strings(a.Items)
		return a
	}}
}

// ---- histories of the writer ----

type scriptT struct {
	name string
	do   func(e *readEnv, w world) string
}

func txScript(name string, mk func(w world) txSpec) scriptT {
	return scriptT{name, func(e *readEnv, w world) string {
		r := e.a.deliver(mk(w).bytes())
		e.a.hm.take()
		return fmt.Sprint(r.Code)
	}}
}

func c34Scripts() []scriptT {
	A, B := 0, 1
	return []scriptT{
		txScript("update", mkSimple([]int{A}, putMsg("n1", "b", ""))),
		txScript("create", mkSimple([]int{A}, putMsg("n3", "a", ""))),
		txScript("delete", mkSimple([]int{B}, putMsg("n2", "", "delete"))),
		txScript("rolled back", mkSimple([]int{A}, putMsg("n1", "b", ""), putMsg("n3", "a", "fail"))),
		txScript("send", mkSimple([]int{A}, sendMsg(key(0).addr, key(1).addr, cn{"test", "2"}))),
		txScript("first funds", mkSimple([]int{A}, sendMsg(key(0).addr, key(5).addr, cn{"test", "2"}))),
		{"next block", func(e *readEnv, w world) string {
			r := e.a.abci.EndBlock(abcitypes.RequestEndBlock{Height: int64(w.Height)})
			e.a.abci.Commit()
			e.a.begin(int64(w.Height + 1))
			return fmt.Sprint(r)
		}},
		{"check", func(e *readEnv, w world) string {
			t := mkSimple([]int{A}, putMsg("n1", "b", ""))(w)
			r := e.a.check(t.bytes())
			e.a.hm.take()
			return fmt.Sprint(r.Code)
		}},
	}
}

var c34Notes = []string{"n1", "n2", "n3", "n4"}

// c34Requests are the requests, and the scripts that bear on them.
func c34Requests() (reqs []reqT, bears map[int][]string) {
	note := func() meta.StateObject { return appT().note.obj() }
	n := note()
	bears = map[int][]string{}
	add := func(r reqT, scripts ...string) {
		bears[len(reqs)] = scripts
		reqs = append(reqs, r)
	}
	get := func(id string) reqT { return httpReq(objPath(n, id), false) }
	add(get("n1"), "update", "rolled back", "check")
	add(get("n2"), "delete")
	add(get("n3"), "create", "rolled back")
	add(httpReq(listPath(n, "val", "a"), true), "update", "create", "delete", "rolled back", "check")
	add(httpReq(listPath(n, "val", "b"), true), "update", "rolled back")
	add(extGet(meta.NewStringID("n1"), note), "update", "rolled back")
	add(extList(note, "val", "a"), "update", "create", "delete", "rolled back")
	add(httpReq(objPath(&bankv1.Balance{}, key(1).addr), false), "send", "first funds")
	add(httpReq(objPath(&bankv1.Balance{}, key(5).addr), false), "first funds")
	add(extGet(meta.NewStringID(key(0).addr), func() meta.StateObject { return new(authnv1.Account) }), "send", "update")
	add(httpReq(objPath(&authnv1.Account{}, key(5).addr), false), "first funds")
	add(extGet(meta.SingletonID, func() meta.StateObject { return new(authnv1.CurrentAccountNumber) }), "first funds")
	add(httpReq("/tmos.abci.v1alpha1/currentblock", false), "next block")
	add(httpReq(singlePath(&authnv1.Params{}), false), "send")
	add(httpReq("/spec", false), "update")
	add(httpReq(objPath(n, "absent"), false), "create")
	return
}

// ---- environments ----

// c34Env is an application in the state the histories start from.
type c34Env struct {
	e *readEnv
	g Dump
	w world
	n int
}

func newC34Env() (*c34Env, *Fail) {
	e, f := newReadEnv()
	if f != nil {
		return nil, f
	}
	for _, x := range []struct{ id, val string }{{"n1", "a"}, {"n2", "a"}, {"n4", "b"}} {
		t := mkSimple([]int{0}, putMsg(x.id, x.val, ""))(e.a.observe())
		if r := e.a.deliver(t.bytes()); r.Code != 0 {
			hp("set up: %v", r)
		}
	}
	e.a.hm.take()
	g := dump(e.a.dbs)
	return &c34Env{e: e, g: g, w: observeDump(g)}, nil
}

// baseT is a history alone: the state at every yield, and the outcome.
type baseT struct {
	ids   []int  // index into states, by yield
	write []bool // whether the state changes before or after the yield
	final int
	out   string
	ans   map[[2]int]ansT // request, state
}

type c34W struct {
	sub, ora *c34Env
	states   []Dump
	byKey    map[string]int
	bases    map[int]*baseT
	soloY    map[int]int
	ans      map[[2]int]ansT
}

func (x *c34W) state(d Dump, likely ...int) int {
	for _, i := range likely {
		if x.states[i].equal(d) {
			return i
		}
	}
	k := d.digest()
	if i, ok := x.byKey[k]; ok {
		return i
	}
	x.byKey[k] = len(x.states)
	x.states = append(x.states, d)
	return len(x.states) - 1
}

func c34Worker(w *Worker) (*c34W, *Fail) {
	if x, ok := w.S["c34"]; ok {
		x := x.(*c34W)
		if x.sub.n < 300 {
			return x, nil
		}
		x.sub.e.a.close()
		s, f := newC34Env()
		x.sub = s
		return x, f
	}
	c34PoolMu.Lock()
	if n := len(c34Pool); n > 0 && w.ID < 100 {
		// (failures are confirmed on fresh applications, by workers numbered from 100)
		x := c34Pool[n-1]
		c34Pool = c34Pool[:n-1]
		c34PoolMu.Unlock()
		c34Keep(w, x)
		return x, nil
	}
	c34PoolMu.Unlock()
	x := &c34W{byKey: map[string]int{}, bases: map[int]*baseT{}, soloY: map[int]int{}, ans: map[[2]int]ansT{}}
	var f *Fail
	if x.sub, f = newC34Env(); f != nil {
		return nil, f
	}
	if x.ora, f = newC34Env(); f != nil {
		return nil, f
	}
	x.state(x.sub.g)
	c34Keep(w, x)
	return x, nil
}

// c34Pool keeps applications from part to part, as they are slow to start.
var (
	c34Pool   []*c34W
	c34PoolMu sync.Mutex
)

func c34Keep(w *Worker, x *c34W) {
	w.S["c34"] = x
	w.OnClose(func() {
		if w.S["c34"] != x {
			return // given up
		}
		if w.ID >= 100 {
			x.sub.e.a.close()
			x.ora.e.a.close()
			return
		}
		c34PoolMu.Lock()
		c34Pool = append(c34Pool, x)
		c34PoolMu.Unlock()
	})
}

// base runs the history alone.
func (x *c34W) base(scripts []scriptT, s int) *baseT {
	if b := x.bases[s]; b != nil {
		return b
	}
	e := x.sub
	restore(e.e.a.dbs, e.g)
	b := &baseT{}
	_, _, _, hung := schedExec(nil, 0, []func(){func() { b.out = scripts[s].do(e.e, e.w) }}, []func(){func() {
		var last []int
		if n := len(b.ids); n > 0 {
			last = b.ids[n-1:]
		}
		b.ids = append(b.ids, x.state(dump(e.e.a.dbs), last...))
	}})
	if hung {
		hp("the history %s alone does not end", scripts[s].name)
	}
	b.final = x.state(dump(e.e.a.dbs))
	at := func(i int) int {
		if i >= len(b.ids) {
			return b.final
		}
		return b.ids[i]
	}
	for i := range b.ids {
		b.write = append(b.write, at(i) != at(i+1) || i > 0 && at(i) != at(i-1))
	}
	x.bases[s] = b
	return b
}

// want is what the request answers in a state, alone.
func (x *c34W) want(reqs []reqT, r, state int) ansT {
	k := [2]int{r, state}
	if a, ok := x.ans[k]; ok {
		return a
	}
	restore(x.ora.e.a.dbs, x.states[state])
	var a ansT
	if p := try(func() { a = reqs[r].do(x.ora.e) }); p != "" {
		a = ansT{Status: -1, Items: []string{p}}
	}
	x.ans[k] = a
	return a
}

// solo counts the yields of a request.
func (x *c34W) solo(reqs []reqT, r int) int {
	if n, ok := x.soloY[r]; ok {
		return n
	}
	restore(x.ora.e.a.dbs, x.ora.g)
	_, passed, _, hung := schedExec(nil, 0, []func(){func() { _ = try(func() { reqs[r].do(x.ora.e) }) }}, nil)
	if hung {
		hp("the request %s alone does not end", reqs[r].name)
	}
	x.soloY[r] = passed[0]
	return passed[0]
}

// judgeRead compares the answer with the states of the window.
func (x *c34W) judgeRead(reqs []reqT, r int, got ansT, window []int, what string) *Fail {
	same := true
	first := x.want(reqs, r, window[0])
	for _, s := range window {
		a := x.want(reqs, r, s)
		if a.key() != first.key() {
			same = false
		}
		if a.key() == got.key() {
			return nil
		}
	}
	if same {
		return failf("wrong-answer", "%s: %s answers %v; in every state it had meanwhile it is %v", what, reqs[r].name, got, first)
	}
	if !reqs[r].list {
		var all []ansT
		for _, s := range window {
			all = append(all, x.want(reqs, r, s))
		}
		return failf("wrong-answer", "%s: %s answers %v, which it was at no moment of the request: %v", what, reqs[r].name, got, all)
	}
	if got.Status != 200 {
		return nil
	}
	// lists are made of versions the objects had meanwhile
	ok := map[string]bool{}
	for _, s := range window {
		for _, n := range observeDump(x.states[s]).notes() {
			ok[n] = true
		}
	}
	seen := map[string]bool{}
	for _, it := range got.Items {
		if !ok[it] {
			return failf("list-ghost", "%s: %s lists %s, which was stored at no moment of the request", what, reqs[r].name, it)
		}
		var n struct {
			ID string `json:"id"`
		}
		_ = json.Unmarshal([]byte(it), &n)
		if seen[n.ID] {
			return failf("list-twice", "%s: %s lists %s twice", what, reqs[r].name, n.ID)
		}
		seen[n.ID] = true
	}
	return nil
}

func (w world) notes() (out []string) {
	for id, v := range w.Notes {
		out = append(out, objJSON(appT().note.obj().set("id", id).set("val", v)))
	}
	return
}

func c34(c *Ctx) {
	if schedExec == nil {
		hp("C34 is to be built over the runtime of rt/make.sh")
	}
	c.Rule = "every schedule of block processing histories and reads with a bounded number of context switches, switching at the transaction, commit and iterator steps of the storage engine (quick: those next to a change of the stored state), on the real application, client and HTTP handlers; answers compared with those in the states of the request's window, outcomes with the history alone; requests against each other in every schedule; a part of the schedules again under the race detector"
	key(7)
	scripts := c34Scripts()
	reqs, bears := c34Requests()

	// run executes one schedule.
	type caseT struct {
		Script int   // -1: none
		Reqs   []int // a thread each
		First  int
		Plan   []schedSwitch
		Fresh  bool // the first requests of an application just started
	}
	run := func(w *Worker, cs caseT) *Fail {
		return raced(func() *Fail {
			x, f := c34Worker(w)
			if f != nil {
				return f
			}
			if cs.Fresh {
				x.sub.e.a.close()
				if x.sub, f = newC34Env(); f != nil {
					delete(w.S, "c34")
					return f
				}
			}
			var b *baseT
			if cs.Script >= 0 {
				b = x.base(scripts, cs.Script)
			}
			e := x.sub
			e.n++
			restore(e.e.a.dbs, e.g)
			var threads []func()
			out, wp := "", ""
			if b != nil {
				threads = append(threads, func() { wp = try(func() { out = scripts[cs.Script].do(e.e, e.w) }) })
			}
			ans := make([]ansT, len(cs.Reqs))
			pan := make([]string, len(cs.Reqs))
			for i, r := range cs.Reqs {
				i, r := i, r
				threads = append(threads, func() { pan[i] = try(func() { ans[i] = reqs[r].do(e.e) }) })
			}
			log, _, forced, hung := schedExec(cs.Plan, cs.First, threads, nil)
			what := "reads alone"
			if b != nil {
				what = "during " + scripts[cs.Script].name
			}
			if hung {
				delete(w.S, "c34")
				return failf("hang", "%s: the processing of the block and the requests %v wait for each other", what, cs.Reqs)
			}
			addN(&c.Transitions, len(log))
			if forced > 0 {
				c.Add("forced_switches", int64(forced))
			}
			start := x.state(e.g, 0)
			likely := start
			if b != nil {
				likely = b.final
			}
			final := x.state(dump(e.e.a.dbs), likely)
			for i, r := range cs.Reqs {
				if pan[i] != "" {
					return failf("panic", "%s: %s panics: %s", what, reqs[r].name, pan[i])
				}
				window := []int{start}
				if b != nil {
					// the yields of the history that the request saw
					me := i + 1
					lo, hi := -1, -1
					for k, s := range log {
						if s.Thread == me {
							if lo < 0 {
								lo = s.Passed[0]
							}
							hi = s.Passed[0]
							if forced > 0 && k+1 < len(log) {
								hi = log[k+1].Passed[0]
							}
						}
					}
					if forced > 0 {
						lo, hi = lo-1, hi+1
						if log[len(log)-1].Thread == me {
							hi = len(b.ids) + 1
						}
					}
					window = nil
					for k := lo - 1; k <= hi-1 || k <= 0; k++ {
						switch {
						case k < 0:
							if len(b.ids) > 0 {
								window = append(window, b.ids[0])
							}
						case k < len(b.ids):
							window = append(window, b.ids[k])
						default:
							window = append(window, b.final)
						}
					}
					// at its end the history has passed all its yields and done its last step
					if hi >= len(b.ids) {
						window = append(window, b.final)
					}
				}
				if f := x.judgeRead(reqs, r, ans[i], window, what); f != nil {
					return f
				}
				c.Outcome(fmt.Sprint(cs.Script, r, ans[i].key()))
			}
			if b != nil {
				if wp != "" {
					return failf("panic", "%s panics while %s is answered: %s", scripts[cs.Script].name, reqs[cs.Reqs[0]].name, wp)
				}
				if out != b.out || final != b.final {
					return failf("influenced", "%s while %s is answered: outcome %s, alone %s; state:%s", scripts[cs.Script].name, reqs[cs.Reqs[0]].name, out, b.out, x.states[b.final].diff(x.states[final]))
				}
			} else if !x.states[final].equal(e.g) {
				return failf("influenced", "requests change the state")
			}
			return nil
		})
	}

	// the number of yields of each history and request
	w0 := newWorker(c, 99)
	x0, f := c34Worker(w0)
	if f != nil {
		hp("%s", f.Msg)
	}
	var bases []*baseT
	for s := range scripts {
		bases = append(bases, x0.base(scripts, s))
	}
	var ry []int
	for r := range reqs {
		ry = append(ry, x0.solo(reqs, r))
	}
	for _, d := range x0.states {
		c.State(d.digest())
	}
	w0.Close()
	var hy []int
	for _, b := range bases {
		hy = append(hy, len(b.ids))
	}
	c.Set("history_yields", hy)
	c.Set("request_yields", ry)

	bearing := func(r, s int) bool {
		for _, n := range bears[r] {
			if n == scripts[s].name {
				return true
			}
		}
		return false
	}
	// the same request twice, the second in the middle of the first, and each with its
	// neighbours
	first := func(emit func(caseT) bool) {
		for d := 0; d < 3; d++ {
			for r := range reqs {
				if d > 0 && !c.Thorough {
					break
				}
				if !emit(caseT{-1, []int{r, (r + d) % len(reqs)}, 0, []schedSwitch{{0, ry[r] / 2, 1}}, true}) {
					return
				}
			}
		}
	}
	if raceOn {
		// with the race detector, which is slow: fewer schedules, the most telling first
		Explore(c, "races between first reads", first, run)
		Explore(c, "races between reads", func(emit func(caseT) bool) {
			for r := range reqs {
				for q := r; q < len(reqs); q++ {
					for i := 0; i <= ry[r]; i++ {
						var p []schedSwitch
						if i < ry[r] {
							p = []schedSwitch{{0, i, 1}}
						}
						if !emit(caseT{-1, []int{r, q}, 0, p, false}) {
							return
						}
					}
				}
			}
		}, run)
		Explore(c, "races with histories", func(emit func(caseT) bool) {
			for stride := 16; stride >= 1; stride /= 2 {
				for s, b := range bases {
					for r := range reqs {
						for i := range b.ids {
							if i%stride != 0 || stride < 16 && i%(2*stride) == 0 || !bearing(r, s) && stride > 1 {
								continue
							}
							for j := 0; j <= ry[r]; j += 2 {
								p := []schedSwitch{{0, i, 1}}
								if j < ry[r] {
									p = append(p, schedSwitch{1, j, 0})
								}
								if !emit(caseT{s, []int{r}, 0, p, false}) {
									return
								}
							}
						}
					}
				}
			}
		}, run)
		if x := raceIn(raceLog()); x != "" && !c.reported("race") {
			c.report("race detector", &Fail{Key: "race", Msg: "unsynchronised access to the same memory:" + trunc(x, 3000)}, nil)
		}
		return
	}
	Explore(c, "first reads together", first, run)
	// two requests at once
	Explore(c, "reads together", func(emit func(caseT) bool) {
		for r := range reqs {
			for q := range reqs {
				if !emit(caseT{-1, []int{r, q}, 0, nil, false}) {
					return
				}
				for i := 0; i < ry[r]; i++ {
					for j := 0; j <= ry[q]; j++ {
						p := []schedSwitch{{0, i, 1}}
						if j < ry[q] {
							p = append(p, schedSwitch{1, j, 0})
						}
						if !emit(caseT{-1, []int{r, q}, 0, p, false}) {
							return
						}
						for k := i + 1; c.Thorough && j < ry[q] && k < ry[r]; k++ {
							if !emit(caseT{-1, []int{r, q}, 0, []schedSwitch{{0, i, 1}, {1, j, 0}, {0, k, 1}}, false}) {
								return
							}
						}
					}
				}
			}
		}
	}, run)

	// a request in the middle of a history: after i steps of the history j of the request,
	// then to the end of the history
	Explore(c, "read within", func(emit func(caseT) bool) {
		for s, b := range bases {
			for r := range reqs {
				for i := range b.ids {
					if !c.Thorough && !b.write[i] && (!bearing(r, s) && i%8 != 0 || i%2 != 0) {
						continue
					}
					for j := 0; j <= ry[r]; j++ {
						p := []schedSwitch{{0, i, 1}}
						if j < ry[r] {
							p = append(p, schedSwitch{1, j, 0})
							if !bearing(r, s) && !c.Thorough && j > 0 {
								continue
							}
						}
						if !emit(caseT{s, []int{r}, 0, p, false}) {
							return
						}
					}
				}
			}
		}
	}, run)
	// the request first, the history in the middle of it
	Explore(c, "history within", func(emit func(caseT) bool) {
		for s, b := range bases {
			for r := range reqs {
				if !bearing(r, s) && !c.Thorough {
					continue
				}
				for j := 0; j < ry[r]; j++ {
					for i := 0; i <= len(b.ids); i++ {
						p := []schedSwitch{{1, j, 0}}
						if i < len(b.ids) {
							if !c.Thorough && !b.write[i] {
								continue
							}
							p = append(p, schedSwitch{0, i, 1})
						}
						if !emit(caseT{s, []int{r}, 1, p, false}) {
							return
						}
					}
				}
			}
		}
	}, run)
	// three switches: the request pauses once within the history
	Explore(c, "read in two parts", func(emit func(caseT) bool) {
		for s, b := range bases {
			for r := range reqs {
				if !bearing(r, s) {
					continue
				}
				for i := range b.ids {
					for k := i + 1; k < len(b.ids); k++ {
						if !b.write[i] || !b.write[k] {
							if !c.Thorough {
								continue
							}
							if !b.write[i] && !b.write[k] {
								continue
							}
						}
						for j := 0; j < ry[r]; j++ {
							if !emit(caseT{s, []int{r}, 0, []schedSwitch{{0, i, 1}, {1, j, 0}, {0, k, 1}}, false}) {
								return
							}
						}
					}
				}
			}
		}
	}, run)
	// two requests within a history
	Explore(c, "two reads within", func(emit func(caseT) bool) {
		for s, b := range bases {
			for r := range reqs {
				for q := range reqs {
					if !bearing(r, s) || !bearing(q, s) {
						continue
					}
					for i := range b.ids {
						if !b.write[i] {
							continue
						}
						for j := 0; j < ry[r]; j++ {
							for k := 0; k < ry[q]; k++ {
								if !c.Thorough && (j+k)%3 != 0 {
									continue
								}
								if !emit(caseT{s, []int{r, q}, 0, []schedSwitch{{0, i, 1}, {1, j, 2}, {2, k, 0}}, false}) ||
									!emit(caseT{s, []int{r, q}, 0, []schedSwitch{{0, i, 1}, {1, j, 2}, {2, k, 1}}, false}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, run)
	c34Races(c)
}

// c34Races runs the schedules chosen for the race detector in a process built with it.
func c34Races(c *Ctx) {
	bin := os.Getenv("MC_RACEBIN")
	if bin == "" {
		hp("MC_RACEBIN is not set")
	}
	dir, err := os.MkdirTemp("", "mc-c34-*")
	must(err)
	defer os.RemoveAll(dir)
	args := []string{"-prop", "C34", "-tier", c.Tier, "-verif", dir, "-budget", map[bool]string{false: "25s", true: "3m"}[c.Thorough]}
	if c.replay != nil {
		if c.replay.Part != "race" {
			return
		}
		c.replayed = true
		must(os.WriteFile(dir+"/case.json", []byte(c.replay.Case), 0o644))
		args = append(args, "-replay", dir+"/case.json")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "MC_CHILD=")
	t0 := time.Now()
	out, err := cmd.CombinedOutput()
	if err != nil {
		if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() != 1 {
			hp("the process with the race detector: %v: %s", err, trunc(string(out), 2000))
		}
		fs, _ := filepath.Glob(dir + "/replay/*")
		var cs json.RawMessage = []byte("null")
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil && json.Valid(b) {
				cs = b
				break
			}
		}
		c.report("race", &Fail{Key: "race", Msg: trunc(string(out), 4000)}, cs)
		return
	}
	if c.replay != nil {
		return
	}
	var ev struct {
		Coverage map[string]interface{} `json:"coverage"`
	}
	b, err := os.ReadFile(dir + "/evidence/C34.json")
	must(err)
	must(json.Unmarshal(b, &ev))
	c.Set("under_the_race_detector", map[string]interface{}{"schedules": ev.Coverage["evaluations"], "capped": ev.Coverage["capped"], "seconds": int(time.Since(t0).Seconds())})
}
