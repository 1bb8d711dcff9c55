package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

func init() { register("C21", c21) }

// set when the explorer is built over the controlled runtime (see rt/make.sh)
var (
	rtSet   func(mapIter func(count int, b uint8) uintptr, seed uint32, rnd uint64, now int64)
	rtReset func()
)

// ---- a module that records everything it can observe in the state ----

type repTypes struct{ do, say, rec *dynType }

var (
	repTOnce sync.Once
	repTV    repTypes
)

func withMap(d *descriptorpb.DescriptorProto, pkg, name string, num int32) *descriptorpb.DescriptorProto {
	entry := strings.ToUpper(name[:1]) + name[1:] + "Entry"
	e := msgProto(entry, fieldSpec{Name: "key", Type: tString}, fieldSpec{Name: "value", Type: tString})
	e.Options = &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}
	d.NestedType = append(d.NestedType, e)
	l, ty := descriptorpb.FieldDescriptorProto_LABEL_REPEATED, tMsg
	d.Field = append(d.Field, &descriptorpb.FieldDescriptorProto{
		Name: proto.String(name), JsonName: proto.String(name), Number: proto.Int32(num), Label: &l, Type: &ty,
		TypeName: proto.String("." + pkg + "." + d.GetName() + "." + entry)})
	return d
}

func repT() repTypes {
	repTOnce.Do(func() {
		fd := mustFile(fileProto("mc/rep.proto", "mc.rep", []string{"core/rbac/xt/rbac_extension.proto"},
			external(withMap(msgProto("Do", fieldSpec{Name: "id", Type: tString}, fieldSpec{Name: "what", Type: tString}), "mc.rep", "m", 3), true),
			external(msgProto("Say", fieldSpec{Name: "id", Type: tString}, fieldSpec{Name: "line", Type: tString}), false),
			msgProto("Rec", fieldSpec{Name: "id", Type: tString}, fieldSpec{Name: "tag", Type: tString}, fieldSpec{Name: "lines", Type: tString, Repeated: true})))
		repTV = repTypes{
			do:  registerType(newDynType(fd.Messages().ByName("Do"), dynTransition)),
			say: registerType(newDynType(fd.Messages().ByName("Say"), dynTransition)),
			rec: registerType(newDynType(fd.Messages().ByName("Rec"), dynObject)),
		}
	})
	return repTV
}

// repMsg is a Do message; the map has the given number of entries.
func repMsg(id, what string, entries int) msgSpec {
	b := cat(fStr(1, id), fStr(2, what))
	for i := 0; i < entries; i++ {
		k := fmt.Sprintf("k%d", (i*7+3)%(entries+2))
		b = append(b, fBytes(3, cat(fStr(1, k), fStr(2, fmt.Sprint("v", i))))...)
	}
	return msgSpec{URL: "/mc.rep.Do", Body: b, Kind: "other"}
}

type repModule struct {
	name  string
	c     module.Client
	first bool // owns the types
}

// note appends a line to the record of the given id.
func (m *repModule) note(id, line string) error {
	if !m.first {
		return m.c.Deliver(repT().say.trans().set("id", id).set("line", line))
	}
	o := repT().rec.obj()
	err := m.c.Get(meta.NewStringID(id), o)
	fresh := err != nil
	o.set("id", id)
	l := o.m.Mutable(o.m.Descriptor().Fields().ByName("lines")).List()
	l.Append(protoStr(line))
	if fresh {
		return m.c.Create(o)
	}
	return m.c.Update(o)
}

func (m *repModule) exec(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
	tr := req.Transition.(*DynTrans)
	id := tr.str("id")
	switch tr.str("what") {
	case "users":
		var names []string
		for _, u := range req.Users.List() {
			names = append(names, u.GetName())
		}
		return resp, m.note(id, strings.Join(names, ",")+" "+req.Users.String())
	case "union":
		u := user.NewUsersUnion(req.Users, user.NewUsersFromString("z", "y", "x", "w", "v"), user.NewUsers(user.DefaultUser("q"), user.DefaultUser("p"), user.DefaultUser("z")))
		var names []string
		for _, x := range u.List() {
			names = append(names, x.GetName())
		}
		return resp, m.note(id, strings.Join(names, ",")+u.String())
	case "map", "mapfail":
		o := repT().rec.obj().set("id", id).set("tag", "t")
		if err := m.c.Create(o); err != nil {
			return resp, err
		}
		if tr.str("what") == "mapfail" {
			return resp, fmt.Errorf("fails")
		}
		return resp, nil
	case "list":
		var ids []string
		it, err := m.c.List(repT().rec.obj(), client.ListMatchFieldString("tag", "t"))
		if err != nil {
			return resp, err
		}
		for ; it.Valid(); it.Next() {
			o := repT().rec.obj()
			if err := it.Get(o); err != nil {
				return resp, err
			}
			ids = append(ids, fmt.Sprint(o.get("id")))
		}
		it.Close()
		return resp, m.note(id, strings.Join(ids, ","))
	case "vals":
		return resp, m.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: toVals([]int{0, 1})})
	}
	return resp, m.note(id, "done "+tr.str("what"))
}

func (m *repModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	t := repT()
	b := module.NewDescriptorBuilder().Named(m.name)
	if m.first {
		b.OwnsStateObject(t.rec.obj(), &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"tag"}}).
			HandlesStateTransition(t.do.trans(), statetransition.ExecutionHandlerFunc(m.exec)).
			HandlesStateTransition(t.say.trans(), statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (resp statetransition.ExecutionResponse, err error) {
				tr := req.Transition.(*DynTrans)
				return resp, m.note(tr.str("id"), tr.str("line"))
			}))
	} else {
		b.NeedsStateTransition(t.say.trans())
	}
	say := func(id string) postExecFunc {
		return func(req statetransition.PostExecutionRequest) error {
			if err := m.note(id, m.name); err != nil {
				return err
			}
			if id == "end" {
				v := new(abciv1.ValidatorUpdates)
				if err := m.c.Get(meta.SingletonID, v); err != nil {
					return err
				}
				n := len(v.ValidatorUpdates)
				return m.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: append(v.ValidatorUpdates, toVals([]int{n % len(valUpds)})...)})
			}
			return nil
		}
	}
	for _, x := range []string{"1", "2"} {
		x := x
		b.HandlesAdmission(t.do.trans(), statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			if req.Transition.(*DynTrans).str("what") == "refuse"+m.name+x {
				return fmt.Errorf("refused by %s %s", m.name, x)
			}
			return nil
		}))
	}
	b.NeedsStateTransition(&abciv1.MsgSetValidatorUpdates{}).
		WithPostStateTransitionHandler(t.do.trans(), say("post")).
		WithPostStateTransitionHandler(&abciv1.MsgSetBeginBlockState{}, say("begin")).
		WithPostStateTransitionHandler(&abciv1.MsgSetEndBlockState{}, say("end")).
		WithGenesis(compGenesis{func() error { return m.note("genesis", m.name) }})
	return b.Build()
}

// ---- replicas ----

func newReplica(sysN int) *App {
	extra := []module.Module{&repModule{name: "repa", first: true}, &repModule{name: "repb"}, &repModule{name: "repc"}}
	accs := withCollector(stdAccounts())
	for i := range accs[:3] {
		accs[i].Balance = []cn{{"test", "500"}, {"foo", "5"}}
	}
	cfg := appCfg{Accounts: accs, NoStart: true, Extra: extra}
	if sysN == 1 { // many modules and types, so that the tables of the runtime grow
		for i := 0; i < 6; i++ {
			cfg.Extra = append(cfg.Extra, &repModule{name: fmt.Sprint("rep", i)})
		}
	}
	return newApp(cfg)
}

// repCall is one ABCI call; local calls are made by one node only.
type repCall struct {
	Kind string
	Tx   []byte
	H    int64
	Path string
	Name string
}

func (a *App) call(k repCall) string {
	switch k.Kind {
	case "init":
		req := abcitypes.RequestInitChain{ChainId: chainID, InitialHeight: 1, Time: time.Unix(1600000000, 0)}
		if k.H != 0 { // a genesis without a time
			req.Time = time.Time{}
		}
		r := a.abci.InitChain(req)
		return fmt.Sprintf("init %s %x %v", updStr(r.Validators), r.AppHash, r.ConsensusParams)
	case "begin":
		req := abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: k.H, Time: time.Unix(1600000000+k.H, 5).UTC(), ProposerAddress: []byte("p")}, Hash: []byte("h")}
		if k.H%2 == 0 {
			req.ByzantineValidators = []abcitypes.Evidence{{Type: 1, Height: 1, Validator: abcitypes.Validator{Address: []byte("v"), Power: 2}}}
			req.LastCommitInfo.Votes = []abcitypes.VoteInfo{{Validator: abcitypes.Validator{Address: []byte("w"), Power: 1}, SignedLastBlock: true}}
		}
		switch k.H { // headers that say little or unusual things
		case 4:
			req = abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: k.H}}
		case 5:
			req = abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: k.H, Time: time.Unix(0, 0)}}
		case 6:
			req.Header.Time = time.Unix(-5, 7)
		case 7:
			req.Header.Time = time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)
		}
		r := a.abci.BeginBlock(req)
		return fmt.Sprint("begin ", len(r.Events))
	case "deliver":
		r := a.deliver(k.Tx)
		if c21Debug && r.Code != 0 {
			fmt.Println(k.Name, r.Log)
		}
		return fmt.Sprintf("deliver code %d data %x gas %d %d", r.Code, r.Data, r.GasWanted, r.GasUsed)
	case "end":
		r := a.abci.EndBlock(abcitypes.RequestEndBlock{Height: k.H})
		return fmt.Sprintf("end %s %v", updStr(r.ValidatorUpdates), r.ConsensusParamUpdates)
	case "commit":
		r := a.abci.Commit()
		return fmt.Sprintf("commit %x %d", r.Data, r.RetainHeight)
	// local calls
	case "check":
		a.check(k.Tx)
	case "recheck":
		a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: k.Tx, Type: abcitypes.CheckTxType_Recheck})
	case "query":
		a.abci.Query(abcitypes.RequestQuery{Path: k.Path, Height: k.H, Prove: k.H != 0})
	case "info":
		a.abci.Info(abcitypes.RequestInfo{Version: "x"})
	case "list":
		it, err := a.rt.List(repT().rec.obj(), orm.ListOptions{})
		if err == nil {
			it.Close()
		}
	default:
		hp("no call %q", k.Kind)
	}
	return ""
}

func (k repCall) String() string {
	s := k.Kind
	if k.Name != "" {
		s += " " + k.Name
	}
	if k.H != 0 {
		s += fmt.Sprintf(" at %d", k.H)
	}
	return s + k.Path
}

var c21Debug = os.Getenv("MC_C21_SITES") != ""

// repRun executes the calls on a fresh replica.
type repResult struct {
	out   []string
	mid   []Dump
	state Dump
}

func runReplica(sysN int, calls []repCall) (res repResult) {
	a := newReplica(sysN)
	defer a.close()
	for i, k := range calls {
		var s string
		if p := try(func() { s = a.call(k) }); p != "" {
			s = "panic"
		}
		if s != "" {
			res.out = append(res.out, fmt.Sprintf("%s: %s", k, s))
		}
		if k.Kind == "commit" && i+1 < len(calls) {
			res.mid = append(res.mid, dump(a.dbs))
		}
	}
	res.state = dump(a.dbs)
	return
}

func (a repResult) differs(b repResult) string {
	if len(a.out) != len(b.out) {
		return fmt.Sprintf("%d against %d answers", len(a.out), len(b.out))
	}
	for i := range a.out {
		if a.out[i] != b.out[i] {
			return fmt.Sprintf("one answers %q, the other %q", a.out[i], b.out[i])
		}
	}
	for i := range a.mid {
		if i < len(b.mid) && !a.mid[i].equal(b.mid[i]) {
			return fmt.Sprintf("the states after block %d differ: %s", i+1, a.mid[i].diff(b.mid[i]))
		}
	}
	if !a.state.equal(b.state) {
		return "the final states differ: " + a.state.diff(b.state)
	}
	return ""
}

// chooser makes the random choices of the runtime for one replica.
type chooser struct {
	n        int // map iterations so far
	at       map[int]uintptr
	all      uintptr
	sites    map[string]uintptr
	record   bool
	recorded []repChoice
	seed     uint32
	rnd      uint64
	now      int64
}

// repChoice is one map iteration of the baseline run.
type repChoice struct {
	Count int
	B     uint8
	Site  string
}

func iterSite() string {
	var pcs [48]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	first, repo := "", ""
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "runtime.") {
			if first == "" {
				first = fmt.Sprintf("%s:%d", f.Function, f.Line)
			}
			if strings.Contains(f.Function, "fdymylja/tmos") {
				repo = fmt.Sprintf("%s:%d", f.Function, f.Line)
				break
			}
		}
		if !more {
			break
		}
	}
	if repo == first {
		return first
	}
	return first + " < " + repo
}

func (h *chooser) iter(count int, b uint8) uintptr {
	if count < 2 {
		return 0
	}
	i := h.n
	h.n++
	if h.record || h.sites != nil {
		s := iterSite()
		if h.record {
			h.recorded = append(h.recorded, repChoice{count, b, s})
		}
		if r, ok := h.sites[s]; ok {
			return r
		}
	}
	if r, ok := h.at[i]; ok {
		return r
	}
	return h.all
}

// with runs f with the choices of h.
func (h *chooser) with(f func()) {
	now := h.now
	if now == 0 {
		now = 1650000000
	}
	rtSet(h.iter, h.seed, h.rnd, now)
	defer rtReset()
	f()
}

func (h *chooser) run(sysN int, calls []repCall) (r repResult) {
	h.with(func() { r = runReplica(sysN, calls) })
	return
}

// alternatives of an iteration: the other places it can start from.
func (k repChoice) alternatives(all bool) (out []uintptr) {
	if k.B == 0 {
		for o := 1; o < 8 && (all || o < k.Count); o++ {
			out = append(out, uintptr(o))
		}
		return
	}
	for s := 0; s < 1<<k.B && s < 8; s++ {
		for _, o := range []int{0, 3, 6} {
			if s != 0 || o != 0 {
				out = append(out, uintptr(o<<k.B|s))
			}
		}
	}
	return
}

// ---- scripts ----

type repTx struct {
	name string
	mk   func(w world) []byte
}

func repTxs() []repTx {
	simple := func(keys []int, ms ...msgSpec) func(w world) []byte {
		return func(w world) []byte { return mkSimple(keys, ms...)(w).bytes() }
	}
	A, B, C := key(0).addr, key(1).addr, key(2).addr
	unknownSigners := func(ks ...int) func(w world) []byte {
		return func(w world) []byte { return mkSimple(ks, repMsg("u", "x", 0))(w).bytes() }
	}
	return []repTx{
		{"users", simple([]int{0, 1, 2}, repMsg("r1", "users", 0))},
		{"union", simple([]int{0, 1}, repMsg("r2", "union", 0))},
		{"map", simple([]int{0}, repMsg("m1", "map", 6))},
		{"bigmap", simple([]int{1}, repMsg("m2", "map", 20))},
		{"mapfail", simple([]int{0}, repMsg("m3", "mapfail", 4))},
		{"list", simple([]int{0}, repMsg("r3", "list", 0))},
		{"vals", simple([]int{0}, repMsg("r4", "vals", 0))},
		{"note", simple([]int{0}, putMsg("n1", "a", ""), putMsg("n2", "b", ""))},
		{"send", simple([]int{0, 1}, sendMsg(A, B, cn{"test", "2"}), sendMsg(B, C, cn{"test", "1"}))},
		{"send2", simple([]int{0}, sendMsg(A, C, cn{"test", "1"}, cn{"foo", "1"}))},
		{"poor", simple([]int{0}, sendMsg(A, C, cn{"test", "1"}), sendMsg(A, C, cn{"test", "99999999"}))},
		{"theft", simple([]int{0}, sendMsg(B, A, cn{"test", "1"}))},
		{"hidden", simple([]int{0}, hiddenMsg("h", "v"))},
		{"create", simple([]int{0}, createMsg(key(6).addr, nil))},
		{"refused", simple([]int{0}, repMsg("r5", "refuserepa2", 0), repMsg("r6", "refuserepb1", 0))},
		{"strangers", unknownSigners(0, 5, 6, 7)},
		{"sequences", func(w world) []byte {
			t := mkSimple([]int{0, 1, 2}, repMsg("s", "x", 0))(w)
			t.Signers[1].Seq += 5
			t.Signers[2].Seq += 9
			return t.bytes()
		}},
		{"mixed", func(w world) []byte {
			t := mkSimple([]int{0, 1, 5}, repMsg("s", "x", 0), hiddenMsg("a", "b"))(w)
			t.Signers[1].Num += 3
			return t.bytes()
		}},
		{"panics", simple([]int{0}, putMsg("p", "a", "panic"))},
		{"junk", func(world) []byte { return []byte("junk") }},
		{"forged", func(w world) []byte {
			body, auth := forgedTwin(w).parts()
			return wTx(body, auth, make([]byte, 64))
		}},
		{"other key", func(w world) []byte {
			t := forgedTwin(w)
			body, auth := t.parts()
			return wTx(body, auth, key(1).sign(signDoc(body, auth, chainID, t.Signers[0].Num)))
		}},
		{"stale", func(w world) []byte {
			t := mkSimple([]int{0}, putMsg("n3", "c", ""))(w)
			t.Signers[0].Seq = 0
			return t.bytes()
		}},
	}
}

// forgedTwin is the well signed transaction of which "forged" and "other key" are the
// badly signed twins.
func forgedTwin(w world) txSpec {
	return mkSimple([]int{0}, sendMsg(key(0).addr, key(1).addr, cn{"test", "3"}))(w)
}

// script makes the calls of blocks of transactions, each built for the state in which
// it is delivered.
func repScript(sysN int, blocks [][]int) []repCall {
	txs := repTxs()
	a := newReplica(sysN)
	defer a.close()
	var out []repCall
	do := func(k repCall) {
		out = append(out, k)
		try(func() { a.call(k) })
	}
	do(repCall{Kind: "init", H: int64(sysN)})
	for h, b := range blocks {
		H := int64(h + 1)
		do(repCall{Kind: "begin", H: H})
		for _, t := range b {
			do(repCall{Kind: "deliver", Name: txs[t].name, Tx: txs[t].mk(a.observe())})
		}
		do(repCall{Kind: "end", H: H})
		do(repCall{Kind: "commit", H: H})
	}
	return out
}

func allTxs() (b []int) {
	for i := range repTxs() {
		b = append(b, i)
	}
	return
}

// ---- the check ----

func c21(c *Ctx) {
	if rtSet == nil {
		hp("C21 needs the explorer to be built over the controlled runtime: use check.sh")
	}
	c.Rule = "the same blocks on two nodes: every single map iteration of the run of a script (building the node included) started at every other place; all of them at once, with other hash seeds, random numbers and clocks; pairs of iterating statements; every block history over the transactions with checks, queries and reads of one node at every position; separate processes with other environments"
	key(7)
	txs := repTxs()
	// the script with everything, long and short
	nsys := 2
	half := len(txs) / 2
	full := [][]int{allTxs()[:half], {}, allTxs()[half:], {7}, {}, {}, {}}
	scripts := make([][]repCall, nsys)
	bases := make([]repResult, nsys)
	recs := make([][]repChoice, nsys)
	for i := range scripts {
		scripts[i] = repScript(i, full)
		h := &chooser{record: true}
		bases[i] = h.run(i, scripts[i])
		recs[i] = h.recorded
		c.Set(fmt.Sprintf("map_iterations_%d", i), len(recs[i]))
	}
	sites := map[string]repChoice{}
	for _, r := range recs {
		for _, k := range r {
			if x, ok := sites[k.Site]; !ok || k.Count > x.Count {
				sites[k.Site] = k
			}
		}
	}
	names := sortedKeys(sites)
	c.Set("map_iteration_sites", len(names))
	if c21Debug {
		c21Debug = false
		for _, n := range names {
			fmt.Println(n, sites[n].Count, sites[n].B)
		}
		fmt.Println(len(recs[0]), len(recs[1]))
		for _, o := range bases[0].out {
			fmt.Println(o)
		}
	}
	judge := func(sysN int, r repResult, what func() string) *Fail {
		addN(&c.Transitions, len(scripts[sysN]))
		c.State(r.state.digest())
		if d := bases[sysN].differs(r); d != "" {
			return failf("diverges", "two nodes that differ only in %s disagree: %s", what(), d)
		}
		addN(&c.Traces, 1)
		return nil
	}

	// one statement, all its iterations
	type siteCase struct {
		Sys, Site int
		Other     int // another statement, or -1
	}
	Explore(c, "statements", func(emit func(siteCase) bool) {
		for s := range scripts {
			for i := range names {
				if !emit(siteCase{s, i, -1}) {
					return
				}
			}
		}
	}, func(w *Worker, sc siteCase) *Fail {
		k := sites[names[sc.Site]]
		for _, r := range k.alternatives(c.Thorough) {
			h := &chooser{sites: map[string]uintptr{k.Site: r}}
			if f := judge(sc.Sys, h.run(sc.Sys, scripts[sc.Sys]), func() string { return fmt.Sprintf("the order in which %s iterates (start %d)", k.Site, r) }); f != nil {
				f.Key = "order:" + strings.Split(k.Site, ":")[0]
				return f
			}
		}
		c.Outcome(fmt.Sprint(sc))
		return nil
	})
	// everything at once
	type uniCase struct {
		Sys  int
		All  uintptr
		Seed uint32
		Rnd  uint64
		Now  int64
	}
	Explore(c, "uniform", func(emit func(uniCase) bool) {
		for s := range scripts {
			for all := uintptr(0); all < 32; all++ {
				seeds := uint32(2)
				if c.Thorough {
					seeds = 16
				}
				for seed := uint32(0); seed < seeds; seed++ {
					if !emit(uniCase{s, all, seed * 2654435761, 0, 0}) {
						return
					}
				}
			}
			for r := uint64(1); r <= 8; r++ {
				if !emit(uniCase{s, 0, 0, r * 1000003, 0}) {
					return
				}
			}
			for _, n := range []int64{1, 1599999999, 1600000001, 1650000001, 1650000060, 1650003600, 1650086400, 1 << 33, 1 << 36} {
				if !emit(uniCase{s, 0, 0, 0, n}) {
					return
				}
			}
		}
	}, func(w *Worker, uc uniCase) *Fail {
		h := &chooser{all: uc.All, seed: uc.Seed, rnd: uc.Rnd, now: uc.Now}
		c.Outcome(fmt.Sprint(uc))
		f := judge(uc.Sys, h.run(uc.Sys, scripts[uc.Sys]), func() string {
			return fmt.Sprintf("the choices of the Go runtime or the clock: map iterations %d, hash seed %d, random numbers %d, clock %d", uc.All, uc.Seed, uc.Rnd, uc.Now)
		})
		if f != nil {
			switch {
			case uc.Rnd != 0:
				f.Key = "random"
			case uc.Now != 0:
				f.Key = "clock"
			}
		}
		return f
	})
	// the histories with local calls of one node
	noise := func(w world) (out []repCall) {
		for _, t := range txs {
			raw := t.mk(w)
			out = append(out, repCall{Kind: "check", Name: t.name, Tx: raw}, repCall{Kind: "recheck", Name: t.name, Tx: raw})
		}
		raw := forgedTwin(w).bytes()
		out = append(out, repCall{Kind: "check", Name: "twin", Tx: raw}, repCall{Kind: "recheck", Name: "twin", Tx: raw})
		for _, p := range []string{"api_resources", "get/tmos.x.authn.v1alpha1/Account/" + key(0).addr, "get/mc.rep/Rec/r1", "get/x", "", "get/tmos.abci.v1alpha1/Stage/unique"} {
			out = append(out, repCall{Kind: "query", Path: p}, repCall{Kind: "query", Path: p, H: 1})
		}
		return append(out, repCall{Kind: "info"}, repCall{Kind: "list"})
	}
	type noiseCase struct {
		Sys   int
		Words []int
		Split int // transactions in the first block
	}
	small := []int{0, 2, 4, 5, 7, 8, 10, 13, 15, 16, 20}
	if c.Thorough {
		small = append(small, 21, 22)
	}
	maxLen := 2
	if c.Thorough {
		maxLen = 3
	}
	Explore(c, "local-calls", func(emit func(noiseCase) bool) {
		words(len(small), maxLen, func(ix []int) bool {
			for sp := 0; sp <= len(ix); sp++ {
				if sp != len(ix) && !c.Thorough {
					continue
				}
				if !emit(noiseCase{0, append([]int{}, ix...), sp}) {
					return false
				}
			}
			return true
		})
	}, func(w *Worker, nc noiseCase) *Fail {
		blocks := [][]int{{}, {}}
		for i, x := range nc.Words {
			b := 0
			if i >= nc.Split {
				b = 1
			}
			blocks[b] = append(blocks[b], small[x])
		}
		calls := repScript(nc.Sys, blocks)
		base := new(chooser).run(nc.Sys, calls)
		c.State(base.state.digest())
		// the node that is also used between the calls
		a := newReplica(nc.Sys)
		defer a.close()
		var res repResult
		rtSet(new(chooser).iter, 0, 0, 1650000000)
		defer rtReset()
		for i, k := range calls {
			if i > 0 {
				for _, l := range noise(a.observe()) {
					try(func() { a.call(l) })
				}
			}
			var s string
			if p := try(func() { s = a.call(k) }); p != "" {
				s = "panic"
			}
			res.out = append(res.out, fmt.Sprintf("%s: %s", k, s))
			if k.Kind == "commit" && i+1 < len(calls) {
				res.mid = append(res.mid, dump(a.dbs))
			}
		}
		for _, l := range noise(a.observe()) {
			try(func() { a.call(l) })
		}
		res.state = dump(a.dbs)
		addN(&c.Transitions, len(calls))
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint(nc))
		if d := base.differs(res); d != "" {
			return failf("local-calls", "two nodes that execute %v, one of which also checks transactions and answers queries in between, disagree: %s", calls, d)
		}
		return nil
	})
	// each local call alone, at each position of the long script
	type oneCase struct {
		Pos, Noise int
	}
	nNoise := len(noise(newCrashWorld()))
	Explore(c, "one-local-call", func(emit func(oneCase) bool) {
		for p := 1; p <= len(scripts[0]); p++ {
			for n := 0; n < nNoise; n++ {
				if (p+n)%6 != 0 && !c.Thorough {
					continue
				}
				if !emit(oneCase{p, n}) {
					return
				}
			}
		}
	}, func(w *Worker, oc oneCase) *Fail {
		a := newReplica(0)
		defer a.close()
		var res repResult
		var what repCall
		rtSet(new(chooser).iter, 0, 0, 1650000000)
		defer rtReset()
		calls := scripts[0]
		for i := 0; i <= len(calls); i++ {
			if i == oc.Pos {
				what = noise(a.observe())[oc.Noise]
				try(func() { a.call(what) })
			}
			if i == len(calls) {
				break
			}
			k := calls[i]
			var s string
			if p := try(func() { s = a.call(k) }); p != "" {
				s = "panic"
			}
			res.out = append(res.out, fmt.Sprintf("%s: %s", k, s))
			if k.Kind == "commit" && i+1 < len(calls) {
				res.mid = append(res.mid, dump(a.dbs))
			}
		}
		res.state = dump(a.dbs)
		c.Outcome(fmt.Sprint(oc))
		f := judge(0, res, func() string { return fmt.Sprintf("one %v before call %d", what, oc.Pos) })
		if f != nil {
			f.Key = "local-calls"
		}
		return f
	})
	// one iteration
	type instCase struct{ Sys, From int }
	chunk := 16
	nth := make([][]int, nsys)
	for s, r := range recs {
		seen := map[string]int{}
		for _, k := range r {
			nth[s] = append(nth[s], seen[k.Site])
			seen[k.Site]++
		}
	}
	Explore(c, "iterations", func(emit func(instCase) bool) {
		for s := range scripts {
			if s > 0 && !c.Thorough {
				break
			}
			for i := 0; i < len(recs[s]); i += chunk {
				if !emit(instCase{s, i}) {
					return
				}
			}
		}
	}, func(w *Worker, ic instCase) *Fail {
		for i := ic.From; i < ic.From+chunk && i < len(recs[ic.Sys]); i++ {
			k := recs[ic.Sys][i]
			if nth[ic.Sys][i] >= 12 && !c.Thorough {
				continue // the first iterations of each statement only
			}
			alts := k.alternatives(false)
			if !c.Thorough {
				alts = alts[len(alts)-1:]
			}
			for _, r := range alts {
				h := &chooser{at: map[int]uintptr{i: r}}
				if f := judge(ic.Sys, h.run(ic.Sys, scripts[ic.Sys]), func() string { return fmt.Sprintf("where iteration %d, at %s, starts (%d)", i, k.Site, r) }); f != nil {
					f.Key = "order:" + strings.Split(k.Site, ":")[0]
					return f
				}
			}
		}
		c.Outcome(fmt.Sprint(ic))
		return nil
	})
	// separate processes
	envs := [][]string{nil, {"TZ=Asia/Tokyo"}, {"TZ=America/New_York", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8"}, {"HOME=/nonexistent", "USER=nobody", "HOSTNAME=other"}, {"GOMAXPROCS=1"}, {"GOMAXPROCS=3", "GOGC=1"}, {"GODEBUG=randautoseed=0"}}
	type procCase struct{ Sys, Env int }
	Explore(c, "processes", func(emit func(procCase) bool) {
		for s := range scripts {
			for e := range envs {
				if !emit(procCase{s, e}) {
					return
				}
			}
		}
	}, func(w *Worker, pc procCase) *Fail {
		got, err := replicaProcess(pc.Sys, scripts[pc.Sys], envs[pc.Env])
		if err != nil {
			return failf("process", "the node of environment %v: %v", envs[pc.Env], err)
		}
		addN(&c.Transitions, len(scripts[pc.Sys]))
		c.Outcome(fmt.Sprint(pc))
		if d := bases[pc.Sys].differs(got); d != "" {
			return failf("process", "two node processes, one with environment %v, disagree: %s", envs[pc.Env], d)
		}
		addN(&c.Traces, 1)
		return nil
	})
	if c.Thorough {
		Explore(c, "statement-pairs", func(emit func(siteCase) bool) {
			for i := range names {
				for j := i + 1; j < len(names); j++ {
					if !emit(siteCase{0, i, j}) {
						return
					}
				}
			}
		}, func(w *Worker, sc siteCase) *Fail {
			a, b := sites[names[sc.Site]], sites[names[sc.Other]]
			ra, rb := a.alternatives(false), b.alternatives(false)
			h := &chooser{sites: map[string]uintptr{a.Site: ra[len(ra)/2], b.Site: rb[len(rb)/2]}}
			f := judge(sc.Sys, h.run(sc.Sys, scripts[sc.Sys]), func() string { return fmt.Sprintf("the orders in which %s and %s iterate", a.Site, b.Site) })
			if f != nil {
				f.Key = "order:" + strings.Split(a.Site, ":")[0]
			}
			return f
		})
	}
}

// replicaProcess runs the calls in a process of its own.
func replicaProcess(sysN int, calls []repCall, env []string) (res repResult, err error) {
	in, _ := json.Marshal(struct {
		Sys   int
		Calls []repCall
	}{sysN, calls})
	dir, err := os.MkdirTemp("", "mcrep")
	if err != nil {
		return res, err
	}
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		return res, err
	}
	cmd := exec.Command(exe)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "MC_REPLICA=1"), env...)
	cmd.Stdin = bytes.NewReader(in)
	b, err := cmd.Output()
	if err != nil {
		return res, fmt.Errorf("%v: %s", err, trunc(string(b), 300))
	}
	var out struct {
		Out   []string
		State []map[string]string
	}
	i := bytes.LastIndex(b, []byte("\n{"))
	if err := json.Unmarshal(b[i+1:], &out); err != nil {
		return res, err
	}
	for _, m := range out.State {
		d := map[string]string{}
		for k, v := range m {
			kk, _ := hex.DecodeString(k)
			vv, _ := hex.DecodeString(v)
			d[string(kk)] = string(vv)
		}
		res.state = append(res.state, d)
	}
	res.out = out.Out
	return res, nil
}

// replicaMain is the other side of replicaProcess. The choices of its runtime are random.
func replicaMain() {
	var in struct {
		Sys   int
		Calls []repCall
	}
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	r := runReplica(in.Sys, in.Calls)
	st := []map[string]string{}
	for _, d := range r.state {
		m := map[string]string{}
		for k, v := range d {
			m[hex.EncodeToString([]byte(k))] = hex.EncodeToString([]byte(v))
		}
		st = append(st, m)
	}
	b, _ := json.Marshal(map[string]interface{}{"Out": r.out, "State": st})
	fmt.Printf("\n%s\n", b)
}
