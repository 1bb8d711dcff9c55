package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
	tmcrypto "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	gogoproto "github.com/gogo/protobuf/proto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tmversion "github.com/tendermint/tendermint/proto/tendermint/version"
	"google.golang.org/protobuf/proto"
)

func init() { register("C18", c18) }

// valUpd is one validator update: "e" ed25519 or "s" secp256k1 key, key bytes, power.
type valUpd struct {
	Kind  string
	Key   string
	Power int64
}

var valUpds = []valUpd{
	{"e", strings.Repeat("\x01", 32), 10}, {"s", "\x02" + strings.Repeat("\x07", 32), 1 << 40},
	{"e", strings.Repeat("\x01", 32), 0}, {"e", "", 3}, {"s", strings.Repeat("\x01", 32), 7},
	{"e", strings.Repeat("\x01", 32), -1}, {"s", "\x02" + strings.Repeat("\x07", 32), math.MinInt64}, {"e", strings.Repeat("\x01", 32), math.MaxInt64}, {"s", "", 0},
}

func toVals(ix []int) (out []*abci.ValidatorUpdate) {
	for _, i := range ix {
		u := valUpds[i]
		pk := &tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: []byte(u.Key)}}
		if u.Kind == "s" {
			pk = &tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Secp256K1{Secp256K1: []byte(u.Key)}}
		}
		out = append(out, &abci.ValidatorUpdate{PubKey: pk, Power: u.Power})
	}
	return
}

func updStr(us []abcitypes.ValidatorUpdate) string {
	var s []string
	for _, u := range us {
		k := fmt.Sprintf("%T", u.PubKey.Sum)
		s = append(s, fmt.Sprintf("%s:%x%x:%d", k[strings.LastIndex(k, "_")+1:], u.PubKey.GetEd25519(), u.PubKey.GetSecp256K1(), u.Power))
	}
	return strings.Join(s, ",")
}

func wantStr(ix []int) string {
	var s []string
	for _, i := range ix {
		u := valUpds[i]
		s = append(s, fmt.Sprintf("%s:%x:%d", map[string]string{"e": "Ed25519", "s": "Secp256K1"}[u.Kind], u.Key, u.Power))
	}
	return strings.Join(s, ",")
}

// valModule runs a script after the ABCI module handled a block's begin or end.
type valModule struct {
	name    string
	c       module.Client
	at      map[string]func() // begin, end, init, genesis
	genesis func() error
}

func (m *valModule) run(what string) postExecFunc {
	return func(statetransition.PostExecutionRequest) error {
		if f := m.at[what]; f != nil {
			f()
		}
		return nil
	}
}

func (m *valModule) set(ix []int) error {
	return m.c.Deliver(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: toVals(ix)})
}

func (m *valModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	m.at = map[string]func(){}
	return module.NewDescriptorBuilder().Named(m.name).
		NeedsStateTransition(&abciv1.MsgSetValidatorUpdates{}).
		WithPostStateTransitionHandler(&abciv1.MsgSetBeginBlockState{}, m.run("begin")).
		WithPostStateTransitionHandler(&abciv1.MsgSetEndBlockState{}, m.run("end")).
		WithPostStateTransitionHandler(&abciv1.MsgSetInitChain{}, m.run("init")).
		WithGenesis(compGenesis{func() error {
			if m.genesis != nil {
				return m.genesis()
			}
			return nil
		}}).Build()
}

// blockModel is what the recorded ABCI state must be.
type blockModel struct {
	Stage   abciv1.ABCIStage
	Chain   string
	Current int64
	Begin   string // gogo bytes of the last begin-block
	End     int64
	HasEnd  bool
	Pending []int // indexes into valUpds
}

func (m blockModel) key() string { return fmt.Sprintf("%+v", m) }

type blockSys struct {
	a      *App
	v1, v2 *valModule
}

func newBlockSys(noStart bool) *blockSys {
	s := &blockSys{v1: &valModule{name: "v1"}, v2: &valModule{name: "v2"}}
	s.a = newApp(appCfg{Accounts: stdAccounts(), Extra: []module.Module{s.v1, s.v2}, NoStart: noStart})
	return s
}

func (s *blockSys) reset() {
	for k := range s.v1.at {
		delete(s.v1.at, k)
	}
	for k := range s.v2.at {
		delete(s.v2.at, k)
	}
}

// check compares the recorded state with the model.
func (s *blockSys) check(m blockModel) *Fail {
	rt := s.a.rt
	st := new(abciv1.Stage)
	if err := rt.Get(meta.SingletonID, st); err != nil || st.Stage != m.Stage {
		return failf("stage", "stage is %v (%v), must be %v", st.Stage, err, m.Stage)
	}
	ic := new(abciv1.InitChainInfo)
	if err := rt.Get(meta.SingletonID, ic); err != nil || ic.ChainId != m.Chain {
		return failf("chain-id", "recorded chain id is %q (%v), must be %q", ic.ChainId, err, m.Chain)
	}
	cb := new(abciv1.CurrentBlock)
	if err := rt.Get(meta.SingletonID, cb); err != nil || int64(cb.BlockNumber) != m.Current {
		return failf("current-block", "current block is %d (%v), must be %d", int64(cb.BlockNumber), err, m.Current)
	}
	bb := new(abciv1.BeginBlockState)
	if err := rt.Get(meta.SingletonID, bb); err != nil {
		return failf("begin-block", "%v", err)
	}
	if m.Begin == "" {
		if bb.BeginBlock != nil {
			return failf("begin-block", "begin-block state %v before any block", bb)
		}
	} else {
		var want, got abcitypes.RequestBeginBlock
		must(gogoproto.Unmarshal([]byte(m.Begin), &want))
		if bb.BeginBlock == nil {
			return failf("begin-block", "no begin-block state recorded")
		}
		raw, err := proto.Marshal(bb.BeginBlock)
		must(err)
		if err := gogoproto.Unmarshal(raw, &got); err != nil || !reflect.DeepEqual(want, got) {
			return failf("begin-block", "recorded begin-block data (%v)\n  %v\n  must be\n  %v", err, got, want)
		}
		if f := unknownIn(bb); f != "" {
			return failf("begin-block", "recorded begin-block data has unreadable parts: %s", f)
		}
	}
	eb := new(abciv1.EndBlockState)
	if err := rt.Get(meta.SingletonID, eb); err != nil {
		return failf("end-block", "%v", err)
	}
	if m.HasEnd && (eb.EndBlock == nil || eb.EndBlock.Height != m.End) || !m.HasEnd && eb.EndBlock != nil {
		return failf("end-block", "recorded end-block state %v, must be height %d (%v)", eb, m.End, m.HasEnd)
	}
	return nil
}

// unknownIn finds fields a message did not understand.
func unknownIn(m proto.Message) string {
	b, err := proto.Marshal(m)
	must(err)
	n := m.ProtoReflect().New().Interface()
	must(proto.UnmarshalOptions{DiscardUnknown: true}.Unmarshal(b, n))
	if !proto.Equal(m, n) {
		return hex.EncodeToString(b)
	}
	return ""
}

func (s *blockSys) begin(m blockModel, b abcitypes.RequestBeginBlock) (blockModel, *Fail) {
	raw, err := gogoproto.Marshal(&b)
	must(err)
	m.Stage, m.Begin, m.Current = abciv1.ABCIStage_BeginBlock, string(raw), b.Header.Height
	s.a.abci.BeginBlock(b)
	return m, s.check(m)
}

func (s *blockSys) end(m blockModel, h int64) (blockModel, *Fail) {
	m.Stage, m.End, m.HasEnd = abciv1.ABCIStage_EndBlock, h, true
	r := s.a.abci.EndBlock(abcitypes.RequestEndBlock{Height: h})
	if got, want := updStr(r.ValidatorUpdates), wantStr(m.Pending); got != want {
		k := "end-updates"
		if len(r.ValidatorUpdates) > 0 && len(m.Pending) == 0 {
			k = "end-updates-again"
		}
		return m, failf(k, "EndBlock(%d) returns the validator updates [%s], must return [%s]", h, got, want)
	}
	if r.ConsensusParamUpdates != nil {
		return m, failf("end-params", "EndBlock returns consensus parameter updates %v", r.ConsensusParamUpdates)
	}
	m.Pending = nil
	return m, s.check(m)
}

// set tries to set validator updates now.
func (s *blockSys) set(v *valModule, m blockModel, ix []int) (blockModel, *Fail) {
	allowed := m.Stage == abciv1.ABCIStage_InitChain || m.Stage == abciv1.ABCIStage_EndBlock
	err := v.set(ix)
	if (err == nil) != allowed {
		return m, failf("set-stage", "setting validator updates in stage %v: error %v", m.Stage, err)
	}
	if allowed {
		m.Pending = ix
	}
	return m, s.check(m)
}

type blockOp struct {
	name string
	do   func(s *blockSys, m blockModel) (blockModel, *Fail)
}

func blockOps() []blockOp {
	var ops []blockOp
	op := func(name string, f func(s *blockSys, m blockModel) (blockModel, *Fail)) {
		ops = append(ops, blockOp{name, f})
	}
	hdr := func(h int64) abcitypes.RequestBeginBlock {
		return abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: h, ChainID: "other", Time: time.Unix(5, 7).UTC()}}
	}
	op("begin 1", func(s *blockSys, m blockModel) (blockModel, *Fail) { return s.begin(m, hdr(1)) })
	op("begin 2 with votes", func(s *blockSys, m blockModel) (blockModel, *Fail) {
		b := hdr(2)
		b.Hash = []byte("h")
		b.LastCommitInfo = abcitypes.LastCommitInfo{Round: 1, Votes: []abcitypes.VoteInfo{{Validator: abcitypes.Validator{Address: []byte("a"), Power: 1}, SignedLastBlock: true}}}
		return s.begin(m, b)
	})
	op("begin 1, a module tries to set updates", func(s *blockSys, m blockModel) (blockModel, *Fail) {
		var err error
		called := false
		s.v1.at["begin"] = func() { called = true; err = s.v1.set([]int{0}) }
		defer s.reset()
		m, f := s.begin(m, hdr(1))
		if f == nil && called && err == nil {
			f = failf("set-stage", "validator updates can be set in begin-block")
		}
		return m, f
	})
	end := func(h int64, one, two [][]int) {
		op(fmt.Sprintf("end %d, v1 sets %v, v2 sets %v", h, one, two), func(s *blockSys, m blockModel) (blockModel, *Fail) {
			var f *Fail
			script := func(v *valModule, sets [][]int) func() {
				return func() {
					for _, ix := range sets {
						if err := v.set(ix); err != nil {
							f = failf("set-stage", "setting validator updates in end-block is refused: %v", err)
						}
					}
				}
			}
			s.v1.at["end"], s.v2.at["end"] = script(s.v1, one), script(s.v2, two)
			defer s.reset()
			for _, ix := range append(append([][]int{}, one...), two...) {
				m.Pending = ix
			}
			m, f2 := s.end(m, h)
			if f == nil {
				f = f2
			}
			return m, f
		})
	}
	end(1, nil, nil)
	end(2, [][]int{{0}}, nil)
	end(1, [][]int{{1, 0, 2}}, nil)
	end(1, [][]int{{0, 3}, {4, 1}}, nil)
	end(3, [][]int{{0}}, [][]int{{1}})
	end(3, [][]int{{0}}, [][]int{{}})
	for i, ix := range [][]int{{0}, {1, 4}, {}} {
		ix := ix
		op(fmt.Sprintf("a module sets %v", ix), func(s *blockSys, m blockModel) (blockModel, *Fail) {
			v := s.v1
			if i == 1 {
				v = s.v2
			}
			return s.set(v, m, ix)
		})
	}
	for i, t := range []struct {
		tr meta.StateTransition
		st abciv1.ABCIStage
	}{
		{&abciv1.MsgSetDeliverTxState{DeliverTx: &abci.RequestDeliverTx{Tx: []byte("x")}}, abciv1.ABCIStage_DeliverTx},
		{&abciv1.MsgSetCheckTxState{CheckTx: &abci.RequestCheckTx{Tx: []byte("x")}}, abciv1.ABCIStage_CheckTx},
		{&abciv1.MsgSetCheckTxState{CheckTx: &abci.RequestCheckTx{Tx: []byte("y"), Type: abci.CheckTxType_RECHECK}}, abciv1.ABCIStage_ReCheckTx},
	} {
		t := t
		op([]string{"deliver-tx stage", "check-tx stage", "recheck-tx stage"}[i], func(s *blockSys, m blockModel) (blockModel, *Fail) {
			if err := s.a.rt.Deliver(user.NewUsersFromString(user.ABCI), t.tr); err != nil {
				return m, failf("stage", "setting the stage %v: %v", t.st, err)
			}
			m.Stage = t.st
			return m, s.check(m)
		})
	}
	op("a transaction", func(s *blockSys, m blockModel) (blockModel, *Fail) {
		w := s.a.observe()
		r := s.a.deliver(mkSimple([]int{0}, putMsg("n", "v", ""))(w).bytes())
		_ = r

		return m, s.check(m)
	})
	op("commit", func(s *blockSys, m blockModel) (blockModel, *Fail) {
		s.a.abci.Commit()
		return m, s.check(m)
	})
	op("info and check-tx", func(s *blockSys, m blockModel) (blockModel, *Fail) {
		s.a.abci.Info(abcitypes.RequestInfo{})
		s.a.check([]byte("x"))
		return m, s.check(m)
	})
	return ops
}

func c18(c *Ctx) {
	c.Rule = "breadth-first over every sequence of block begins, ends (with every kind of module script setting validator updates), direct attempts to set updates, stage transitions and transactions; after each call the recorded stage, heights, chain id and block data and the returned updates are compared with a model of the ABCI calls. Every begin-block field is enumerated, as are lists of up to 257 updates, votes and evidence; chains are initialised with every id and genesis script."
	ops := blockOps()
	mk := func() *system[blockModel] {
		s := newBlockSys(false)
		g := dump(s.a.dbs)
		sys := &system[blockModel]{dbs: s.a.dbs, genesis: g, m0: blockModel{Stage: abciv1.ABCIStage_InitChain, Chain: chainID}, close: s.a.close, renew: 500, onRestore: s.reset}
		sys.step = func(m blockModel, op int) (blockModel, *Fail) { return ops[op].do(s, m) }
		return sys
	}
	name := func(op int) string { return ops[op].name }
	txOp := -1
	for i := range ops {
		if ops[i].name == "a transaction" {
			txOp = i
		}
	}
	// the transaction's own effects are not part of the model: it is left to the walks
	bfsOps := append([]blockOp{}, ops...)
	bfsOps = append(bfsOps[:txOp], bfsOps[txOp+1:]...)
	mkB := func() *system[blockModel] {
		sys := mk()
		all := sys.step
		sys.step = func(m blockModel, op int) (blockModel, *Fail) {
			if op >= txOp {
				op++
			}
			return all(m, op)
		}
		return sys
	}
	BFS(c, "block histories", len(bfsOps), 12, 100000, func(op int) string { return bfsOps[op].name }, mkB, blockModel.key)
	n := 3
	if c.Thorough {
		n = 4
	}
	Walk(c, "block walks", windows(len(ops), n, 120), name, mk)

	// every field of the begin-block data, alone and in pairs
	type fieldCase struct{ A, B, H int }
	sets := beginSets()
	heights := []int64{0, 1, 2, 255, 256, 1 << 31, 1<<62 + 5}
	Explore(c, "begin-block data", func(emit func(fieldCase) bool) {
		for h := range heights {
			for a := range sets {
				for b := 0; b <= a; b++ {
					if h > 1 && b > 0 {
						continue
					}
					if !emit(fieldCase{a, b, h}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, fc fieldCase) *Fail {
		s, ok := w.S["sys"].(*blockSys)
		if !ok {
			s = newBlockSys(false)
			w.S["sys"] = s
			w.OnClose(s.a.close)
			w.S["m"] = blockModel{Stage: abciv1.ABCIStage_InitChain, Chain: chainID}
		}
		m := w.S["m"].(blockModel)
		b := abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: heights[fc.H]}}
		sets[fc.A](&b)
		sets[fc.B](&b)
		m, f := s.begin(m, b)
		if f == nil {
			m, f = s.end(m, b.Header.Height)
		}
		w.S["m"] = m
		c.Outcome(m.Begin)
		addN(&c.Transitions, 2)
		return f
	})

	// every short list of validator updates comes back from the next end-block as it was set
	type updCase struct{ Ups []int }
	Explore(c, "updates", func(emit func(updCase) bool) {
		n := 3
		if c.Thorough {
			n = 4
		}
		for l := 0; l <= n; l++ {
			if !wordsLen(len(valUpds), l, func(ix []int) bool {
				return emit(updCase{append([]int{}, ix...)})
			}) {
				return
			}
		}
	}, func(w *Worker, uc updCase) *Fail {
		s, ok := w.S["upd"].(*blockSys)
		if !ok {
			s = newBlockSys(false)
			w.S["upd"] = s
			w.OnClose(s.a.close)
			w.S["updm"] = blockModel{Stage: abciv1.ABCIStage_InitChain, Chain: chainID}
		}
		m := w.S["updm"].(blockModel)
		m, f := s.begin(m, abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: m.Current + 1}})
		if f == nil {
			var serr error
			s.v1.at["end"] = func() { serr = s.v1.set(uc.Ups) }
			m.Pending = uc.Ups
			m, f = s.end(m, m.Current)
			s.reset()
			if serr != nil {
				f = failf("set-stage", "setting the validator updates [%s] in end-block is refused: %v", wantStr(uc.Ups), serr)
			}
		}
		w.S["updm"] = m
		c.Outcome(wantStr(uc.Ups))
		addN(&c.Transitions, 2)
		addN(&c.Traces, 1)
		return f
	})

	// long lists of updates, and of votes and evidence
	type longUpd struct{ N, At int }
	Explore(c, "many updates", func(emit func(longUpd) bool) {
		for _, n := range sizesTo(most(c, 257, 2049)) {
			ps := placesIn(n)
			if !c.Thorough && len(ps) > 3 {
				ps = []int{ps[0], ps[len(ps)/2], ps[len(ps)-1]}
			}
			for _, p := range ps {
				if !emit(longUpd{n, p}) {
					return
				}
			}
		}
	}, func(w *Worker, lu longUpd) *Fail {
		s, ok := w.S["upd"].(*blockSys)
		if !ok {
			s = newBlockSys(false)
			w.S["upd"] = s
			w.OnClose(s.a.close)
			w.S["updm"] = blockModel{Stage: abciv1.ABCIStage_InitChain, Chain: chainID}
		}
		m := w.S["updm"].(blockModel)
		var ups []int
		b := abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: m.Current + 1}}
		for i := 0; i < lu.N; i++ {
			u := i % 2
			if i == lu.At {
				u = 2 % len(valUpds)
			}
			ups = append(ups, u)
			v := abcitypes.Validator{Address: []byte(fmt.Sprint("v", i)), Power: int64(i)}
			b.LastCommitInfo.Votes = append(b.LastCommitInfo.Votes, abcitypes.VoteInfo{Validator: v, SignedLastBlock: i != lu.At})
			b.ByzantineValidators = append(b.ByzantineValidators, abcitypes.Evidence{Type: abcitypes.EvidenceType(i % 3), Validator: v, Height: int64(lu.At), Time: time.Unix(int64(i), 5).UTC(), TotalVotingPower: int64(lu.N)})
		}
		m, f := s.begin(m, b)
		if f == nil {
			var serr error
			s.v1.at["end"] = func() { serr = s.v1.set(ups) }
			m.Pending = ups
			m, f = s.end(m, m.Current)
			s.reset()
			if serr != nil {
				f = failf("set-stage", "setting %d validator updates in end-block is refused: %v", lu.N, serr)
			}
		}
		w.S["updm"] = m
		if f != nil {
			f.Msg = trunc(f.Msg, 3000)
		}
		addN(&c.Transitions, 2)
		addN(&c.Traces, 1)
		return f
	})

	// chain initialisation
	type initCase struct {
		Chain   string
		Genesis []int
		Init    []int
		Vals    int
		Twice   bool
	}
	Explore(c, "init-chain", func(emit func(initCase) bool) {
		for _, ch := range append([]string{"", "x", "chain-with-a-long-name/1.0 é", chainID}, oddChains...) {
			for _, g := range [][]int{nil, {0}, {1, 0}} {
				for _, in := range [][]int{nil, {2, 1}} {
					for v := 0; v < 2; v++ {
						if !emit(initCase{ch, g, in, v, false}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, ic initCase) *Fail {
		s := newBlockSys(true)
		defer s.a.close()
		var serr error
		m := blockModel{Stage: abciv1.ABCIStage_InitChain, Chain: ic.Chain}
		if ic.Genesis != nil {
			s.v1.genesis = func() error { serr = s.v1.set(ic.Genesis); return nil }
			m.Pending = ic.Genesis
		}
		if ic.Init != nil {
			s.v2.at["init"] = func() {
				if err := s.v2.set(ic.Init); err != nil {
					serr = err
				}
			}
			m.Pending = ic.Init
		}
		req := abcitypes.RequestInitChain{ChainId: ic.Chain}
		if ic.Vals == 1 {
			req.Validators = []abcitypes.ValidatorUpdate{abcitypes.Ed25519ValidatorUpdate([]byte(strings.Repeat("k", 32)), 4)}
		}
		r := s.a.abci.InitChain(req)
		s.reset()
		if serr != nil {
			return failf("set-stage", "%+v: setting validator updates in genesis is refused: %v", ic, serr)
		}
		if updStr(r.Validators) != updStr(req.Validators) {
			return failf("init-validators", "%+v: InitChain answers with validators [%s], was given [%s]", ic, updStr(r.Validators), updStr(req.Validators))
		}
		if f := s.check(m); f != nil {
			f.Msg = fmt.Sprintf("%+v: %s", ic, f.Msg)
			return f
		}
		c.Outcome(fmt.Sprint(ic))
		for h := int64(1); h <= 3; h++ {
			var f *Fail
			if m, f = s.begin(m, abcitypes.RequestBeginBlock{Header: tmproto.Header{Height: h}}); f == nil {
				m, f = s.end(m, h)
			}
			if f != nil {
				f.Msg = fmt.Sprintf("%+v, block %d: %s", ic, h, f.Msg)
				return f
			}
			addN(&c.Transitions, 2)
		}
		addN(&c.Traces, 1)
		return nil
	})
}

func beginSets() []func(b *abcitypes.RequestBeginBlock) {
	id := tmproto.BlockID{Hash: []byte("bh"), PartSetHeader: tmproto.PartSetHeader{Total: 3, Hash: []byte("ph")}}
	val := func(a string, p int64) abcitypes.Validator { return abcitypes.Validator{Address: []byte(a), Power: p} }
	out := []func(b *abcitypes.RequestBeginBlock){
		func(b *abcitypes.RequestBeginBlock) {},
		func(b *abcitypes.RequestBeginBlock) { b.Hash = []byte("hash") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.Version = tmversion.Consensus{Block: 11, App: 3} },
		func(b *abcitypes.RequestBeginBlock) { b.Header.ChainID = "other-chain" },
		func(b *abcitypes.RequestBeginBlock) { b.Header.Time = time.Unix(1600000000, 999999999).UTC() },
		func(b *abcitypes.RequestBeginBlock) { b.Header.LastBlockId = id },
		func(b *abcitypes.RequestBeginBlock) { b.Header.LastCommitHash = []byte("lc") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.DataHash = []byte("d") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.ValidatorsHash = []byte("v") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.NextValidatorsHash = []byte("n") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.ConsensusHash = []byte("c") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.AppHash = []byte("a") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.LastResultsHash = []byte("r") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.EvidenceHash = []byte("e") },
		func(b *abcitypes.RequestBeginBlock) { b.Header.ProposerAddress = []byte("p\xff\x00") },
		func(b *abcitypes.RequestBeginBlock) { b.LastCommitInfo.Round = 5 },
		func(b *abcitypes.RequestBeginBlock) {
			b.LastCommitInfo.Votes = []abcitypes.VoteInfo{{Validator: val("x", 1), SignedLastBlock: true}, {Validator: val("y", 0)}, {Validator: val("z", 1<<50)}}
		},
	}
	for ty := 0; ty < 3; ty++ {
		ty := ty
		out = append(out, func(b *abcitypes.RequestBeginBlock) {
			b.ByzantineValidators = []abcitypes.Evidence{{Type: abcitypes.EvidenceType(ty), Validator: val("byz", 9), Height: 77, Time: time.Unix(9, 1).UTC(), TotalVotingPower: 100}, {Height: 1}}
		})
	}
	return out
}
