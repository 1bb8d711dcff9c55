package main

import (
	"fmt"
	"net/http/httptest"
	"net/url"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("C10", c10) }

// readEnv is an application with every way of reading it.
type readEnv struct {
	a    *App
	ext  client.Client // an extension service's client
	mod  client.Client // a module's client
	api  httpAPI
	regs []regObj
}

func newReadEnv() (*readEnv, *Fail) {
	e := &readEnv{}
	svc := &compService{name: "mcread", start: func() error { return nil }, setc: func(x client.Client) { e.ext = x }}
	var hm *harnessModule
	e.a = newApp(appCfg{Accounts: withCollector(stdAccounts()), HM: &hm, Extra: []module.Module{funcModule(func(c module.Client) module.Descriptor {
		e.mod = c
		return module.NewDescriptorBuilder().Named("mcread").WithExtensionService(svc).Build()
	})}})
	if e.ext == nil || e.mod == nil {
		return nil, failf("no-client", "the extension service or the module got no client")
	}
	regs, f := servedRegs(e.ext)
	if f != nil {
		return nil, f
	}
	e.regs = regs
	e.api = newHTTP(e.ext, regs, false)
	hm.hook = func(*DynTrans) error { return nil }
	e.a.begin(5)
	return e, nil
}

type readOp struct {
	group, name string
	do          func(e *readEnv, w world) *Fail
}

// fillObj gives an object of the type with something in every plain field and the key set.
func fillObj(r regObj, key string) meta.StateObject {
	o := r.o.NewStateObject()
	m := o.ProtoReflect()
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.IsList() || fd.IsMap() {
			continue
		}
		switch fd.Kind() {
		case protoreflect.StringKind:
			m.Set(fd, protoreflect.ValueOfString(key))
		case protoreflect.Uint64Kind:
			m.Set(fd, protoreflect.ValueOfUint64(77))
		case protoreflect.BoolKind:
			m.Set(fd, protoreflect.ValueOfBool(true))
		}
	}
	return o
}

// storedKeys are keys under which objects exist, besides absent ones.
func storedKeys(w world) []string {
	return append(append(sortedKeys(w.Acc), sortedKeys(w.Notes)...), "nobody", "x", "mcapp", "tmos.x.bank.v1alpha1.MsgSendCoins")
}

func readClient(cl client.Client, w world, regs []regObj) *Fail {
	for _, r := range regs {
		ids := []meta.ID{meta.SingletonID, meta.NewBytesID(nil), meta.NewBytesID([]byte{1})}
		for _, k := range storedKeys(w) {
			ids = append(ids, meta.NewStringID(k))
		}
		for i, id := range ids {
			o := r.o.NewStateObject()
			if i%2 == 0 {
				o = fillObj(r, "other")
			}
			err := cl.Get(id, o)
			if err == nil { // what was read is the reader's own
				proto.Reset(o)
				_ = cl.Get(id, o, client.GetAtHeight(3))
			}
		}
		var sels [][]client.ListOption
		sels = append(sels, nil, []client.ListOption{client.ListRange(0, 1)}, []client.ListOption{client.ListMatchFieldString("nope", "x")})
		for _, f := range r.d.SecondaryKeys {
			for _, v := range []string{"", "x", "a", "0", "7"} {
				sels = append(sels, []client.ListOption{client.ListMatchFieldString(f, v)})
			}
			for _, k := range storedKeys(w) {
				sels = append(sels, []client.ListOption{client.ListMatchFieldInterface(f, k), client.ListRange(0, 5)})
			}
		}
		for _, s := range sels {
			it, err := cl.List(r.o.NewStateObject(), s...)
			if err != nil {
				continue
			}
			for n := 0; it.Valid() && n < 50; n++ {
				_ = it.Get(r.o.NewStateObject())
				it.Next()
			}
			it.Close()
		}
	}
	return nil
}

// refusedWrites tries every write with the client of an extension service.
func refusedWrites(cl client.Client, w world, regs []regObj) *Fail {
	for _, r := range regs {
		var objs []meta.StateObject
		for _, k := range storedKeys(w) {
			objs = append(objs, fillObj(r, k))
		}
		objs = append(objs, r.o.NewStateObject(), &bankv1.Balance{Address: key(0).addr})
		for _, o := range objs {
			what := meta.Name(o)
			if err := cl.Create(o); err == nil {
				return failf("ext-create", "an extension service's client created %s", what)
			}
			if err := cl.Update(o); err == nil {
				return failf("ext-update", "an extension service's client updated %s", what)
			}
			if err := cl.Update(o, client.UpdateCreateIfNotExists()); err == nil {
				return failf("ext-update", "an extension service's client updated or created %s", what)
			}
			if err := cl.Delete(o); err == nil {
				return failf("ext-delete", "an extension service's client deleted %s", what)
			}
		}
	}
	var ts []meta.StateTransition
	for _, t := range repoTransitions() {
		ts = append(ts, t)
	}
	t := appT()
	ts = append(ts, t.put.trans().set("id", "n"), t.hidden.trans().set("id", "n"), t.inner.trans().set("id", "n"),
		&bankv1.MsgSendCoins{FromAddress: key(0).addr, ToAddress: key(1).addr, Amount: toCoins([]cn{{"test", "1"}})},
		&bankv1.MsgSetBalance{Address: key(0).addr, Amount: toCoins([]cn{{"test", "1"}})})
	for _, x := range ts {
		for _, opts := range [][]client.DeliverOption{nil, {client.DeliverImpersonating(key(0).addr)}, {client.DeliverImpersonating("bank", "authn", "runtime", "mcapp", "system:abci")}} {
			if err := cl.Deliver(x, opts...); err == nil {
				return failf("ext-deliver", "an extension service's client delivered %s", meta.Name(x))
			}
		}
	}
	return nil
}

func readOps(thorough bool) []readOp {
	var ops []readOp
	add := func(group, name string, do func(e *readEnv, w world) *Fail) {
		ops = append(ops, readOp{group, name, do})
	}
	// checked transactions
	A, B, C := 0, 1, 2 // the key of C is not known
	specs := map[string]func(w world) txSpec{
		"send":          mkSimple([]int{A}, sendMsg(key(0).addr, key(1).addr, cn{"test", "2"})),
		"put":           mkSimple([]int{A}, putMsg("n1", "chk", "")),
		"put twice":     mkSimple([]int{B}, putMsg("n1", "c1", ""), putMsg("n9", "c2", "")),
		"delete":        mkSimple([]int{A}, putMsg("n1", "", "delete")),
		"nested":        mkSimple([]int{A}, nestMsg("n1", "chk", "n2", "")),
		"failing":       mkSimple([]int{A}, putMsg("n1", "chk", "fail")),
		"panicking":     mkSimple([]int{A}, putMsg("n1", "chk", "panic")),
		"refused":       mkSimple([]int{A}, putMsg("n1", "chk", ""), putMsg("n2", "chk", "refuse2")),
		"hidden":        mkSimple([]int{A}, hiddenMsg("n1", "chk")),
		"new account":   mkSimple([]int{A}, createMsg(key(5).addr, nil)),
		"two signers":   mkSimple([]int{A, B}, sendMsg(key(1).addr, key(0).addr, cn{"test", "1"}), putMsg("n3", "chk", "")),
		"no messages":   mkSimple([]int{A}),
		"unknown key":   mkSimple([]int{C}, putMsg("n1", "chk", "")),
		"mixed keys":    mkSimple([]int{A, C}, sendMsg(key(2).addr, key(0).addr, cn{"test", "1"})),
		"too much":      mkSimple([]int{A}, sendMsg(key(0).addr, key(1).addr, cn{"test", "99999999"})),
		"strange coins": mkSimple([]int{A}, sendMsg(key(0).addr, key(1).addr, cn{"test", "-1"})),
		"first funds":   mkSimple([]int{A}, sendMsg(key(0).addr, key(5).addr, cn{"test", "3"})),
		"wrong sequence": func(w world) txSpec {
			t := mkSimple([]int{A}, putMsg("n1", "chk", ""))(w)
			t.Signers[0].Seq++
			return t
		},
		"no fee": func(w world) txSpec {
			t := mkSimple([]int{A}, putMsg("n1", "chk", ""))(w)
			t.Fee = nil
			return t
		},
		"large fee": func(w world) txSpec {
			t := mkSimple([]int{A}, putMsg("n1", "chk", ""))(w)
			t.Fee = []cn{{"test", "99999999999"}}
			return t
		},
		"other payer": func(w world) txSpec {
			t := mkSimple([]int{A, B}, putMsg("n1", "chk", ""))(w)
			t.Payer = key(1).addr
			return t
		},
		"wrong chain": func(w world) txSpec {
			t := mkSimple([]int{A}, putMsg("n1", "chk", ""))(w)
			t.Chain = "other"
			return t
		},
		"unknown signer": func(w world) txSpec {
			t := mkSimple([]int{A}, putMsg("n1", "chk", ""))(w)
			t.Signers[0].Key = 7
			return t
		},
		"long memo": func(w world) txSpec {
			t := mkSimple([]int{A}, putMsg("n1", "chk", ""))(w)
			t.Memo = strings.Repeat("m", 5000)
			return t
		},
		"timed out": func(w world) txSpec {
			t := mkSimple([]int{A}, putMsg("n1", "chk", ""))(w)
			t.Timeout = 1
			return t
		},
	}
	for _, n := range sortedKeys(specs) {
		mk := specs[n]
		for _, kind := range []abcitypes.CheckTxType{abcitypes.CheckTxType_New, abcitypes.CheckTxType_Recheck} {
			kind := kind
			add("CheckTx", fmt.Sprintf("CheckTx(%s, %s)", n, kind), func(e *readEnv, w world) *Fail {
				raw := mk(w).bytes()
				e.a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: raw, Type: kind})
				e.a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: raw, Type: kind})
				if thorough || n == "send" {
					for i := 0; i < len(raw); i += 1 + len(raw)/40 {
						x := append([]byte{}, raw...)
						x[i] ^= 0x20
						e.a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: x, Type: kind})
						e.a.abci.CheckTx(abcitypes.RequestCheckTx{Tx: raw[:i], Type: kind})
					}
				}
				e.a.hm.take()
				return nil
			})
		}
	}
	// queries
	add("Info", "Info", func(e *readEnv, w world) *Fail {
		e.a.abci.Info(abcitypes.RequestInfo{})
		e.a.abci.Info(abcitypes.RequestInfo{Version: "x", BlockVersion: 9})
		return nil
	})
	for _, prove := range []bool{false, true} {
		prove := prove
		add("Query", fmt.Sprintf("every query, prove %v", prove), func(e *readEnv, w world) *Fail {
			q := func(p string) {
				for _, h := range []int64{0, 1, 9} {
					e.a.abci.Query(abcitypes.RequestQuery{Path: p, Height: h, Prove: prove, Data: []byte("data")})
				}
			}
			for _, p := range []string{"", "get", "get/", "list", "api_resources", "api_resources/x", "store", "/", "get/x/y/z", "set/a/b/c", "delete/a/b/c"} {
				q(p)
			}
			for _, r := range e.regs {
				d := r.o.APIDefinition()
				for _, k := range append(storedKeys(w), "unique", "") {
					q("get/" + d.Group + "/" + d.Kind + "/" + k)
				}
				for _, v := range []string{"list", "create", "update", "delete"} {
					q(v + "/" + d.Group + "/" + d.Kind)
				}
			}
			return nil
		})
	}
	// HTTP
	for _, method := range []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"} {
		method := method
		add("HTTP", "HTTP "+method+" of every path", func(e *readEnv, w world) *Fail {
			do := func(target, height, body string) {
				r := httptest.NewRequest(method, target, strings.NewReader(body))
				if height != "" {
					r.Header.Set("X-Starport-Framework-Height", height)
				}
				e.api.h.ServeHTTP(httptest.NewRecorder(), r)
			}
			for _, p := range []string{"/", "/spec", "/nope"} {
				do(p, "", "")
			}
			for _, r := range e.regs {
				p := singlePath(r.o)
				for _, h := range []string{"", "1", "7", "x"} {
					do(p, h, `{"address":"x"}`)
					do(p+"s", h, "")
					for _, k := range storedKeys(w) {
						do(objPath(r.o, k), h, "")
					}
					for _, f := range append([]string{"nope"}, r.d.SecondaryKeys...) {
						for _, v := range []string{"x", "", "0", key(0).addr} {
							do(p+"s?start=0&end=3&selectField="+url.QueryEscape(f+"="+v), h, "")
						}
					}
				}
			}
			return nil
		})
	}
	// clients
	add("extension client", "reads by an extension service", func(e *readEnv, w world) *Fail { return readClient(e.ext, w, e.regs) })
	add("module client", "reads by a module", func(e *readEnv, w world) *Fail { return readClient(e.mod, w, e.regs) })
	add("extension client", "writes by an extension service", func(e *readEnv, w world) *Fail { return refusedWrites(e.ext, w, e.regs) })
	return ops
}

func c10(c *Ctx) {
	c.Rule = "breadth-first over block and transaction histories on two applications side by side; in every state every kind of read is made on the one (all checked transactions, queries, HTTP requests of every method, reads by clients, refused writes by an extension service) with all stores compared before and after, and after every further operation both applications are compared"
	key(7)
	reads := readOps(c.Thorough)

	type duo struct{ s, r *readEnv }
	A, B := 0, 1
	type wop struct {
		name string
		do   func(e *readEnv, w world) string
	}
	tx := func(name string, mk func(w world) txSpec) wop {
		return wop{name, func(e *readEnv, w world) string {
			return fmt.Sprint(e.a.deliver(mk(w).bytes()).Code)
		}}
	}
	wops := []wop{
		tx("put n1=a", mkSimple([]int{A}, putMsg("n1", "a", ""))),
		tx("put n1=b by B", mkSimple([]int{B}, putMsg("n1", "b", ""))),
		tx("delete n1", mkSimple([]int{A}, putMsg("n1", "", "delete"))),
		tx("send A to B", mkSimple([]int{A}, sendMsg(key(0).addr, key(1).addr, cn{"test", "1"}))),
		tx("send A to E", mkSimple([]int{A}, sendMsg(key(0).addr, key(4).addr, cn{"test", "1"}))),
		tx("failing", mkSimple([]int{A}, putMsg("n2", "a", ""), putMsg("n3", "a", "fail"))),
		{"next block", func(e *readEnv, w world) string {
			r := e.a.abci.EndBlock(abcitypes.RequestEndBlock{Height: int64(w.Height)})
			e.a.abci.Commit()
			e.a.begin(int64(w.Height + 1))
			return fmt.Sprint(r)
		}},
	}
	depth, maxStates := 2, 40
	if c.Thorough {
		depth, maxStates = 3, 400
	}
	newDuo := func() (*duo, *Fail) {
		s, f := newReadEnv()
		if f != nil {
			return nil, f
		}
		r, f := newReadEnv()
		return &duo{s, r}, f
	}
	// reading makes all reads in the current state of e, comparing the stores around each.
	reading := func(e *readEnv, w world, ops []readOp) *Fail {
		before := dump(e.a.dbs)
		for _, op := range ops {
			var f *Fail
			_ = try(func() { f = op.do(e, w) }) // panics are another property's
			if f != nil {
				return f
			}
			addN(&c.Transitions, 1)
			if after := dump(e.a.dbs); !before.equal(after) {
				return failf("changed-by-"+op.group, "%s changes the state:%s", op.name, before.diff(after))
			}
		}
		return nil
	}
	mkSys := func(per int) func() *system[world] {
		return func() *system[world] {
			d, f := newDuo()
			if f != nil {
				hp("%s", f.Msg)
			}
			dbs := append(d.s.a.dbs[:len(d.s.a.dbs):len(d.s.a.dbs)], d.r.a.dbs...)
			g := dump(dbs)
			seen := map[string]bool{}
			k := 0
			sy := &system[world]{dbs: dbs, genesis: g, m0: observeDump(dump(d.s.a.dbs)), renew: 150, close: func() { d.s.a.close(); d.r.a.close() },
				onRestore: func() { d.s.a.hm.take(); d.r.a.hm.take() }}
			sy.step = func(w world, op int) (world, *Fail) {
				// all reads in a state not seen before, some of them otherwise
				if per == 0 {
					if ky := w.json(); !seen[ky] {
						seen[ky] = true
						if f := reading(d.s, w, reads); f != nil {
							return w, f
						}
					}
				} else {
					for i := 0; i < per; i++ {
						k++
						if f := reading(d.s, w, reads[k%len(reads):k%len(reads)+1]); f != nil {
							return w, f
						}
					}
				}
				x, y := wops[op].do(d.s, w), wops[op].do(d.r, w)
				a, b := dump(d.s.a.dbs), dump(d.r.a.dbs)
				if x != y || !a.equal(b) {
					return w, failf("later-effect", "%s after the reads: answer %s, without them %s; state:%s", wops[op].name, x, y, b.diff(a))
				}
				return observeDump(a), nil
			}
			return sy
		}
	}
	name := func(op int) string { return wops[op].name }
	BFS(c, "states", len(wops), depth, maxStates, name, mkSys(0), func(w world) string { return w.json() })
	nwin := 2
	if c.Thorough {
		nwin = 4
	}
	Walk(c, "walks", windows(len(wops), nwin, 200), name, mkSys(3))

	// reads inside a transaction's handler
	type inCase struct {
		What string
		Fail bool
	}
	Explore(c, "within-transactions", func(emit func(inCase) bool) {
		for _, x := range []string{"module", "extension", "writes", "query", "http", "check"} {
			if !emit(inCase{x, false}) || !emit(inCase{x, true}) {
				return
			}
		}
	}, func(w *Worker, ic inCase) *Fail {
		d, f := newDuo()
		if f != nil {
			return f
		}
		defer d.s.a.close()
		defer d.r.a.close()
		wd := d.s.a.observe()
		var inner *Fail
		ran := false
		mode := func(*DynTrans) error {
			if ic.Fail {
				return fmt.Errorf("made up")
			}
			return nil
		}
		d.r.a.hm.hook = mode
		d.s.a.hm.hook = func(tr *DynTrans) error {
			ran = true
			_ = try(func() {
				inner = func() *Fail {
					switch ic.What {
					case "module":
						return readClient(d.s.mod, wd, d.s.regs)
					case "extension":
						return readClient(d.s.ext, wd, d.s.regs)
					case "writes":
						return refusedWrites(d.s.ext, wd, d.s.regs)
					}
					group := map[string]string{"query": "Query", "http": "HTTP", "check": "CheckTx"}[ic.What]
					for _, op := range reads {
						if op.group == group {
							if f := op.do(d.s, wd); f != nil {
								return f
							}
						}
					}
					return nil
				}()
			})
			return mode(tr)
		}
		t := mkSimple([]int{0}, putMsg("n1", "a", ""), putMsg("n2", "b", "hook"), putMsg("n3", "c", ""))(wd)
		x, y := d.s.a.deliver(t.bytes()).Code, d.r.a.deliver(t.bytes()).Code
		if inner != nil {
			return inner
		}
		if !ran {
			hp("the handler did not run: code %d", x)
		}
		a, b := dump(d.s.a.dbs), dump(d.r.a.dbs)
		if x != y || !a.equal(b) {
			return failf("within-"+ic.What, "a transaction whose handler reads through %s: code %d, without the reads %d; state:%s", ic.What, x, y, b.diff(a))
		}
		c.Outcome(fmt.Sprint(ic, x))
		addN(&c.Transitions, 1)
		return nil
	})
}
