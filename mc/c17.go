package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("C17", c17) }

// crashEnv is an application in some state, with all its outside surfaces.
type crashEnv struct {
	*readEnv
	g Dump
	w world
}

// reset puts the environment back into the state it was made with.
func (e *crashEnv) reset() {
	restore(e.a.dbs, e.g)
	e.a.hm.take()
}

// guarded calls one entry point; a panic is a violation of this property.
func guarded(entry string, in func() string, f func()) *Fail {
	if p := try(f); p != "" {
		return failf("panic-"+entry, "%s of %s panics: %s", entry, in(), trunc(p, 300))
	}
	return nil
}

// alive checks that the node still executes a valid transaction.
func (e *crashEnv) alive(after func() string) *Fail {
	t := mkSimple([]int{0}, putMsg("alive", "x", ""))(e.a.observe())
	var code uint32
	var log string
	if f := guarded("DeliverTx", func() string { return "a valid transaction after " + after() }, func() {
		r := e.a.deliver(t.bytes())
		code, log = r.Code, r.Log
	}); f != nil {
		return f
	}
	e.reset()
	if code != 0 {
		return failf("not-alive", "after %s a valid transaction is refused: code %d %s", after(), code, trunc(log, 300))
	}
	return nil
}

// sendTx gives bytes to CheckTx and DeliverTx. strict says that the bytes are no valid
// transaction, so that both must refuse them.
func (e *crashEnv) sendTx(raw []byte, in func() string) (code uint32, res *Fail) {
	var ck abcitypes.ResponseCheckTx
	var dl abcitypes.ResponseDeliverTx
	if f := guarded("CheckTx", in, func() { ck = e.a.check(raw) }); f != nil {
		return 0, f
	}
	if f := guarded("DeliverTx", in, func() { dl = e.a.deliver(raw) }); f != nil {
		return 0, f
	}
	if dl.Code == 0 {
		if ck.Code != 0 {
			return 0, failf("check-deliver", "%s: CheckTx refuses with code %d %s what DeliverTx executes", in(), ck.Code, ck.Log)
		}
		if dump(e.a.dbs).equal(e.g) {
			return 0, failf("code-zero", "%s: DeliverTx answers code 0, but nothing happened", in())
		}
	}
	return dl.Code, nil
}

func (e *crashEnv) query(path string, in func() string) *Fail {
	var r abcitypes.ResponseQuery
	if f := guarded("Query", in, func() { r = e.a.abci.Query(abcitypes.RequestQuery{Path: path}) }); f != nil {
		return f
	}
	if r.Code == 0 && !json.Valid(r.Value) {
		return failf("query-empty", "Query of %s: code 0, but the value is no JSON: %q", in(), trunc(string(r.Value), 100))
	}
	return nil
}

func (e *crashEnv) http(method, target string, hdr map[string]string, in func() string) (int, *Fail) {
	w := httptest.NewRecorder()
	f := guarded("HTTP", in, func() {
		u, err := url.ParseRequestURI(target)
		if err != nil {
			w.WriteHeader(400) // net/http refuses it before any handler
			return
		}
		r := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Host: "x", RequestURI: target}
		for k, v := range hdr {
			r.Header.Set(k, v)
		}
		e.api.h.ServeHTTP(w, r)
	})
	if f == nil && w.Code == 200 && w.Body.Len() == 0 && method == "GET" {
		f = failf("http-empty", "HTTP %s: status 200 without content", in())
	}
	return w.Code, f
}

// readAll asks for everything that is stored, through every surface.
func (e *crashEnv) readAll(why func() string) *Fail {
	w := e.a.observe()
	keys := append(append(append(sortedKeys(w.Acc), sortedKeys(w.Bal)...), sortedKeys(w.Notes)...), "unique", "nobody")
	for _, r := range e.regs {
		d := r.o.APIDefinition()
		for _, k := range keys {
			k := k
			in := func() string { return fmt.Sprintf("%s %q after %s", d.Kind, trunc(k, 60), why()) }
			if f := e.query("get/"+d.Group+"/"+d.Kind+"/"+k, in); f != nil {
				return f
			}
			if _, f := e.http("GET", objPath(r.o, k), nil, in); f != nil {
				return f
			}
		}
		in := func() string { return fmt.Sprintf("list of %s after %s", d.Kind, why()) }
		targets := []string{singlePath(r.o), singlePath(r.o) + "s"}
		for _, f := range r.d.SecondaryKeys {
			for _, v := range append([]string{"", "x", "0"}, keys...) {
				targets = append(targets, listPath(r.o, f, v))
			}
		}
		for _, t := range targets {
			if _, f := e.http("GET", t, nil, in); f != nil {
				return f
			}
		}
	}
	if f := e.query("api_resources", why); f != nil {
		return f
	}
	_, f := e.http("GET", "/spec", nil, why)
	return f
}

// states of the node in which inputs arrive
var crashStates = []string{"block", "genesis", "uninitialised"}

func newCrashEnv(state string) *crashEnv {
	r := &readEnv{}
	svc := &compService{name: "mcread", start: func() error { return nil }, setc: func(x client.Client) { r.ext = x }}
	r.a = newApp(appCfg{Accounts: withCollector(stdAccounts()), NoStart: state == "uninitialised", Extra: []module.Module{funcModule(func(c module.Client) module.Descriptor {
		r.mod = c
		return module.NewDescriptorBuilder().Named("mcread").WithExtensionService(svc).Build()
	})}})
	if state == "uninitialised" {
		r.ext = r.mod // services get their client at genesis
		for _, o := range append(repoObjects(), appT().note.obj()) {
			d := o.APIDefinition()
			if d.Group == "testmodule.v1" || strings.Contains(d.Group, "crisis") {
				continue
			}
			def := oneSchema()
			switch d.Kind {
			case "Account", "Balance":
				def.Singleton, def.PrimaryKey = false, "address"
			case "Role", "Note":
				def.Singleton, def.PrimaryKey = false, "id"
			case "RoleBinding":
				def.Singleton, def.PrimaryKey = false, "subject"
			}
			r.regs = append(r.regs, regObj{o, def})
		}
	} else {
		regs, f := servedRegs(r.ext)
		if f != nil {
			hp("%s", f.Msg)
		}
		r.regs = regs
	}
	r.api = newHTTP(r.ext, r.regs, false)
	e := &crashEnv{readEnv: r}
	if state == "block" {
		r.a.begin(5)
		w := r.a.observe()
		r.a.deliver(mkSimple([]int{0}, putMsg("n1", "v", ""), sendMsg(key(0).addr, key(3).addr, cn{"test", "2"}))(w).bytes())
	}
	e.g = dump(r.a.dbs)
	e.w = observeDump(e.g)
	return e
}

func crashEnvOf(w *Worker, state string) *crashEnv {
	k := "crash:" + state
	type ent struct {
		e *crashEnv
		n int
	}
	x, ok := w.S[k].(*ent)
	if ok {
		if x.n++; x.n < 60 {
			x.e.reset()
			return x.e
		}
		x.e.a.close()
	} else {
		w.OnClose(func() { w.S[k].(*ent).e.a.close() })
	}
	x = &ent{e: newCrashEnv(state)}
	w.S[k] = x
	return x.e
}

// ---- transactions with one or two parts changed ----

type devSite struct {
	n *wnode
	i int
}

func (n *wnode) sites() (out []devSite) {
	n.walk(func(x *wnode) {
		for i := range x.fields {
			out = append(out, devSite{x, i})
		}
	})
	return
}

// enc encodes with some fields replaced.
func (n *wnode) enc(dev map[devSite][]byte) []byte {
	var out []byte
	for i, f := range n.fields {
		if raw, ok := dev[devSite{n, i}]; ok {
			out = append(out, raw...)
			continue
		}
		if f.sub != nil {
			out = append(out, fBytes(f.num, f.sub.enc(dev))...)
		} else {
			out = append(out, f.raw...)
		}
	}
	return out
}

// deviations of a field: what may stand in its place.
func (s devSite) deviations(thorough bool) map[string][]byte {
	f := s.n.fields[s.i]
	raw := f.raw
	if f.sub != nil {
		raw = fBytes(f.num, f.sub.enc(nil))
	}
	_, ty, tl := protowire.ConsumeTag(raw)
	tag := func(t protowire.Type) []byte { return protowire.AppendTag(nil, f.num, t) }
	blob := func(b string) []byte { return protowire.AppendBytes(tag(bT), []byte(b)) }
	d := map[string][]byte{
		"absent": {}, "twice": cat(raw, raw),
		"as varint": protowire.AppendVarint(tag(vT), 5), "as fixed32": protowire.AppendFixed32(tag(protowire.Fixed32Type), 5),
		"as group": protowire.AppendTag(tag(protowire.StartGroupType), f.num, protowire.EndGroupType), "cut": raw[:len(raw)-1], "tag only": raw[:tl],
	}
	switch {
	case ty == vT:
		for _, v := range []uint64{0, 1, 127, 1 << 31, 1<<32 - 1, 1 << 63, 1<<64 - 1} {
			d[fmt.Sprint("value ", v)] = protowire.AppendVarint(tag(vT), v)
		}
		d["11 byte varint"] = append(tag(vT), []byte(strings.Repeat("\xff", 10)+"\x01")...)
	default:
		d["empty"] = blob("")
		for _, v := range []string{"\x00", "\xff\xff\xff\xff\xff", "x", "\x0a\x00", "\x0a\x7f", strings.Repeat("x", 3000)} {
			d[fmt.Sprintf("content %q", trunc(v, 12))] = blob(v)
		}
		d["length past the end"] = append(tag(bT), 0xff, 0xff, 0xff, 0xff, 0x07)
		if f.sub == nil {
			for _, v := range []string{"-1", "0", "00", "1.5", "1e9", " 1", "1,2", "9" + strings.Repeat("9", 90), strings.Repeat("9", 20000), "/", "//", "/x", "/mc.app.Note", "/google.protobuf.Any", "/mc.app.Inner", "/tmos.x.authn.v1alpha1.Account", "mc.app.Put", "http://x/mc.app.Put", "/tmos.x.authn.crypto.v1alpha1.PrivKey", key(1).addr, "cosmos1", "test", "fee_collector"} {
				d[fmt.Sprintf("text %q", trunc(v, 40))] = blob(v)
			}
		}
	}
	return d
}

// fillNode is a message of the type with every field present.
func fillNode(md protoreflect.MessageDescriptor, depth int) *wnode {
	n := wn(string(md.Name()), nil)
	if md.FullName() == "google.protobuf.Any" {
		return n.leaf(fStr(1, pubKeyURL)).msg(2, wn("key", nil).leaf(fBytes(1, key(6).pub)))
	}
	fds := md.Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch fd.Kind() {
		case protoreflect.MessageKind:
			if depth > 0 && !fd.IsMap() {
				n.msg(fd.Number(), fillNode(fd.Message(), depth-1))
			}
		case protoreflect.StringKind:
			v := "7"
			switch name := string(fd.Name()); {
			case strings.Contains(name, "address") && strings.Contains(name, "to"), name == "address":
				v = key(6).addr
			case strings.Contains(name, "address"):
				v = key(0).addr
			case name == "denom":
				v = "test"
			}
			n.leaf(fStr(fd.Number(), v))
		case protoreflect.BytesKind:
			n.leaf(fBytes(fd.Number(), []byte("bytes")))
		case protoreflect.Fixed32Kind, protoreflect.Sfixed32Kind, protoreflect.FloatKind:
			n.leaf(protowire.AppendFixed32(protowire.AppendTag(nil, fd.Number(), protowire.Fixed32Type), 3))
		case protoreflect.Fixed64Kind, protoreflect.Sfixed64Kind, protoreflect.DoubleKind:
			n.leaf(protowire.AppendFixed64(protowire.AppendTag(nil, fd.Number(), protowire.Fixed64Type), 3))
		case protoreflect.GroupKind:
		default:
			n.leaf(fUint(fd.Number(), 1))
		}
	}
	return n
}

// msgTx is a transaction of one message by A, as a body and an auth tree.
func msgTx(e *crashEnv, url string, msg *wnode) (body, auth *wnode) {
	body = wn("body", nil).msg(1, anyNode("message", url, msg))
	auth = wn("auth info", nil)
	pk := wn("key", nil).leaf(fBytes(1, key(0).pub))
	mode := wn("mode", nil).msg(1, wn("single", nil).leaf(fUint(1, 1)))
	auth.msg(1, wn("signer", nil).msg(1, anyNode("key", pubKeyURL, pk)).msg(2, mode).leaf(protowire.AppendVarint(protowire.AppendTag(nil, 3, vT), e.w.Acc[key(0).addr].Seq)))
	auth.msg(2, wn("fee", nil).msg(1, coinNode(appFee)).leaf(fUint(2, 9)).leaf(fStr(3, key(0).addr)))
	return
}

func c17(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "all byte strings of up to 2 bytes as transactions, query paths and request paths; every bit flip and truncation of valid transactions; for every transition the application handles, a signed transaction with every part in turn (thorough: every pair of parts) absent, doubled, empty, of another type, or extreme; nestings up to the size limit of a transaction; every query path over an alphabet, and queries with every height, proof flag and data of an alphabet; requests with every method, header and parameter of an alphabet; each in several states of the node, with everything stored requested afterwards and a valid transaction delivered"
	key(7)

	type tinyCase struct {
		State string
		First int // -1: the empty string; otherwise the first byte
	}
	Explore(c, "tiny", func(emit func(tinyCase) bool) {
		for _, s := range crashStates {
			for i := -1; i < 256; i++ {
				if !emit(tinyCase{s, i}) {
					return
				}
			}
		}
	}, func(w *Worker, tc tinyCase) *Fail {
		e := crashEnvOf(w, tc.State)
		var ins []string
		if tc.First < 0 {
			ins = []string{""}
		} else {
			ins = []string{string([]byte{byte(tc.First)})}
			for j := 0; j < 256; j++ {
				ins = append(ins, string([]byte{byte(tc.First), byte(j)}))
			}
		}
		for _, x := range ins {
			x := x
			in := func() string { return fmt.Sprintf("%q (%s)", x, tc.State) }
			code, f := e.sendTx([]byte(x), in)
			if f != nil {
				return f
			}
			if code == 0 {
				return failf("accepted", "%s is executed", in())
			}
			if f := e.query(x, in); f != nil {
				return f
			}
			if _, f := e.http("GET", "/"+x, nil, in); f != nil {
				return f
			}
			if st, f := e.http("GET", "/"+url.PathEscape(x), nil, in); f != nil {
				return f
			} else if st < 300 {
				return failf("http-accepted", "HTTP %s: status %d", in(), st)
			}
			addN(&c.Transitions, 5)
		}
		c.Outcome(fmt.Sprint(tc))
		if tc.State != "uninitialised" {
			return e.alive(func() string { return fmt.Sprintf("all of %q", ins) })
		}
		return nil
	})

	// flips and truncations
	bases := []func(w world) txSpec{
		mkSimple([]int{0}, putMsg("n1", "chk", "")),
		mkSimple([]int{0}, sendMsg(key(0).addr, key(1).addr, cn{"test", "2"})),
		mkSimple([]int{0, 1}, createMsg(key(5).addr, nil), nestMsg("a", "b", "c", "")),
	}
	type flipCase struct {
		Base, From int
		Cut        bool
	}
	Explore(c, "flips", func(emit func(flipCase) bool) {
		for b := range bases {
			n := len(bases[b](newCrashWorld()).bytes())
			for _, cut := range []bool{false, true} {
				for i := 0; i < n; i += 16 {
					if !emit(flipCase{b, i, cut}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, fc flipCase) *Fail {
		e := crashEnvOf(w, "block")
		raw := bases[fc.Base](e.w).bytes()
		one := func(x []byte, in func() string) *Fail {
			code, f := e.sendTx(x, in)
			addN(&c.Transitions, 2)
			if f == nil && code == 0 {
				c.Add("changed_transactions_executed", 1)
			}
			e.reset() // a refused execution may leave the fee paid
			return f
		}
		for i := fc.From; i < fc.From+16 && i < len(raw); i++ {
			i := i
			if fc.Cut {
				for k, x := range [][]byte{raw[:i], raw[i:], append(append([]byte{}, raw[:i]...), raw[i+1:]...), append(append(append([]byte{}, raw[:i]...), raw[i]), raw[i:]...)} {
					if f := one(x, func() string { return fmt.Sprintf("transaction %d cut (form %d) at %d: %x", fc.Base, k, i, x) }); f != nil {
						return f
					}
				}
				continue
			}
			for bit := 0; bit < 8; bit++ {
				x := append([]byte{}, raw...)
				x[i] ^= 1 << bit
				if f := one(x, func() string {
					return fmt.Sprintf("transaction %d with bit %d of byte %d flipped: %x", fc.Base, bit, i, x)
				}); f != nil {
					return f
				}
			}
		}
		return e.alive(func() string { return fmt.Sprintf("the transactions of %+v", fc) })
	})

	// every part of a signed transaction
	var kinds []protoreflect.MessageDescriptor
	for _, t := range repoTransitions() {
		kinds = append(kinds, t.ProtoReflect().Descriptor())
	}
	for _, t := range []*dynType{appT().put, appT().hidden, appT().inner, appT().note} {
		kinds = append(kinds, t.md)
	}
	type partCase struct {
		State   string
		Kind    int
		Site    int
		Second  int // another site, or -1
		Outside bool
	}
	sitesOf := func(e *crashEnv, k int) (body, auth *wnode, in, out []devSite) {
		body, auth = msgTx(e, "/"+string(kinds[k].FullName()), fillNode(kinds[k], 3))
		msg := body.fields[0].sub.fields[1].sub
		inner := map[*wnode]bool{}
		msg.walk(func(n *wnode) { inner[n] = true })
		for _, s := range append(body.sites(), auth.sites()...) {
			if inner[s.n] {
				in = append(in, s)
			} else {
				out = append(out, s)
			}
		}
		return
	}
	fake := &crashEnv{w: newCrashWorld()}
	Explore(c, "parts", func(emit func(partCase) bool) {
		for k := range kinds {
			_, _, in, out := sitesOf(fake, k)
			for _, st := range crashStates[:2] {
				if st == "genesis" && !c.Thorough && k%3 != 0 {
					continue
				}
				for s := range in {
					if len(in) > 60 && !c.Thorough && s%4 != 0 {
						continue
					}
					if !emit(partCase{st, k, s, -1, false}) {
						return
					}
				}
				if name := string(kinds[k].Name()); c.Thorough || name == "Put" || name == "MsgSendCoins" {
					for s := range out {
						if !emit(partCase{st, k, s, -1, true}) {
							return
						}
						if c.Thorough && st == "block" && (name == "Put" || name == "MsgCreateAccount") {
							for s2 := s + 1; s2 < len(out); s2++ {
								if !emit(partCase{st, k, s, s2, true}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, func(w *Worker, pc partCase) *Fail {
		e := crashEnvOf(w, pc.State)
		body, auth, in, out := sitesOf(e, pc.Kind)
		ss := in
		if pc.Outside {
			ss = out
		}
		site := ss[pc.Site]
		one := func(dev map[devSite][]byte, what func() string) *Fail {
			b, a := body.enc(dev), auth.enc(dev)
			good := key(0).sign(signDoc(b, a, chainID, e.w.Acc[key(0).addr].Num))
			raw := wTx(b, a, good)
			code, f := e.sendTx(raw, what)
			if f != nil {
				return f
			}
			addN(&c.Transitions, 2)
			if code == 0 {
				c.Add("changed_transactions_executed", 1)
				if f := e.readAll(what); f != nil {
					return f
				}
			}
			e.reset() // a refused execution may leave the fee paid
			return nil
		}
		devs := site.deviations(c.Thorough)
		for _, d := range sortedKeys(devs) {
			d := d
			what := func() string {
				return fmt.Sprintf("a signed %s whose %s field %d is %s (%s)", kinds[pc.Kind].Name(), site.n.name, site.n.fields[site.i].num, d, pc.State)
			}
			if pc.Second < 0 {
				if f := one(map[devSite][]byte{site: devs[d]}, what); f != nil {
					return f
				}
				continue
			}
			if d != "absent" && d != "empty" && d != "twice" {
				continue
			}
			s2 := ss[pc.Second]
			d2 := s2.deviations(false)
			for _, x := range []string{"absent", "empty", "twice"} {
				if r, ok := d2[x]; ok {
					if f := one(map[devSite][]byte{site: devs[d], s2: r}, func() string {
						return what() + fmt.Sprintf(" and whose %s field %d is %s", s2.n.name, s2.n.fields[s2.i].num, x)
					}); f != nil {
						return f
					}
				}
			}
		}
		c.Outcome(fmt.Sprint(pc.Kind, pc.Site, pc.Outside))
		return e.alive(func() string { return fmt.Sprintf("the changed transactions of %+v", pc) })
	})

	// the account's key wrapper: any type, known or not, with any content
	type anyCase struct{ URL, Val int }
	urls := []string{"", "/", "x", "/x", "/no.such.Type", pubKeyURL, "/cosmos.crypto.secp256k1.PubKey", "/tmos.x.authn.v1alpha1.Account", "/google.protobuf.Any", "/google.protobuf.Duration", "/google.protobuf.FieldMask", "/tmos.core.v1alpha1.rbac.Role", "/mc.app.Note", "/cosmos.tx.v1beta1.Tx", "/google.protobuf.Timestamp", "type.googleapis.com/mc.app.Note", "/google.protobuf.Struct", "/google.protobuf.Value"}
	vals := [][]byte{nil, {0}, {0xff}, {0x0a, 0x01, 'x'}, {0x08, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x10, 0xff, 0xff, 0xff, 0xff, 0x0f}, fBytes(1, key(6).pub), {0x0a, 0x02, 0xc3, 0x28}, []byte(strings.Repeat("\x0a\x00", 500)), {0x0b, 0x0c}}
	Explore(c, "stored-wrappers", func(emit func(anyCase) bool) {
		for u := range urls {
			for v := range vals {
				if !emit(anyCase{u, v}) {
					return
				}
			}
		}
	}, func(w *Worker, ac anyCase) *Fail {
		e := crashEnvOf(w, "block")
		in := func() string {
			return fmt.Sprintf("an account whose key is of type %q and content %x", urls[ac.URL], vals[ac.Val])
		}
		t := mkSimple([]int{0}, createMsg(key(6).addr, fBytes(2, wAny(urls[ac.URL], vals[ac.Val]))))(e.w)
		code, f := e.sendTx(t.bytes(), in)
		if f != nil {
			return f
		}
		if code != 0 {
			c.Outcome(fmt.Sprint("refused ", ac))
			return e.alive(in)
		}
		c.Outcome(fmt.Sprint("stored ", ac))
		if f := e.readAll(in); f != nil {
			return f
		}
		// the account so made signs, and its address gets coins
		wd := e.a.observe()
		raw := mkSimple([]int{6}, putMsg("n1", "v", ""))(wd).bytes()
		if f := guarded("DeliverTx", in, func() { e.a.check(raw); e.a.deliver(raw) }); f != nil {
			return f
		}
		raw = mkSimple([]int{0}, sendMsg(key(0).addr, key(6).addr, cn{"test", "3"}))(wd).bytes()
		if f := guarded("DeliverTx", in, func() { e.a.check(raw); e.a.deliver(raw) }); f != nil {
			return f
		}
		if f := e.readAll(in); f != nil {
			return f
		}
		e.reset()
		return e.alive(in)
	})

	// nesting up to the size of a transaction
	type deepCase struct {
		Form int
		Size int
	}
	deepForms := []string{"groups in the transaction", "groups in the body", "groups in the message", "groups in the fee", "modes in modes", "transactions in transactions", "wrappers in wrappers", "empty fields", "open groups", "messages", "signers", "coins"}
	sizes := []int{100, 20000, 1 << 20}
	Explore(c, "deep", func(emit func(deepCase) bool) {
		for f := range deepForms {
			for _, s := range sizes {
				if !emit(deepCase{f, s}) {
					return
				}
			}
		}
	}, func(w *Worker, dc deepCase) *Fail {
		e := crashEnvOf(w, "block")
		groups := func(n int) []byte {
			return append([]byte(strings.Repeat("\x9b\x01", n/4)), []byte(strings.Repeat("\x9c\x01", n/4))...)
		}
		nest := func(num protowire.Number, n int) []byte { // length-delimited in each other
			// built from the inside: sizes are computed first to stay linear
			var lens []int
			l := 0
			for l < n {
				lens = append(lens, l)
				l += 1 + protowire.SizeVarint(uint64(l))
			}
			var out []byte
			for i := len(lens) - 1; i >= 0; i-- {
				out = protowire.AppendVarint(protowire.AppendTag(out, num, bT), uint64(lens[i]))
			}
			return out
		}
		t := mkSimple([]int{0}, putMsg("n1", "v", ""))(e.w)
		b, a := t.parts()
		var tail []byte
		switch dc.Form {
		case 0:
			tail = groups(dc.Size)
		case 1:
			b = append(b, groups(dc.Size)...)
		case 2:
			b = fBytes(1, wAny("/mc.app.Put", cat(fStr(1, "n"), groups(dc.Size))))
		case 3:
			a = append(a, fBytes(2, groups(dc.Size))...)
		case 4:
			a = cat(fBytes(1, cat(fBytes(1, wAny(pubKeyURL, fBytes(1, key(0).pub))), fBytes(2, nest(2, dc.Size)))), fBytes(2, fBytes(1, wCoin(appFee))))
		case 5:
			tail = nest(1, dc.Size)
		case 6:
			b = fBytes(1, wAny("/google.protobuf.Any", nest(2, dc.Size)))
		case 7:
			tail = []byte(strings.Repeat("\x1a\x00", dc.Size/2))
		case 8:
			tail = []byte(strings.Repeat("\x9b\x01", dc.Size/2))
		case 9:
			b = []byte(strings.Repeat("\x0a\x00", dc.Size/2))
		case 10:
			a = []byte(strings.Repeat("\x0a\x00", dc.Size/2))
		case 11:
			a = append(a, fBytes(2, []byte(strings.Repeat("\x0a\x00", dc.Size/2)))...)
		}
		in := func() string { return fmt.Sprintf("%d bytes of %s", dc.Size, deepForms[dc.Form]) }
		_, f := e.sendTx(cat(wTx(b, a, key(0).sign(signDoc(b, a, chainID, e.w.Acc[key(0).addr].Num))), tail), in)
		if f != nil {
			return f
		}
		e.reset()
		c.Outcome(fmt.Sprint(dc))
		return e.alive(in)
	})

	// query paths and requests
	segs := []string{"get", "", "tmos.x.authn.v1alpha1", "Account", key(0).addr, "unique", "api_resources", "list", "mc.app", "Note", "n1", "tmos.abci.v1alpha1", "Stage", "%", "\xff\x00", strings.Repeat("long", 5000)}
	type pathCase struct {
		State string
		A     int
	}
	maxLen := 4
	if c.Thorough {
		maxLen = 5
	}
	Explore(c, "paths", func(emit func(pathCase) bool) {
		for _, s := range crashStates {
			for a := range segs {
				if !emit(pathCase{s, a}) {
					return
				}
			}
		}
	}, func(w *Worker, pc pathCase) *Fail {
		e := crashEnvOf(w, pc.State)
		var f *Fail
		n := 0
		words(len(segs), maxLen-1, func(ix []int) bool {
			p := segs[pc.A]
			for _, i := range ix {
				p += "/" + segs[i]
			}
			in := func() string { return fmt.Sprintf("path %q (%s)", trunc(p, 200), pc.State) }
			if f = e.query(p, in); f != nil {
				return false
			}
			if len(ix) < 3 {
				if _, f = e.http("GET", "/"+strings.ToLower((&url.URL{Path: p}).EscapedPath()), nil, in); f != nil {
					return false
				}
			}
			n++
			return true
		})
		addN(&c.Transitions, n)
		c.Outcome(fmt.Sprint(pc))
		return f
	})
	// queries at heights, with proofs and with data
	type atCase struct {
		State string
		H     int64
		Prove bool
		Data  int
	}
	queryData := [][]byte{nil, {}, {0xff}, []byte("x"), []byte("/"), []byte(strings.Repeat("x", 1<<16))}
	Explore(c, "heights", func(emit func(atCase) bool) {
		for _, s := range crashStates {
			for _, h := range []int64{0, 1, 4, 5, 6, 100, 1<<63 - 1, -1, -5, -1 << 63, 1 << 32, -1 << 32} {
				for _, p := range []bool{false, true} {
					for d := range queryData {
						if !emit(atCase{s, h, p, d}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, ac atCase) *Fail {
		e := crashEnvOf(w, ac.State)
		paths := []string{"", "/", "x", "get", "api_resources", "store", "/store/x/key", "app/version", "p2p/filter/addr/x", "get/x/y/z"}
		for _, r := range e.regs {
			d := r.o.APIDefinition()
			for _, k := range []string{key(0).addr, "unique", "n1", "nobody"} {
				paths = append(paths, "get/"+d.Group+"/"+d.Kind+"/"+k)
			}
		}
		for _, p := range paths {
			in := func() string {
				return fmt.Sprintf("path %q at %d, proof %v, data %x", p, ac.H, ac.Prove, trunc(string(queryData[ac.Data]), 9))
			}
			var r abcitypes.ResponseQuery
			if f := guarded("Query", in, func() {
				r = e.a.abci.Query(abcitypes.RequestQuery{Path: p, Height: ac.H, Prove: ac.Prove, Data: queryData[ac.Data]})
			}); f != nil {
				return f
			}
			if r.Code == 0 && !json.Valid(r.Value) {
				return failf("query-empty", "Query of %s: code 0, but the value is no JSON: %q", in(), trunc(string(r.Value), 100))
			}
			addN(&c.Transitions, 1)
		}
		c.Outcome(fmt.Sprint(ac))
		if ac.State != "uninitialised" {
			return e.alive(func() string { return fmt.Sprintf("queries %+v", ac) })
		}
		return nil
	})

	// requests that peers can cause
	type peerCase struct {
		State  string
		Height uint64
		Format uint32
	}
	Explore(c, "peers", func(emit func(peerCase) bool) {
		for _, s := range crashStates {
			for _, h := range []uint64{0, 1, 5, 1<<64 - 1} {
				for _, f := range []uint32{0, 1, 1<<32 - 1} {
					if !emit(peerCase{s, h, f}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, pc peerCase) *Fail {
		e := crashEnvOf(w, pc.State)
		in := func() string { return fmt.Sprintf("%+v", pc) }
		if f := guarded("ListSnapshots", in, func() { e.a.abci.ListSnapshots(abcitypes.RequestListSnapshots{}) }); f != nil {
			return f
		}
		if f := guarded("LoadSnapshotChunk", in, func() {
			e.a.abci.LoadSnapshotChunk(abcitypes.RequestLoadSnapshotChunk{Height: pc.Height, Format: pc.Format})
		}); f != nil {
			return f
		}
		if f := guarded("OfferSnapshot", in, func() {
			e.a.abci.OfferSnapshot(abcitypes.RequestOfferSnapshot{})
			e.a.abci.OfferSnapshot(abcitypes.RequestOfferSnapshot{Snapshot: &abcitypes.Snapshot{Height: pc.Height, Format: pc.Format, Chunks: 1, Hash: []byte("x")}, AppHash: []byte("y")})
		}); f != nil {
			return f
		}
		if f := guarded("ApplySnapshotChunk", in, func() {
			e.a.abci.ApplySnapshotChunk(abcitypes.RequestApplySnapshotChunk{Index: pc.Format, Chunk: []byte("x"), Sender: "peer"})
		}); f != nil {
			return f
		}
		c.Outcome(in())
		if pc.State != "uninitialised" {
			return e.alive(in)
		}
		return nil
	})

	type reqCase struct {
		State  string
		Method string
		Reg    int
	}
	nregs := len(fakeRegs())
	Explore(c, "requests", func(emit func(reqCase) bool) {
		for _, s := range crashStates {
			for _, m := range []string{"GET", "POST", "HEAD", "", "BREW"} {
				for r := 0; r < nregs; r++ {
					if !emit(reqCase{s, m, r}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, rc reqCase) *Fail {
		e := crashEnvOf(w, rc.State)
		if rc.Reg >= len(e.regs) {
			return nil
		}
		r := e.regs[rc.Reg]
		heights := []string{"", "0", "1", "-1", "x", "18446744073709551615", "18446744073709551616", strings.Repeat("9", 5000)}
		var qs []string
		// the name of a field alone, and between other signs
		for _, f := range append([]string{"address", "id"}, r.d.SecondaryKeys...) {
			for _, v := range []string{f, f + "%3D", f + "%3D%3D", "%3D" + f, f + "%20", f + ".x", f + "%00", f + "[0]", strings.ToUpper(f), f + "%3Dx%3D" + f} {
				qs = append(qs, "selectField="+v, "selectField="+v+"&selectField="+f, "selectField="+f+"=x&selectField="+v)
			}
		}
		for _, v := range []string{"", "=", "x", "x=", "=x", "x=y", "x=y=z", "%", "%00", "%ff=%ff", "id", strings.Repeat("a", 5000)} {
			qs = append(qs, "selectField="+v)
			for _, f := range append([]string{"address"}, r.d.SecondaryKeys...) {
				qs = append(qs, "selectField="+f+"="+v, "selectField="+f+"="+v+"&selectField="+f+"="+v)
			}
		}
		for _, v := range []string{"", "0", "1", "100", "-1", "x", "18446744073709551615", "99999999999999999999"} {
			qs = append(qs, "start="+v, "end="+v, "start="+v+"&end=0", "start=5&end="+v)
		}
		qs = append(qs, "", "&", ";", "selectField", "%zz=1")
		n := 0
		for _, h := range heights {
			hdr := map[string]string{"X-Starport-Framework-Height": h}
			if h == "" {
				hdr = nil
			}
			for _, k := range []string{key(0).addr, "n1", "0", "%00", "%ff", "%2F", "..", "*", ""} {
				t := singlePath(r.o) + "/" + k
				if _, f := e.http(rc.Method, t, hdr, func() string { return fmt.Sprintf("%s %q height %q (%s)", rc.Method, t, trunc(h, 30), rc.State) }); f != nil {
					return f
				}
				n++
			}
			for i, q := range qs {
				if h != "" && h != "1" && i%5 != n%5 && !c.Thorough {
					continue
				}
				for _, p := range []string{singlePath(r.o), singlePath(r.o) + "s"} {
					t := p + "?" + q
					if _, f := e.http(rc.Method, t, hdr, func() string {
						return fmt.Sprintf("%s %q height %q (%s)", rc.Method, trunc(t, 200), trunc(h, 30), rc.State)
					}); f != nil {
						return f
					}
					n++
				}
			}
		}
		addN(&c.Transitions, n)
		c.Outcome(fmt.Sprint(rc))
		if rc.State != "uninitialised" {
			return e.alive(func() string { return fmt.Sprintf("requests %+v", rc) })
		}
		return nil
	})
}

// newCrashWorld is the world of the block state, for building transactions of its shape.
func newCrashWorld() world {
	w := world{Acc: map[string]accState{}}
	for i := 0; i < 8; i++ {
		w.Acc[key(i).addr] = accState{Num: uint64(i)}
	}
	return w
}

// fakeRegs counts the objects served at most.
func fakeRegs() []int { return make([]int, len(repoObjects())+1) }
