package main

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/fdymylja/tmos/core/meta"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func init() { register("C19", c19) }

// textKey says which key of the kind a text names: the canonical text of the key, and
// whether the text is its canonical form. Texts that name no key give ok false.
func textKey(kind, text string) (canon string, exact, ok bool) {
	switch kind {
	case "string", "st":
		return text, true, text != ""
	case "bool":
		b, err := strconv.ParseBool(text)
		return strconv.FormatBool(b), text == strconv.FormatBool(b), err == nil
	case "int32", "int64":
		bits := 64
		if kind == "int32" {
			bits = 32
		}
		n, err := strconv.ParseInt(text, 10, bits)
		c := strconv.FormatInt(n, 10)
		return c, c == text, err == nil
	case "uint32", "uint64":
		bits := 64
		if kind == "uint32" {
			bits = 32
		}
		n, err := strconv.ParseUint(text, 10, bits)
		c := strconv.FormatUint(n, 10)
		return c, c == text, err == nil
	case "bytes":
		b, err := base64.RawStdEncoding.DecodeString(text)
		c := base64.RawStdEncoding.EncodeToString(b)
		return c, c == text, err == nil && len(b) > 0
	}
	hp("kind %s", kind)
	return
}

// qObj is an object expected to be served.
type qObj map[string]proto.Message // canonical key text -> object

// judgeGet compares the answer to a request for text with the objects of the kind.
func judgeGet(kind, text string, objs qObj, t *dynType, found bool, body []byte, what string) *Fail {
	canon, exact, ok := textKey(kind, text)
	want, exists := objs[canon]
	exists = exists && ok
	if !found {
		if exists && exact {
			return failf("get-missing", "%s: %s %q exists but is not returned: %s", what, kind, trunc(text, 80), trunc(string(body), 200))
		}
		return nil
	}
	if !exists {
		return failf("get-ghost", "%s: %s %q does not exist, but %s is returned", what, kind, trunc(text, 80), trunc(string(body), 200))
	}
	return sameJSON(t.obj(), want, body, fmt.Sprintf("%s: %s %q", what, kind, trunc(text, 80)))
}

func sameJSON(into, want proto.Message, body []byte, what string) *Fail {
	if err := protojson.Unmarshal(body, into); err != nil {
		return failf("get-json", "%s: the answer %s is no JSON form of %T: %v", what, trunc(string(body), 200), into, err)
	}
	if !proto.Equal(into, want) {
		return failf("get-wrong", "%s: returned %v, must be %v", what, trunc(fmt.Sprint(into), 300), trunc(fmt.Sprint(want), 300))
	}
	return nil
}

// oddTexts are texts near the canonical ones, of which some name keys and some name none.
func oddTexts(kind string, canon []string) []string {
	set := map[string]bool{}
	for _, s := range []string{"a", "A", "1", "-1", "0", "true", "True", "t", "unique", "%", " ", "\x00", "AA", "AQ", "9223372036854775808", "18446744073709551616", "-9223372036854775809", "4294967296", "2147483648", "1.0", "1e0", "0x1", "nil", "\xff"} {
		set[s] = true
	}
	for i, s := range canon {
		if len(s) > 40 || i > 60 && i%7 != 0 {
			continue
		}
		for _, v := range []string{"+" + s, "0" + s, " " + s, s + " ", s + "=", s + "/", "/" + s, s + "/x", s + "x", strings.ToUpper(s), s[:len(s)-1], base64.RawStdEncoding.EncodeToString([]byte(s)), base64.StdEncoding.EncodeToString([]byte(s))} {
			set[v] = true
		}
	}
	// the stored form of a key, given as text
	e := stTypes().byKind[kind]
	for i, s := range canon {
		if i > 300 {
			break
		}
		b, err := rawKey(kind, e, s)
		if err == nil {
			set[string(b)] = true
		}
	}
	for _, s := range canon {
		delete(set, s)
	}
	delete(set, "")
	return sortedKeys(set)
}

var rawStore *bareStore

func rawKey(kind string, t *dynType, text string) ([]byte, error) {
	dynMu.Lock()
	if rawStore == nil {
		rawStore = newBareStore(allRegs()...)
	}
	dynMu.Unlock()
	return rawStore.pk(t.obj(), text)
}

// keySpace gives keys of a kind as canonical text with their objects.
func keySpace(kind string, thorough bool) (texts []string, mk func(string) *DynObj) {
	t := stTypes().byKind[kind]
	mk = func(s string) *DynObj {
		switch kind {
		case "string", "st":
			return t.obj().set("the_id", s)
		case "bytes":
			b, err := base64.RawStdEncoding.DecodeString(s)
			must(err)
			return t.obj().set("the_id", b)
		}
		return t.obj().set("the_id", parseKey(kind, s))
	}
	switch kind {
	case "bool":
		texts = []string{"false", "true"}
	case "string", "st":
		texts = edgeStrings(thorough)
		for _, s := range []string{"a/b", "a/b/c", "/a", "a//b", "get/x", "%2F", "a%2Fb", "a?b", "a#b", "A", "..", ".", "a/..", "+", "a b", "\u00e9/\u00e9", "{x}", "string", "Kstring", "1", "true"} {
			texts = append(texts, s)
		}
	case "bytes":
		for _, b := range edgeBytes(thorough) {
			texts = append(texts, base64.RawStdEncoding.EncodeToString(b))
		}
	default:
		texts = edgeInts(kind)
	}
	seen := map[string]bool{}
	var out []string
	for _, s := range texts {
		if !seen[s] && len(s) < 30000 {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out, mk
}

func abciGet(q func(abcitypes.RequestQuery) abcitypes.ResponseQuery, path string) (bool, []byte) {
	r := q(abcitypes.RequestQuery{Path: path})
	if r.Code == 0 {
		return true, r.Value
	}
	return false, []byte(r.Log)
}

func c19(c *Ctx) {
	c.Rule = "for every kind of key, every edge value present or absent, queried by its own text, by every text near it, and by the raw stored form of every key; every path over an alphabet of segments up to length 6; breadth-first over create, update and delete histories with every address queried after each step; every set and order of registered types for the resources query; every object of a running application"
	t := stTypes()

	type kindCase struct {
		Kind string
		Mod  int // keys with index % 3 == Mod are absent
	}
	Explore(c, "addresses", func(emit func(kindCase) bool) {
		for _, k := range append(append([]string{}, kindNames...), "st") {
			for m := 0; m < 3; m++ {
				if !emit(kindCase{k, m}) {
					return
				}
			}
		}
	}, func(w *Worker, kc kindCase) *Fail {
		s := newRtStore(allRegs()...)
		defer s.close()
		q := runtime.NewABCIApplication(s.rt).Query
		texts, mk := keySpace(kc.Kind, c.Thorough)
		objs := qObj{}
		for i, x := range texts {
			if i%3 == kc.Mod {
				continue
			}
			o := content(mk(x), i)
			must(s.create(o))
			objs[x] = o
		}
		// objects of the types with related names, under the same keys
		for _, other := range []string{"st", "string"} {
			if other != kc.Kind {
				for i, x := range texts {
					if i%3 == kc.Mod && len(x) < 100 && utf8.ValidString(x) {
						must(s.create(content(t.byKind[other].obj().set("the_id", x), i+1)))
					}
				}
			}
		}
		n := 0
		for _, x := range append(append([]string{}, texts...), oddTexts(kc.Kind, texts)...) {
			for rep := 0; rep < 2; rep++ {
				found, body := abciGet(q, "get/mc.store/K"+kc.Kind+"/"+x)
				if f := judgeGet(kc.Kind, x, objs, t.byKind[kc.Kind], found, body, "get"); f != nil {
					return f
				}
				n++
			}
		}
		addN(&c.Transitions, n)
		c.Outcome(fmt.Sprint(kc))
		return nil
	})

	// every path
	segs := []string{"get", "", "mc.store", "Kstring", "One", "a", "unique", "api_resources", "list", "Kint32", "7", "GET", "kstring", "store", "OneX"}
	max := 5
	if c.Thorough {
		max = 6
	}
	type pathCase struct{ First, Second int }
	Explore(c, "paths", func(emit func(pathCase) bool) {
		for i := range segs {
			for j := -1; j < len(segs); j++ {
				if !emit(pathCase{i, j}) {
					return
				}
			}
		}
	}, func(w *Worker, pc pathCase) *Fail {
		type entry struct {
			q    func(abcitypes.RequestQuery) abcitypes.ResponseQuery
			objs map[string]proto.Message
		}
		e, ok := w.S["e"].(*entry)
		if !ok {
			s := newRtStore(allRegs()...)
			e = &entry{runtime.NewABCIApplication(s.rt).Query, map[string]proto.Message{}}
			put := func(path string, o *DynObj) {
				must(s.create(o))
				e.objs[path] = o
			}
			put("Kstring/a", t.byKind["string"].obj().set("the_id", "a").set("val", "1"))
			put("Kstring/a/a", t.byKind["string"].obj().set("the_id", "a/a").set("val", "2"))
			put("Kstring/unique", t.byKind["string"].obj().set("the_id", "unique").set("val", "3"))
			put("Kint32/7", t.byKind["int32"].obj().set("the_id", int32(7)).set("val", "4"))
			put("One/unique", t.single.obj().set("val", "5"))
			w.S["e"] = e
			w.OnClose(s.close)
		}
		one := func(path string) *Fail {
			r := e.q(abcitypes.RequestQuery{Path: path})
			sp := strings.SplitN(path, "/", 4)
			switch {
			case sp[0] == "api_resources":
				if len(sp) == 1 && r.Code != 0 {
					return failf("resources", "%q: code %d %s", path, r.Code, r.Log)
				}
				return nil
			case sp[0] != "get" || len(sp) < 4 || sp[1] != "mc.store":
				if r.Code == 0 {
					return failf("bad-path", "%q: code 0, answer %s", path, trunc(string(r.Value), 100))
				}
				return nil
			}
			want, exists := e.objs[sp[2]+"/"+sp[3]]
			if !exists {
				if r.Code == 0 {
					return failf("get-ghost", "%q: code 0, answer %s", path, trunc(string(r.Value), 100))
				}
				return nil
			}
			if r.Code != 0 {
				return failf("get-missing", "%q: code %d %s", path, r.Code, r.Log)
			}
			return sameJSON(want.ProtoReflect().New().Interface(), want, r.Value, path)
		}
		if pc.Second < 0 {
			return one(segs[pc.First])
		}
		var f *Fail
		n := 0
		words(len(segs), max-2, func(ix []int) bool {
			p := []string{segs[pc.First], segs[pc.Second]}
			for _, i := range ix {
				p = append(p, segs[i])
			}
			f = one(strings.Join(p, "/"))
			n++
			return f == nil
		})
		addN(&c.Transitions, n)
		c.Outcome(fmt.Sprint(pc))
		return f
	})

	// histories: the answer follows the stored state
	type addr struct {
		path string
		mk   func() *DynObj
	}
	addrs := []addr{
		{"Kstring/a", func() *DynObj { return t.byKind["string"].obj().set("the_id", "a") }},
		{"Kst/a", func() *DynObj { return t.byKind["st"].obj().set("the_id", "a") }},
		{"Kuint64/97", func() *DynObj { return t.byKind["uint64"].obj().set("the_id", uint64(97)) }},
		{"One/unique", func() *DynObj { return t.single.obj() }},
	}
	if c.Thorough {
		addrs = append(addrs, addr{"Kstring/a/b", func() *DynObj { return t.byKind["string"].obj().set("the_id", "a/b") }},
			addr{"Kbytes/YQ", func() *DynObj { return t.byKind["bytes"].obj().set("the_id", []byte("a")) }})
	}
	type model string // one digit per address: 0 absent, 1.. content
	opName := func(op int) string {
		return []string{"create", "update to 1", "update to 2", "delete"}[op%4] + " " + addrs[op/4].path
	}
	mk := func() *system[model] {
		s := newRtStore(allRegs()...)
		q := runtime.NewABCIApplication(s.rt).Query
		sys := &system[model]{dbs: s.d, genesis: dump(s.d), m0: model(strings.Repeat("0", len(addrs))), close: s.close, renew: 2000}
		sys.step = func(m model, op int) (model, *Fail) {
			i := op / 4
			b := []byte(m)
			o := addrs[i].mk()
			var err error
			switch op % 4 {
			case 0:
				if err = s.create(content(o, 0)); err == nil {
					b[i] = '1'
				}
			case 1:
				if err = s.update(content(o, 1)); err == nil {
					b[i] = '2'
				}
			case 2:
				if err = s.update(content(o, 2)); err == nil {
					b[i] = '3'
				}
			case 3:
				if err = s.del(o); err == nil {
					b[i] = '0'
				}
			}
			for j, a := range addrs {
				found, body := abciGet(q, "get/mc.store/"+a.path)
				if b[j] == '0' {
					if found {
						return m, failf("get-ghost", "%s is returned but does not exist: %s", a.path, body)
					}
					continue
				}
				if !found {
					return m, failf("get-missing", "%s exists but is not returned: %s", a.path, body)
				}
				if f := sameJSON(a.mk().New(), content(a.mk(), int(b[j]-'1')), body, a.path); f != nil {
					return m, f
				}
			}
			return model(b), nil
		}
		return sys
	}
	BFS(c, "histories", 4*len(addrs), 30, 100000, opName, mk, func(m model) string { return string(m) })
	Walk(c, "walks", windows(4*len(addrs), 3, 700), opName, mk)

	// the resources query
	type resCase struct{ Types []int }
	regs := append(allRegs(), func() []regObj {
		var r []regObj
		for _, o := range repoObjects() {
			r = append(r, regObj{o, oneSchema()})
		}
		return r
	}()...)
	Explore(c, "resources", func(emit func(resCase) bool) {
		for l := 0; l <= 2; l++ {
			if !wordsLen(len(regs), l, func(ix []int) bool {
				if l == 2 && ix[0] == ix[1] {
					return true
				}
				return emit(resCase{ix})
			}) {
				return
			}
		}
		small := []int{0, 5, 10, 12, 15, 16, 18, len(regs) - 2}
		perms(len(small), func(p []int) bool {
			var x []int
			for _, i := range p {
				x = append(x, small[i])
			}
			for l := 3; l <= len(x); l++ {
				if !c.Thorough && l > 3 && l < len(x) {
					continue
				}
				if !emit(resCase{x[:l]}) {
					return false
				}
			}
			return true
		})
		all := make([]int, len(regs))
		for i := range all {
			all[i] = i
		}
		emit(resCase{all})
	}, func(w *Worker, rc resCase) *Fail {
		st := orm.NewStore(objects.NewStore(nil), indexes.NewStore(nil))
		want := map[string]bool{}
		for _, i := range rc.Types {
			must(st.RegisterObject(regs[i].o, &schema.Definition{Singleton: true}))
			d := regs[i].o.APIDefinition()
			want[d.Group+" "+d.Kind] = true
		}
		q := runtime.NewQuerier(st)
		var first []string
		for rep := 0; rep < 6; rep++ {
			got, f := parseResources(q.Handle)
			if f != nil {
				return f
			}
			if rep == 0 {
				first = got
			}
			if fmt.Sprint(got) != fmt.Sprint(first) {
				return failf("resources-order", "%v registered: listed as %v, then as %v", rc.Types, first, got)
			}
		}
		s := append([]string{}, first...)
		sort.Strings(s)
		if fmt.Sprint(s) != fmt.Sprint(sortedKeys(want)) {
			return failf("resources", "registered %v, listed %v", sortedKeys(want), s)
		}
		c.Outcome(fmt.Sprint(first))
		return nil
	})

	// as many as 66 kinds
	Explore(c, "many resources", func(emit func(typesCase) bool) {
		for _, n := range sizesTo(manyTypesMax) {
			emit(typesCase{N: n})
			emit(typesCase{N: n, Kind: 1})
		}
	}, func(w *Worker, tc typesCase) *Fail {
		st := orm.NewStore(objects.NewStore(nil), indexes.NewStore(nil))
		want := map[string]bool{}
		ts := manyTypes()[:tc.N]
		for i := range ts {
			if tc.Kind == 1 {
				i = len(ts) - 1 - i
			}
			must(st.RegisterObject(ts[i].obj(), &schema.Definition{Singleton: true}))
			d := ts[i].obj().APIDefinition()
			want[d.Group+" "+d.Kind] = true
		}
		got, f := parseResources(runtime.NewQuerier(st).Handle)
		if f != nil {
			return f
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(sortedKeys(want)) {
			return failf("resources", "registered %v, listed %v", sortedKeys(want), got)
		}
		return nil
	})

	// names next to the registered ones
	type nearCase struct {
		Obj  int
		What string
	}
	nearObjs := append(repoObjects(), appT().note.obj())
	Explore(c, "near names", func(emit func(nearCase) bool) {
		for i := range nearObjs {
			for _, what := range []string{"group", "kind", "both", "verb"} {
				if !emit(nearCase{i, what}) {
					return
				}
			}
		}
	}, func(w *Worker, nc nearCase) *Fail {
		type entry struct {
			a   *App
			ids []string
			reg map[string]bool
		}
		e, ok := w.S["near"].(*entry)
		if !ok {
			e = &entry{a: newApp(appCfg{Accounts: stdAccounts()}), reg: map[string]bool{}}
			e.a.begin(3)
			wd := e.a.observe()
			e.a.deliver(mkSimple([]int{0}, putMsg("n1", "v", ""), sendMsg(key(0).addr, key(3).addr, cn{"test", "2"}))(wd).bytes())
			e.ids = []string{"unique", "n1", key(0).addr, "bank", "mcapp", rbacv1.ExternalAccountRoleID}
			rs, f := parseResources(e.a.abci.Query)
			if f != nil {
				return f
			}
			for _, r := range rs {
				e.reg[r] = true
			}
			w.S["near"] = e
			w.OnClose(e.a.close)
		}
		d := nearObjs[nc.Obj].APIDefinition()
		if !e.reg[d.Group+" "+d.Kind] {
			return nil
		}
		n, stored := 0, 0
		ask := func(verb, group, kind string) *Fail {
			for _, id := range e.ids {
				n++
				p := verb + "/" + group + "/" + kind + "/" + id
				if found, body := abciGet(e.a.abci.Query, p); found && verb != runtime.ResourcesPath {
					if verb == "get" && e.reg[group+" "+kind] {
						stored++
						continue
					}
					return failf("near-name", "%q names nothing but is answered with %s", p, trunc(string(body), 200))
				}
			}
			return nil
		}
		if f := ask("get", d.Group, d.Kind); f != nil {
			return f
		}
		c.Outcome(fmt.Sprintf("%s stored=%v", nc.What, stored > 0))
		switch nc.What {
		case "group":
			for _, g := range nearNames(d.Group, ".", "/") {
				if f := ask("get", g, d.Kind); f != nil {
					return f
				}
			}
		case "kind":
			for _, k := range nearNames(d.Kind, "/") {
				if f := ask("get", d.Group, k); f != nil {
					return f
				}
			}
		case "both": // another registered group or kind
			for r := range e.reg {
				sp := strings.Split(r, " ")
				if f := ask("get", sp[0], d.Kind); f != nil {
					return f
				}
				if f := ask("get", d.Group, sp[1]); f != nil {
					return f
				}
			}
		case "verb":
			for _, v := range nearNames("get") {
				if f := ask(v, d.Group, d.Kind); f != nil {
					return f
				}
			}
		}
		addN(&c.Transitions, n)
		return nil
	})

	// a running application
	type appCase struct{ Height int64 }
	Explore(c, "application", func(emit func(appCase) bool) { emit(appCase{0}); emit(appCase{3}) }, func(w *Worker, ac appCase) *Fail {
		a := newApp(appCfg{Accounts: stdAccounts()})
		defer a.close()
		if ac.Height > 0 {
			a.begin(ac.Height)
			wd := a.observe()
			a.deliver(mkSimple([]int{0}, putMsg("n1", "v", ""), sendMsg(key(0).addr, key(3).addr, cn{"test", "2"}))(wd).bytes())
		}
		got, f := parseResources(a.abci.Query)
		if f != nil {
			return f
		}
		var want []string
		for _, o := range append(repoObjects(), appT().note.obj()) {
			d := o.APIDefinition()
			if d.Group == "testmodule.v1" || strings.Contains(d.Group, "crisis") {
				continue
			}
			want = append(want, d.Group+" "+d.Kind)
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return failf("resources", "application registered %v, listed %v", want, got)
		}
		wd := a.observe()
		for addr := range wd.Bal {
			found, body := abciGet(a.abci.Query, "get/tmos.x.bank.v1alpha1/Balance/"+addr)
			if !found || !strings.Contains(string(body), addr) {
				return failf("get-missing", "balance of %s: %s", addr, body)
			}
		}
		for _, o := range append(repoObjects(), appT().note.obj()) {
			d := o.APIDefinition()
			x := o.NewStateObject()
			if err := a.rt.Get(meta.SingletonID, x); err == nil {
				found, body := abciGet(a.abci.Query, fmt.Sprintf("get/%s/%s/unique", d.Group, d.Kind))
				if !found {
					return failf("get-missing", "singleton %s %s: %s", d.Group, d.Kind, body)
				}
				if f := sameJSON(o.NewStateObject(), x, body, d.Kind); f != nil {
					return f
				}
			}
		}
		return nil
	})
}

func parseResources(q func(abcitypes.RequestQuery) abcitypes.ResponseQuery) ([]string, *Fail) {
	r := q(abcitypes.RequestQuery{Path: "api_resources"})
	if r.Code != 0 {
		return nil, failf("resources", "resources query: code %d %s", r.Code, r.Log)
	}
	res := new(runtimev1.Resources)
	if err := protojson.Unmarshal(r.Value, res); err != nil {
		return nil, failf("resources", "resources query: %v", err)
	}
	var out []string
	seen := map[string]bool{}
	for _, g := range res.ApiGroupResources {
		if seen[g.ApiGroup] {
			return nil, failf("resources", "group %s is listed twice", g.ApiGroup)
		}
		seen[g.ApiGroup] = true
		for _, k := range g.StateObjects {
			out = append(out, g.ApiGroup+" "+k)
		}
	}
	return out, nil
}

// nearNames are the names other than s one edit away from it, and its parts.
func nearNames(s string, seps ...string) []string {
	set := map[string]bool{}
	for i := 0; i <= len(s); i++ {
		set[s[:i]] = true
		set[s[i:]] = true
		for _, x := range append([]string{"x", " ", "s", "1", "%", "*", "_"}, seps...) {
			set[s[:i]+x+s[i:]] = true
		}
		if i == len(s) {
			break
		}
		set[s[:i]+s[i+1:]] = true
		set[s[:i]+s[i:i+1]+s[i:]] = true
		set[s[:i]+"x"+s[i+1:]] = true
		set[s[:i]+strings.ToUpper(s[i:i+1])+s[i+1:]] = true
		set[s[:i]+strings.ToLower(s[i:i+1])+s[i+1:]] = true
		if i+1 < len(s) {
			set[s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:]] = true
		}
	}
	for _, sep := range seps {
		parts := strings.Split(s, sep)
		for i := range parts {
			set[strings.Join(append(append([]string{}, parts[:i]...), parts[i+1:]...), sep)] = true
			set[parts[i]] = true
		}
	}
	set[strings.ToLower(s)], set[strings.ToUpper(s)] = true, true
	delete(set, s)
	return sortedKeys(set)
}
