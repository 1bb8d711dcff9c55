package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

func init() { register("C20", c20) }

type httpAPI struct{ h http.Handler }

// newHTTP serves the registered types of a store; perModule registers them as one module.
func newHTTP(c client.Client, regs []regObj, perModule bool) httpAPI {
	b := router.NewBuilder(c)
	if perModule {
		d := module.NewDescriptorBuilder().Named("mcstore")
		for _, r := range regs {
			d.OwnsStateObject(r.o, r.d)
		}
		must(b.CreateModuleHandlers(d.Build()))
	} else {
		for _, r := range regs {
			must(b.CreateStateObjectHandler(r.o, r.d))
		}
	}
	h, err := b.Build()
	must(err)
	return httpAPI{h}
}

func (a httpAPI) do(method, target, height string) (int, []byte) {
	r := httptest.NewRequest(method, target, nil)
	if height != "" {
		r.Header.Set(router.HeightHeader, height)
	}
	w := httptest.NewRecorder()
	a.h.ServeHTTP(w, r)
	return w.Code, w.Body.Bytes()
}

func objPath(o meta.StateObject, key string) string {
	d := o.APIDefinition()
	return "/" + strings.ToLower(d.Group) + "/" + strings.ToLower(d.Kind) + "/" + url.PathEscape(key)
}

func singlePath(o meta.StateObject) string {
	d := o.APIDefinition()
	return "/" + strings.ToLower(d.Group) + "/" + strings.ToLower(d.Kind)
}

func listPath(o meta.StateObject, field, text string) string {
	return singlePath(o) + "s?" + router.QueryParamSelectField + "=" + url.QueryEscape(field+"="+text)
}

// oneSegment says whether the key can stand as one segment of a path.
func oneSegment(key string) bool {
	return key != "" && key != "." && key != ".." && !strings.Contains(key, "/")
}

// judgeHTTP compares the answer for a key text with the objects of the kind.
func judgeHTTP(kind, text string, objs qObj, into proto.Message, code int, body []byte) *Fail {
	canon, exact, ok := textKey(kind, text)
	want, exists := objs[canon]
	exists = exists && ok
	what := fmt.Sprintf("GET %s %q", kind, trunc(text, 80))
	if code == http.StatusOK {
		if !exists {
			return failf("http-ghost", "%s: no such object, but 200 and %s", what, trunc(string(body), 200))
		}
		return sameJSON(into, want, body, what)
	}
	if !oneSegment(text) {
		return nil // not addressable: anything but an object
	}
	switch {
	case exists && exact:
		return failf("http-missing", "%s exists: status %d %s", what, code, trunc(string(body), 200))
	case !utf8.ValidString(text) && (kind == "string" || kind == "st"):
		if code != 400 && code != 404 {
			return failf("http-status", "%s: status %d", what, code)
		}
	case !ok && code != 400:
		return failf("http-malformed", "%s is no key of this kind: status %d %s, must be 400", what, code, trunc(string(body), 200))
	case ok && exact && code != 404:
		return failf("http-absent", "%s does not exist: status %d %s, must be 404", what, code, trunc(string(body), 200))
	case code != 400 && code != 404:
		return failf("http-status", "%s: status %d %s", what, code, trunc(string(body), 200))
	}
	return nil
}

// judgeList compares a list answer with the wanted objects, in any order.
func judgeList(t *dynType, want []*DynObj, code int, body []byte, what string) *Fail {
	if code != 200 && len(want) == 0 && code >= 400 && code < 500 {
		return nil // the store reports a query without results as an error
	}
	if code != 200 {
		return failf("http-list-refused", "%s: status %d %s, must be 200", what, code, trunc(string(body), 200))
	}
	var l struct {
		List []json.RawMessage `json:"list"`
	}
	if err := json.Unmarshal(body, &l); err != nil {
		return failf("http-list-json", "%s: %v: %s", what, err, trunc(string(body), 200))
	}
	var got, exp []string
	for _, r := range l.List {
		o := t.obj()
		if err := protojson.Unmarshal(r, o); err != nil {
			return failf("http-list-json", "%s: %v: %s", what, err, trunc(string(r), 200))
		}
		got = append(got, string(detBytes(o)))
	}
	for _, o := range want {
		exp = append(exp, string(detBytes(o)))
	}
	sort.Strings(got)
	sort.Strings(exp)
	if strings.Join(got, "\x00") != strings.Join(exp, "\x00") || len(got) != len(exp) {
		return failf("http-list-set", "%s: %d objects, must be %d %v: %s", what, len(got), len(want), trunc(fmt.Sprint(want), 200), trunc(string(body), 300))
	}
	return nil
}

func detBytes(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	must(err)
	return b
}

// fieldText says which value of an indexed field a text names.
func fieldText(field, text string) (canon string, exact, ok bool) {
	kind := map[string]string{"s": "string", "sx": "string", "camelCase": "string", "by": "bytes", "bo": "bool", "i32": "int32", "u32": "uint32", "i64": "int64", "u64": "uint64"}[field]
	if text == "" && (kind == "string" || kind == "bytes") {
		return "", true, true
	}
	return textKey(kind, text)
}

func c20(c *Ctx) {
	c.Rule = "for every kind of key, every edge value present or absent, requested by its own text and by every text near it; all combinations of stored objects over colliding index vectors with every field and value listed; every text of every indexed field; every height text; breadth-first over create, update and delete histories with every address and list requested after each step; every object of a running application"
	t := stTypes()

	type kindCase struct {
		Kind string
		Mod  int
	}
	Explore(c, "addresses", func(emit func(kindCase) bool) {
		for _, k := range append(append([]string{}, kindNames...), "st") {
			for m := 0; m < 3; m++ {
				if !emit(kindCase{k, m}) {
					return
				}
			}
		}
	}, func(w *Worker, kc kindCase) *Fail {
		s := newBareStore(allRegs()...)
		defer s.close()
		api := newHTTP(client.NewORMClient(s.s, "mc"), allRegs(), kc.Mod == 1)
		texts, mk := keySpace(kc.Kind, c.Thorough)
		objs := qObj{}
		for i, x := range texts {
			if i%3 == kc.Mod {
				continue
			}
			o := content(mk(x), i)
			must(s.create(o))
			objs[x] = o
		}
		for _, other := range []string{"st", "string"} {
			if other != kc.Kind {
				for i, x := range texts {
					if i%3 == kc.Mod && len(x) < 100 && utf8.ValidString(x) {
						must(s.create(content(t.byKind[other].obj().set("the_id", x), i+1)))
					}
				}
			}
		}
		ty := t.byKind[kc.Kind]
		n := 0
		for i, x := range append(append([]string{}, texts...), oddTexts(kc.Kind, texts)...) {
			for rep := 0; rep < 2; rep++ {
				code, body := api.do("GET", objPath(ty.obj(), x), "")
				if f := judgeHTTP(kc.Kind, x, objs, ty.obj(), code, body); f != nil {
					return f
				}
				n++
			}
			if i%10 != 0 {
				continue
			}
			for _, h := range badHeights {
				code, body := api.do("GET", objPath(ty.obj(), x), h)
				if oneSegment(x) && code != 400 || code == 200 {
					return failf("http-height", "GET %s %q at height %q: status %d %s, must be 400", kc.Kind, trunc(x, 80), h, code, trunc(string(body), 200))
				}
			}
			// other heights answer the object, or that there is none
			code, body := api.do("GET", objPath(ty.obj(), x), "1")
			if code == 200 {
				if f := judgeHTTP(kc.Kind, x, objs, ty.obj(), code, body); f != nil {
					return f
				}
			}
		}
		addN(&c.Transitions, n)
		c.Outcome(fmt.Sprint(kc))
		return nil
	})

	// lists over all combinations of stored objects
	type listCase struct{ Vec []int } // per slot: 0 absent, 1.. vector
	slots := idxSlots()
	nvec := 4
	Explore(c, "lists", func(emit func(listCase) bool) {
		for m := 0; m < 1; m++ {
			if !wordsLen(nvec+1, len(slots), func(ix []int) bool {
				if !c.Thorough && ix[3] > 2 {
					return true
				}
				return emit(listCase{ix})
			}) {
				return
			}
		}
	}, func(w *Worker, lc listCase) *Fail {
		type entry struct {
			s   *bareStore
			api httpAPI
			g   [][]byte
		}
		e, ok := w.S["l"].(*entry)
		if !ok {
			s := newBareStore(allRegs()...)
			e = &entry{s: s, api: newHTTP(client.NewORMClient(s.s, "mc"), allRegs(), false)}
			w.S["l"] = e
			w.OnClose(s.close)
		}
		objs := map[*dynType][]*DynObj{}
		for i, v := range lc.Vec {
			if v == 0 {
				continue
			}
			ty := slots[i].t()
			o := idxVec(ty.obj().set("id", slots[i].pk), v-1)
			must(e.s.create(o))
			objs[ty] = append(objs[ty], o)
		}
		defer func() {
			for _, os := range objs {
				for _, o := range os {
					must(e.s.del(o))
				}
			}
		}()
		n := 0
		for _, ty := range []*dynType{t.idx, t.idxX} {
			for _, field := range idxKeys {
				fd := ty.md.Fields().ByJSONName(field)
				for _, v := range idxQueryVals[field] {
					var want []*DynObj
					for _, o := range objs[ty] {
						if valEq(o.m.Get(fd), protoreflect.ValueOf(v), fd) {
							want = append(want, o)
						}
					}
					code, body := e.api.do("GET", listPath(ty.obj(), field, keyText(v)), "")
					if f := judgeList(ty, want, code, body, fmt.Sprintf("list %s by %s=%q", ty.md.Name(), field, keyText(v))); f != nil {
						return f
					}
					n++
				}
			}
		}
		addN(&c.Transitions, n)
		c.Outcome(fmt.Sprint(lc))
		return nil
	})

	// every text as the value of every field
	type valCase struct {
		Field string
		Full  bool
	}
	Explore(c, "list-values", func(emit func(valCase) bool) {
		for _, f := range append(append([]string{}, idxKeys...), "nope", "id", "S", "", "val", "i32 ", "s.x", "idx") {
			for _, full := range []bool{false, true} {
				if !emit(valCase{f, full}) {
					return
				}
			}
		}
	}, func(w *Worker, vc valCase) *Fail {
		s := newBareStore(allRegs()...)
		defer s.close()
		api := newHTTP(client.NewORMClient(s.s, "mc"), allRegs(), true)
		var objs []*DynObj
		if vc.Full {
			for i, sl := range slots {
				o := idxVec(sl.t().obj().set("id", sl.pk), i)
				must(s.create(o))
				objs = append(objs, o)
			}
			for i, x := range []string{"=", "a=b", "&", "x&s=xa", "%", "+", " ", "\u00e9", "x;"} {
				o := t.idx.obj().set("id", fmt.Sprint("o", i)).set("s", x).set("camel_case", x).set("sx", x)
				must(s.create(o))
				objs = append(objs, o)
			}
		}
		fd := t.idx.md.Fields().ByJSONName(vc.Field)
		indexed := false
		for _, k := range idxKeys {
			indexed = indexed || k == vc.Field
		}
		texts := []string{"", "x", "xa", "=", "a=b", "&", "x&s=xa", "%", "+", " ", "\u00e9", "x;", "X", "a", "eA", "eGE", "eGE=", "eA==", "eB"}
		if indexed {
			for _, v := range idxQueryVals[vc.Field] {
				texts = append(texts, keyText(v))
			}
			kind := map[string]string{"s": "string", "sx": "string", "camelCase": "string", "by": "bytes", "bo": "bool", "i32": "int32", "u32": "uint32", "i64": "int64", "u64": "uint64"}[vc.Field]
			ks, _ := keySpace(kind, c.Thorough)
			texts = append(texts, oddTexts(kind, ks)...)
		}
		for _, x := range texts {
			what := fmt.Sprintf("list by %q=%q", vc.Field, trunc(x, 60))
			code, body := api.do("GET", listPath(t.idx.obj(), vc.Field, x), "")
			if !indexed {
				if code != 400 {
					return failf("http-list-field", "%s: the field is not indexed: status %d %s, must be 400", what, code, trunc(string(body), 200))
				}
				continue
			}
			canon, exact, ok := fieldText(vc.Field, x)
			switch {
			case !ok && code != 400:
				return failf("http-list-value", "%s: no value of the field: status %d %s, must be 400", what, code, trunc(string(body), 200))
			case !ok || !utf8.ValidString(x):
			case !exact && code == 400:
			default:
				var want []*DynObj
				for _, o := range objs {
					if o.t == t.idx && keyText(plainVal(o.m.Get(fd), fd)) == canon {
						want = append(want, o)
					}
				}
				if f := judgeList(t.idx, want, code, body, what); f != nil {
					return f
				}
			}
		}
		if indexed {
			for _, raw := range []string{vc.Field, "=", "x=" + vc.Field} {
				code, body := api.do("GET", singlePath(t.idx.obj())+"s?selectField="+url.QueryEscape(raw), "")
				if code != 400 {
					return failf("http-list-field", "list with selection %q: status %d %s, must be 400", raw, code, trunc(string(body), 200))
				}
			}
			for _, h := range badHeights {
				code, body := api.do("GET", listPath(t.idx.obj(), vc.Field, keyText(idxQueryVals[vc.Field][0])), h)
				if code != 400 {
					return failf("http-height", "list by %s at height %q: status %d %s, must be 400", vc.Field, h, code, trunc(string(body), 200))
				}
			}
		}
		c.Outcome(fmt.Sprint(vc))
		return nil
	})

	// numbers of matches up to the documented page of 100
	type sizeCase struct{ N int }
	Explore(c, "list-sizes", func(emit func(sizeCase) bool) {
		for n := 0; n <= 100; n++ {
			if !c.Thorough && n > 12 && n%11 != 0 && n < 98 {
				continue
			}
			if !emit(sizeCase{n}) {
				return
			}
		}
		for _, n := range sizesTo(most(c, 513, 2049)) {
			if n > 100 && !emit(sizeCase{n}) {
				return
			}
		}
	}, func(w *Worker, sc sizeCase) *Fail {
		s := newBareStore(allRegs()...)
		defer s.close()
		api := newHTTP(client.NewORMClient(s.s, "mc"), allRegs(), false)
		var want []*DynObj
		for i := 0; i < sc.N+5; i++ {
			o := t.idx.obj().set("id", fmt.Sprint("o", i)).set("i32", int32(1)).set("s", strings.Repeat("x", i))
			if i < sc.N {
				want = append(want, o)
			} else {
				o.set("i32", int32(i%2*256))
			}
			must(s.create(o))
		}
		code, body := api.do("GET", listPath(t.idx.obj(), "i32", "1"), "")
		c.Outcome(fmt.Sprint(sc))
		return judgeList(t.idx, want, code, body, fmt.Sprintf("list of %d matches", sc.N))
	})

	// histories
	type addr struct {
		kind, key string
		mk        func() *DynObj
	}
	addrs := []addr{
		{"string", "a", func() *DynObj { return t.byKind["string"].obj().set("the_id", "a") }},
		{"uint64", "97", func() *DynObj { return t.byKind["uint64"].obj().set("the_id", uint64(97)) }},
		{"", "", func() *DynObj { return t.single.obj() }},
		{"idx", "a", func() *DynObj { return t.idx.obj().set("id", "a") }},
		{"idx", "xa", func() *DynObj { return t.idx.obj().set("id", "xa") }},
	}
	if c.Thorough {
		addrs = append(addrs, addr{"st", "a", func() *DynObj { return t.byKind["st"].obj().set("the_id", "a") }},
			addr{"bytes", "YQ", func() *DynObj { return t.byKind["bytes"].obj().set("the_id", []byte("a")) }})
	}
	fill := func(a addr, n int) *DynObj {
		if a.kind == "idx" {
			return idxVec(a.mk(), n)
		}
		return content(a.mk(), n)
	}
	opName := func(op int) string {
		return []string{"create", "update to 1", "update to 2", "delete"}[op%4] + " " + addrs[op/4].kind + "/" + addrs[op/4].key
	}
	type model string
	mk := func() *system[model] {
		s := newBareStore(allRegs()...)
		api := newHTTP(client.NewORMClient(s.s, "mc"), allRegs(), false)
		sys := &system[model]{dbs: s.d, genesis: dump(s.d), m0: model(strings.Repeat("0", len(addrs))), close: s.close, renew: 2000}
		sys.step = func(m model, op int) (model, *Fail) {
			i := op / 4
			b := []byte(m)
			var err error
			next := byte('1' + op%4)
			switch op % 4 {
			case 0:
				err = s.create(fill(addrs[i], 0))
			case 1, 2:
				err = s.update(fill(addrs[i], op%4))
			case 3:
				err, next = s.del(addrs[i].mk()), '0'
			}
			if err == nil {
				b[i] = next
			}
			var idx []*DynObj
			for j, a := range addrs {
				p := singlePath(a.mk())
				if a.kind != "" {
					p = objPath(a.mk(), a.key)
				}
				code, body := api.do("GET", p, "")
				if b[j] == '0' {
					if code != 404 {
						return m, failf("http-absent", "%s does not exist: status %d %s", p, code, body)
					}
					continue
				}
				want := fill(a, int(b[j]-'1'))
				if a.kind == "idx" {
					idx = append(idx, want)
				}
				if code != 200 {
					return m, failf("http-missing", "%s exists: status %d %s", p, code, body)
				}
				if f := sameJSON(a.mk().New(), want, body, p); f != nil {
					return m, f
				}
			}
			for _, field := range []string{"s", "bo", "i32"} {
				fd := t.idx.md.Fields().ByJSONName(field)
				for _, v := range idxQueryVals[field] {
					var want []*DynObj
					for _, o := range idx {
						if valEq(o.m.Get(fd), protoreflect.ValueOf(v), fd) {
							want = append(want, o)
						}
					}
					code, body := api.do("GET", listPath(t.idx.obj(), field, keyText(v)), "")
					if f := judgeList(t.idx, want, code, body, fmt.Sprintf("list by %s=%q", field, keyText(v))); f != nil {
						return m, f
					}
				}
			}
			return model(b), nil
		}
		return sys
	}
	BFS(c, "histories", 4*len(addrs), 30, 100000, opName, mk, func(m model) string { return string(m) })
	Walk(c, "walks", windows(4*len(addrs), 3, 700), opName, mk)

	// types with their own names of key, alone and next to each other
	type nameCase struct {
		Names []int
	}
	names := []string{"id", "theId", "ID", "aB", "a", "lowercase", "x1", "A1b", "under_Score"}
	Explore(c, "key-names", func(emit func(nameCase) bool) {
		words(len(names), 2, func(ix []int) bool {
			if len(ix) == 0 {
				return true
			}
			return emit(nameCase{ix})
		})
	}, func(w *Worker, nc nameCase) *Fail {
		var regs []regObj
		var tys []*dynType
		for i, n := range nc.Names {
			ty := namedKeyType(names[n], i)
			tys = append(tys, ty)
			regs = append(regs, regObj{ty.obj(), &schema.Definition{PrimaryKey: ty.md.Fields().Get(0).JSONName()}})
		}
		s := newBareStore(regs...)
		defer s.close()
		api := newHTTP(client.NewORMClient(s.s, "mc"), regs, len(nc.Names) == 1)
		for i, ty := range tys {
			o := ty.obj().set(string(ty.md.Fields().Get(0).Name()), "Key").set("val", fmt.Sprint(i))
			must(s.create(o))
			for _, x := range []string{"Key", "key", "x"} {
				code, body := api.do("GET", objPath(o, x), "")
				if f := judgeHTTP("string", x, qObj{"Key": o}, ty.obj(), code, body); f != nil {
					f.Msg = fmt.Sprintf("key field %q: %s", names[nc.Names[i]], f.Msg)
					return f
				}
			}
		}
		c.Outcome(fmt.Sprint(nc))
		return nil
	})

	// a running application, served as the API server does
	type appCase struct{ Height int64 }
	Explore(c, "application", func(emit func(appCase) bool) { emit(appCase{0}); emit(appCase{3}) }, func(w *Worker, ac appCase) *Fail {
		var cl client.Client
		svc := &compService{name: "mcapi", start: func() error { return nil }, setc: func(x client.Client) { cl = x }}
		a := newApp(appCfg{Accounts: stdAccounts(), Extra: []module.Module{funcModule(func(module.Client) module.Descriptor {
			return module.NewDescriptorBuilder().Named("mcapi").WithExtensionService(svc).Build()
		})}})
		defer a.close()
		if cl == nil {
			return failf("no-client", "the extension service got no client")
		}
		if ac.Height > 0 {
			a.begin(ac.Height)
			wd := a.observe()
			a.deliver(mkSimple([]int{0}, putMsg("n1", "v", ""), sendMsg(key(0).addr, key(3).addr, cn{"test", "2"}))(wd).bytes())
		}
		regs, f := servedRegs(cl)
		if f != nil {
			return f
		}
		api := newHTTP(cl, regs, false)
		wd := a.observe()
		for addr := range wd.Bal {
			for _, kind := range []string{"/tmos.x.bank.v1alpha1/balance/"} {
				code, body := api.do("GET", kind+addr, "")
				if code != 200 || !strings.Contains(string(body), addr) {
					return failf("http-missing", "GET %s%s: %d %s", kind, addr, code, body)
				}
			}
			code, _ := api.do("GET", "/tmos.x.bank.v1alpha1/balance/"+addr+"x", "")
			if code != 404 {
				return failf("http-absent", "balance of an address that has none: status %d", code)
			}
		}
		n := 0
		for _, r := range regs {
			if !r.d.Singleton {
				continue
			}
			x := r.o.NewStateObject()
			err := a.rt.Get(meta.SingletonID, x)
			code, body := api.do("GET", singlePath(r.o), "")
			if err != nil {
				if code != 404 {
					return failf("http-absent", "%s: status %d", singlePath(r.o), code)
				}
				continue
			}
			n++
			if code != 200 {
				return failf("http-missing", "%s: status %d %s", singlePath(r.o), code, body)
			}
			if f := sameJSON(r.o.NewStateObject(), x, body, singlePath(r.o)); f != nil {
				return f
			}
		}
		c.Outcome(fmt.Sprint(ac, n, len(regs)))
		return nil
	})
}

func plainVal(v protoreflect.Value, fd protoreflect.FieldDescriptor) interface{} {
	if fd.Kind() == protoreflect.BytesKind {
		return append([]byte{}, v.Bytes()...)
	}
	return v.Interface()
}

// namedKeyType is a type whose key field has the given name.
func namedKeyType(name string, i int) *dynType {
	fd := mustFile(fileProto(fmt.Sprintf("mc/named_%s_%d.proto", name, i), fmt.Sprintf("mc.named%d.n_%s", i, name), nil,
		msgProto("Named", fieldSpec{Name: name, Type: tString}, fieldSpec{Name: "val", Type: tString})))
	return registerType(newDynType(fd.Messages().Get(0), dynObject))
}

// servedRegs are the objects the API server serves.
func servedRegs(cl client.Client) ([]regObj, *Fail) {
	desc, err := runtimev1.NewClientSet(cl).ModuleDescriptors().Get()
	if err != nil {
		return nil, failf("descriptors", "module descriptors: %v", err)
	}
	var regs []regObj
	for _, m := range desc.Modules {
		for _, so := range m.StateObjects {
			ty, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(so.ProtobufFullname))
			must(err)
			regs = append(regs, regObj{ty.New().Interface().(meta.StateObject), so.SchemaDefinition})
		}
	}
	return regs, nil
}

// badHeights are the texts of no height: they are refused whatever the heights the node has.
var badHeights = []string{"0", "x", "-1", "1.5", "18446744073709551616", "18446744073709551617", "0x1", "1 1",
	"1,2", "5, 7", "1;q=1", "+1", "1_0", "1e0", "00", "1x", "x1", ",1", "1,", "\"1\"", "~", "latest"}
