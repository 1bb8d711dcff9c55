package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/orm"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	register("C02", c02)
	storeKinds["idx-bare"] = func() objStore { return newBareStore(idxRegs()...) }
	storeKinds["idx-rt"] = func() objStore { return newRtStore(idxRegs()...) }
}

// idxRegs registers every type with indexes: the per-kind types are indexed by val and num.
func idxRegs() []regObj {
	t := stTypes()
	var r []regObj
	for _, k := range append(append([]string{}, kindNames...), "st") {
		r = append(r, regObj{t.byKind[k].obj(), &schema.Definition{PrimaryKey: "theId", SecondaryKeys: []string{"val", "num"}}})
	}
	return append(r, regObj{t.single.obj(), oneSchema()},
		regObj{t.idx.obj(), idxSchema()}, regObj{t.idxX.obj(), idxSchema()})
}

// idxVec is an assignment of the indexed fields, one per vector number, chosen so that
// values are equal, prefixes of each other, zero, or equal across fields.
func idxVec(o *DynObj, n int) *DynObj {
	switch n {
	case 0:
		o.set("s", "x").set("sx", "").set("camel_case", "x").set("by", []byte("x")).set("bo", true)
		o.set("i32", int32(1)).set("u32", uint32(1)).set("i64", int64(1)).set("u64", uint64(1))
	case 1:
		o.set("s", "xa").set("sx", "x").set("camel_case", "xa").set("by", []byte("xa")).set("bo", false)
		o.set("i32", int32(-1)).set("u32", uint32(128)).set("i64", int64(-1)).set("u64", uint64(128))
	case 2: // all zero
	case 3:
		o.set("s", "").set("sx", "xa").set("camel_case", "").set("by", []byte{}).set("bo", true)
		o.set("i32", int32(257)).set("u32", uint32(257)).set("i64", int64(257)).set("u64", uint64(257))
	}
	return o
}

type idxSlot struct {
	t  func() *dynType
	pk string
}

func idxSlots() []idxSlot {
	t := stTypes()
	return []idxSlot{
		{func() *dynType { return t.idx }, "a"},
		{func() *dynType { return t.idx }, "xa"},
		{func() *dynType { return t.idxX }, "a"},
		{func() *dynType { return t.idx }, "axa"},
	}
}

type idxOp struct {
	Slot int `json:"slot"`
	Op   int `json:"op"` // 0 delete, 1+2v create with vector v, 2+2v update with vector v
}

func (o idxOp) String() string {
	if o.Op == 0 {
		return fmt.Sprintf("delete(slot %d)", o.Slot)
	}
	return fmt.Sprintf("%s(slot %d, vector %d)", []string{"update", "create"}[o.Op&1], o.Slot, (o.Op-1)/2)
}

var idxQueryVals = map[string][]interface{}{
	"s": {"x", "xa", "", "xax"}, "sx": {"x", "xa", ""}, "camelCase": {"x", "xa", "", "a"},
	"by": {[]byte("x"), []byte("xa"), []byte{}}, "bo": {true, false},
	"i32": {int32(1), int32(-1), int32(0), int32(257)}, "u32": {uint32(1), uint32(128), uint32(0), uint32(257)},
	"i64": {int64(1), int64(-1), int64(0), int64(257)}, "u64": {uint64(1), uint64(128), uint64(0), uint64(257)},
}

// drain reads a list result; the bound keeps a broken iterator from running on.
func drain(s objStore, t *dynType, opt orm.ListOptions, limit int) ([]*DynObj, error, *Fail) {
	it, err := s.list(t.obj(), opt)
	if err != nil {
		return nil, err, nil
	}
	var out []*DynObj
	defer it.Close()
	for it.Valid() {
		o := t.obj()
		if len(out)%2 == 1 { // a target that already holds something
			o = content(o, 1)
		}
		if err := it.Get(o); err != nil {
			return nil, nil, failf("list-get", "iterator yields a key whose object cannot be read: %v", err)
		}
		out = append(out, o)
		if len(out) > limit {
			return nil, nil, failf("list-extra", "list yields more than %d objects", limit)
		}
		it.Next()
	}
	return out, nil, nil
}

type idxModel map[string]map[string]*DynObj // type -> encoded key -> object

// expectList lists the model objects of t whose field equals v, in key order.
func (m idxModel) expect(t *dynType, field string, v interface{}) []*DynObj {
	mm := m[string(t.md.FullName())]
	var ks []string
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fd := t.md.Fields().ByJSONName(field)
	want := protoreflect.ValueOf(v)
	var out []*DynObj
	for _, k := range ks {
		o := mm[k]
		if valEq(o.m.Get(fd), want, fd) {
			out = append(out, o)
		}
	}
	return out
}

func valEq(a, b protoreflect.Value, fd protoreflect.FieldDescriptor) bool {
	if fd.Kind() == protoreflect.BytesKind {
		return bytes.Equal(a.Bytes(), b.Bytes())
	}
	return a.Interface() == b.Interface()
}

// checkList compares both forms of one query with the model.
func checkList(s objStore, m idxModel, t *dynType, field string, v interface{}) *Fail {
	want := m.expect(t, field, v)
	opts := []orm.ListOptions{
		{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: field, Value: v}}},
		{MatchFieldString: []orm.ListMatchFieldString{{Field: field, Value: keyText(v)}}},
	}
	for i, opt := range opts {
		form := []string{"value", "text"}[i]
		got, err, f := drain(s, t, opt, len(want)+3)
		where := fmt.Sprintf("list %s by %s = %q (%s)", t.md.Name(), field, trunc(keyText(v), 60), form)
		if f != nil {
			f.Msg = where + ": " + f.Msg
			return f
		}
		if err != nil && len(want) > 0 {
			return failf("list-refused", "%s: %v, want %d objects", where, trunc(err.Error(), 300), len(want))
		}
		if len(got) != len(want) {
			return failf("list-set", "%s: %d objects %v, want %d %v", where, len(got), trunc(fmt.Sprint(got), 400), len(want), trunc(fmt.Sprint(want), 400))
		}
		for j := range got {
			if !proto.Equal(got[j], want[j]) {
				return failf("list-content", "%s: item %d is %v, want %v", where, j, trunc(got[j].String(), 400), trunc(want[j].String(), 400))
			}
		}
	}
	return nil
}

func checkLists(s objStore, m idxModel, types []*dynType) *Fail {
	for _, t := range types {
		for _, f := range idxKeys {
			for _, v := range idxQueryVals[f] {
				if x := checkList(s, m, t, f, v); x != nil {
					return x
				}
			}
		}
	}
	return nil
}

func (m idxModel) put(t *dynType, key string, o *DynObj) {
	n := string(t.md.FullName())
	if m[n] == nil {
		m[n] = map[string]*DynObj{}
	}
	if o == nil {
		delete(m[n], key)
		return
	}
	m[n][key] = proto.Clone(o).(*DynObj)
}

func (m idxModel) String() string {
	var b strings.Builder
	for _, t := range sortedKeys(m) {
		for _, k := range sortedKeys(m[t]) {
			fmt.Fprintf(&b, "%s %q=%v;", t, k, m[t][k])
		}
	}
	return b.String()
}

func c02(c *Ctx) {
	c.Rule = "operation histories over objects with one indexed field per supported kind; after every step every (indexed field, value) query in both forms is compared with a filter over a Go map; lists of up to 301 objects, 66 types and 66 indexed fields"
	c.Assumptions = []string{"queries select by one field (the property's scope); index keys stay below Badger's 65000 byte key limit"}
	slots := idxSlots()
	types := []*dynType{stTypes().idx, stTypes().idxX}

	step := func(s objStore, m idxModel, op idxOp) *Fail {
		sl := slots[op.Slot]
		t := sl.t()
		o := t.obj().set("id", sl.pk)
		name := string(t.md.FullName())
		_, present := m[name][sl.pk]
		switch {
		case op.Op == 0:
			// delete by key: the object handed over need not carry the current field values
			if err := s.del(idxVec(o, 3)); (err == nil) != present {
				return failf("delete-outcome", "%v: %v, present=%v", op, err, present)
			}
			m.put(t, sl.pk, nil)
		case op.Op&1 == 1:
			idxVec(o, (op.Op-1)/2).set("val", fmt.Sprint(op.Op))
			err := s.create(o)
			if (err == nil) == present {
				return failf("create-outcome", "%v: %v, present=%v", op, err, present)
			}
			if err == nil {
				m.put(t, sl.pk, o)
			}
		default:
			idxVec(o, (op.Op-1)/2).set("val", fmt.Sprint(op.Op))
			if err := s.update(o); (err == nil) != present {
				return failf("update-outcome", "%v: %v, present=%v", op, err, present)
			}
			if present {
				m.put(t, sl.pk, o)
			}
		}
		return nil
	}
	runHist := func(kind string) func(w *Worker, h []idxOp) *Fail {
		return func(w *Worker, h []idxOp) *Fail {
			s := pooled(w, kind)
			m := idxModel{}
			for i, op := range h {
				f := step(s, m, op)
				// shorter histories are explored on their own
				if f == nil && (len(h) <= 2 || i == len(h)-1) {
					f = checkLists(s, m, types)
				}
				if f != nil {
					f.Msg = fmt.Sprintf("step %d of %v: %s", i, h, f.Msg)
					return f
				}
				c.State(m.String())
			}
			addN(&c.Transitions, len(h))
			addN(&c.Traces, 1)
			c.Outcome(m.String())
			return nil
		}
	}
	gen := func(nslots, nvec, depth int) func(emit func([]idxOp) bool) {
		k := 1 + 2*nvec
		return func(emit func([]idxOp) bool) {
			wordsLen(k*nslots, depth, func(w []int) bool {
				h := make([]idxOp, len(w))
				for i, x := range w {
					h[i] = idxOp{x / k, x % k}
				}
				return emit(h)
			})
		}
	}
	if c.Thorough {
		Explore(c, "store-depth3-slots4-vec4", gen(4, 4, 3), runHist("idx-bare"))
		Explore(c, "store-depth4-slots2-vec3", gen(2, 3, 4), runHist("idx-bare"))
		Explore(c, "store-depth5-slots2-vec2", gen(2, 2, 5), runHist("idx-bare"))
		Explore(c, "runtime-depth3-slots2-vec3", gen(2, 3, 3), runHist("idx-rt"))
	} else {
		Explore(c, "store-depth2-slots4-vec4", gen(4, 4, 2), runHist("idx-bare"))
		Explore(c, "store-depth3-slots2-vec4", gen(2, 4, 3), runHist("idx-bare"))
		Explore(c, "store-depth4-slots2-vec2", gen(2, 2, 4), runHist("idx-bare"))
		Explore(c, "runtime-depth2-slots4-vec2", gen(4, 2, 2), runHist("idx-rt"))
	}

	// a system that is never reset
	type walkCase struct {
		Kind string  `json:"kind"`
		Seq  []idxOp `json:"seq"`
	}
	Explore(c, "walk", func(emit func(walkCase) bool) {
		mk := func(kind string, ns, nv, k int) walkCase {
			wc := walkCase{Kind: kind}
			per := 1 + 2*nv
			for _, x := range deBruijn(per*ns, k) {
				wc.Seq = append(wc.Seq, idxOp{x / per, x % per})
			}
			return wc
		}
		emit(mk("idx-bare", 4, 2, 2))
		emit(mk("idx-rt", 3, 3, 2))
		if c.Thorough {
			emit(mk("idx-bare", 3, 2, 3))
			emit(mk("idx-rt", 2, 3, 3))
		}
	}, func(w *Worker, wc walkCase) *Fail {
		s := storeKinds[wc.Kind]()
		defer s.close()
		m := idxModel{}
		for i, op := range wc.Seq {
			f := step(s, m, op)
			if f == nil {
				f = checkLists(s, m, types)
			}
			if f != nil {
				f.Msg = fmt.Sprintf("step %d (%v): %s", i, op, f.Msg)
				return f
			}
		}
		addN(&c.Transitions, len(wc.Seq))
		addN(&c.Traces, 1)
		return nil
	})

	// every edge value of every indexed field: one object per value, all in one store
	type valCase struct {
		Field string `json:"field"`
		Group int    `json:"group"` // objects per value
	}
	fieldKind := map[string]string{"s": "string", "sx": "string", "camelCase": "string", "by": "bytes", "bo": "bool", "i32": "int32", "u32": "uint32", "i64": "int64", "u64": "uint64"}
	Explore(c, "values", func(emit func(valCase) bool) {
		for _, f := range []string{"s", "camelCase", "by", "bo", "i32", "u32", "i64", "u64"} {
			emit(valCase{f, 1})
			emit(valCase{f, 3})
		}
	}, func(w *Worker, vc valCase) *Fail {
		s := newBareStore(idxRegs()...)
		defer s.close()
		var vals []interface{}
		switch k := fieldKind[vc.Field]; k {
		case "string":
			vals = append(vals, "")
			for _, x := range edgeStrings(c.Thorough) {
				if vc.Group == 1 || len(x) < 3 || len(x) > 120 && len(x) < 140 {
					vals = append(vals, x)
				}
			}
		case "bytes":
			vals = append(vals, []byte{})
			for _, x := range edgeBytes(c.Thorough) {
				if vc.Group == 1 || len(x) < 2 || len(x) > 120 && len(x) < 140 {
					vals = append(vals, x)
				}
			}
		case "bool":
			vals = []interface{}{true, false}
		default:
			for _, x := range edgeInts(k) {
				vals = append(vals, parseKey(k, x))
			}
		}
		t := stTypes().idx
		fd := t.md.Fields().ByJSONName(vc.Field)
		m := idxModel{}
		pkOf := func(i, g int) string { return fmt.Sprintf("%d-%06d", g, i) }
		mk := func(i, g int) *DynObj {
			return t.obj().set("id", pkOf(i, g)).set(string(fd.Name()), vals[i]).set("val", fmt.Sprint(i, g))
		}
		model1 := idxModel{}
		for i := range vals {
			for g := 0; g < vc.Group; g++ {
				o := mk(i, g)
				if err := s.create(o); err != nil {
					return failf("create-outcome", "create with %s=%q refused: %v", vc.Field, trunc(keyText(vals[i]), 60), trunc(err.Error(), 200))
				}
			}
		}
		_ = m
		sweep := func(stage string, live func(i, g int) bool, obj func(i, g int) *DynObj) *Fail {
			for i := range vals {
				if stage == "deleted" && len(vals) > 300 && !c.Thorough && i%16 != 0 {
					continue // scanning over tombstones is quadratic
				}
				model1 = idxModel{}
				for g := 0; g < vc.Group; g++ {
					if live(i, g) {
						model1.put(t, pkOf(i, g), obj(i, g))
					}
				}
				if f := checkList(s, model1, t, vc.Field, vals[i]); f != nil {
					f.Msg = stage + ": " + f.Msg
					return f
				}
			}
			return nil
		}
		if f := sweep("created", func(i, g int) bool { return true }, mk); f != nil {
			return f
		}
		// rewrite with another content but the same values, then delete the first of each group
		mk2 := func(i, g int) *DynObj { return mk(i, g).set("val", "second") }
		for i := range vals {
			for g := 0; g < vc.Group; g++ {
				if err := s.update(mk2(i, g)); err != nil {
					return failf("update-outcome", "update with %s=%q refused: %v", vc.Field, trunc(keyText(vals[i]), 60), trunc(err.Error(), 200))
				}
			}
		}
		if f := sweep("updated", func(i, g int) bool { return true }, mk2); f != nil {
			return f
		}
		for i := range vals {
			if err := s.del(mk(i, 0)); err != nil {
				return failf("delete-outcome", "delete of %s=%q refused: %v", vc.Field, trunc(keyText(vals[i]), 60), trunc(err.Error(), 200))
			}
		}
		if f := sweep("deleted", func(i, g int) bool { return g > 0 }, mk2); f != nil {
			return f
		}
		addN(&c.Transitions, 3*len(vals)*vc.Group)
		addN(&c.Traces, 1)
		return nil
	})

	// lists order by primary key, for every kind of primary key
	type pkCase struct{ Kind string }
	Explore(c, "primary-keys", func(emit func(pkCase) bool) {
		for _, k := range append(append([]string{}, kindNames...), "st") {
			emit(pkCase{k})
		}
	}, func(w *Worker, pc pkCase) *Fail {
		s := newBareStore(idxRegs()...)
		defer s.close()
		kind := pc.Kind
		t := stTypes().byKind[kind]
		if kind == "st" {
			kind = "string"
		}
		kc := keyCase{Kind: kind}
		switch kind {
		case "bool":
			kc.Strs = []string{"false", "true"}
		case "string":
			kc.Strs = edgeStrings(c.Thorough)
		case "bytes":
			kc.Raw = edgeBytes(c.Thorough)
		default:
			kc.Strs = edgeInts(kind)
		}
		m := idxModel{}
		sch, err := s.s.SchemaRegistry().Get(t.obj())
		must(err)
		n := 0
		put := func(v interface{}) *Fail {
			n++
			o := t.obj().set("the_id", v).set("val", "all").set("num", uint64(n%3))
			if err := s.create(o); err != nil {
				return failf("create-outcome", "create %q refused: %v", trunc(keyText(v), 60), trunc(err.Error(), 200))
			}
			m.put(t, string(sch.EncodePrimaryKey(o)), o)
			return nil
		}
		for _, x := range kc.Strs {
			var v interface{} = x
			if kind != "string" {
				v = parseKey(kind, x)
			}
			if f := put(v); f != nil {
				return f
			}
		}
		for _, x := range kc.Raw {
			if f := put(x); f != nil {
				return f
			}
		}
		for _, q := range []struct {
			f string
			v interface{}
		}{{"val", "all"}, {"val", "al"}, {"num", uint64(0)}, {"num", uint64(1)}, {"num", uint64(2)}, {"num", uint64(3)}} {
			if f := checkList(s, m, t, q.f, q.v); f != nil {
				return f
			}
		}
		addN(&c.Transitions, n)
		addN(&c.Traces, 1)
		return nil
	})

	// queries that must be refused
	type badCase struct {
		RT    bool   `json:"runtime"`
		Text  bool   `json:"text"`
		Field string `json:"field"`
		Val   int    `json:"val"`
	}
	goVals := []interface{}{"x", []byte("x"), true, int32(1), uint32(1), int64(1), uint64(1), int(1), float64(1), nil, "", []byte(nil), int32(0), struct{}{}}
	texts := []string{"x", "", "1.5", "-1", "99999999999999999999", "4294967296", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "true1", "*", "a", " 1", "1 ", "0x1"}
	okText := map[string]map[string]bool{
		"by": {"": true}, "i32": {"-1": true}, "u32": {}, "i64": {"-1": true, "4294967296": true, "2147483648": true, "-2147483649": true},
		"u64": {"4294967296": true, "2147483648": true, "9223372036854775808": true}, "bo": {},
	}
	Explore(c, "refused", func(emit func(badCase) bool) {
		for _, rt := range []bool{false, true} {
			for _, f := range append([]string{"val", "id", "camel_case", "", "S", "nope", "mc.store.Idx.s"}, idxKeys...) {
				for i := range goVals {
					emit(badCase{rt, false, f, i})
				}
				for i := range texts {
					emit(badCase{rt, true, f, i})
				}
			}
		}
	}, func(w *Worker, bc badCase) *Fail {
		kind := "idx-bare"
		if bc.RT {
			kind = "idx-rt"
		}
		s, _ := w.S["bad:"+kind].(objStore)
		if s == nil {
			s = storeKinds[kind]()
			w.OnClose(s.close)
			w.S["bad:"+kind] = s
			for i, sl := range slots {
				must(s.create(idxVec(sl.t().obj().set("id", sl.pk), i)))
			}
		}
		t := stTypes().idx
		indexed := false
		for _, k := range idxKeys {
			indexed = indexed || k == bc.Field
		}
		var opt orm.ListOptions
		bad := !indexed
		desc := ""
		if bc.Text {
			v := texts[bc.Val]
			desc = v
			opt.MatchFieldString = []orm.ListMatchFieldString{{Field: bc.Field, Value: v}}
			if indexed {
				switch bc.Field {
				case "s", "sx", "camelCase":
				case "by":
					bad = v == "*" || v == "a" || v == "1.5" || v == "x" || v == " 1" || v == "1 "
				default:
					bad = !okText[bc.Field][v]
				}
			}
		} else {
			v := goVals[bc.Val]
			desc = fmt.Sprintf("%T", v)
			opt.MatchFieldInterface = []orm.ListMatchFieldInterface{{Field: bc.Field, Value: v}}
			if indexed {
				want := map[string]string{"s": "string", "sx": "string", "camelCase": "string", "by": "[]uint8", "bo": "bool", "i32": "int32", "u32": "uint32", "i64": "int64", "u64": "uint64"}[bc.Field]
				bad = desc != want
			}
		}
		if !bad {
			return nil
		}
		got, err, f := drain(s, t, opt, 10)
		if f != nil {
			return f
		}
		if err == nil {
			return failf("bad-query", "list by %q = %q was accepted and yields %v", bc.Field, desc, got)
		}
		addN(&c.Transitions, 1)
		return nil
	})
	_ = meta.SingletonID
	manyUnderOne(c)
	manyTypesListed(c)
	manyFields(c)
}
