package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

// More long lists: many state object types, objects under one value, indexed fields.

var (
	manyTypesOnce sync.Once
	manyTypesAll  []*dynType
)

const manyTypesMax = 66

// manyTypes are state objects T0, T1, … T65 (names that are prefixes of each other),
// the last of them with a long name.
func manyTypes() []*dynType {
	manyTypesOnce.Do(func() {
		var msgs []*descriptorpb.DescriptorProto
		sf := []fieldSpec{{Name: "the_id", Type: tString}, {Name: "val", Type: tString}, {Name: "tags", Type: tString, Repeated: true}, {Name: "num", Type: tUint64}}
		name := func(i int) string {
			switch i {
			case manyTypesMax - 2:
				return "T" + strings.Repeat("t", 126)
			case manyTypesMax - 1:
				return "T" + strings.Repeat("t", 299)
			}
			return fmt.Sprintf("T%d", i)
		}
		for i := 0; i < manyTypesMax; i++ {
			msgs = append(msgs, msgProto(name(i), sf...))
		}
		fd := mustFile(fileProto("mc/manytypes.proto", "mc.many", nil, msgs...))
		for i := 0; i < manyTypesMax; i++ {
			manyTypesAll = append(manyTypesAll, registerType(newDynType(fd.Messages().ByName(protoreflect.Name(name(i))), dynObject)))
		}
	})
	return manyTypesAll
}

// typesCase registers N types, the odd ones singletons when Kind is 1.
type typesCase struct {
	N    int  `json:"n"`
	Kind int  `json:"kind"`
	RT   bool `json:"runtime"`
}

func typesGen(c *Ctx, emit func(typesCase) bool) {
	for _, n := range sizesTo(manyTypesMax) {
		for k := 0; k < 2; k++ {
			for _, rt := range []bool{false, true} {
				if !c.Thorough && rt && n > 4 && n%4 > 1 {
					continue
				}
				if !emit(typesCase{n, k, rt}) {
					return
				}
			}
		}
	}
}

// open makes the store; indexed types are indexed by val and num.
func (tc typesCase) open(indexed bool) objStore {
	var regs []regObj
	for i, t := range manyTypes()[manyTypesMax-tc.N:] {
		d := &schema.Definition{PrimaryKey: "theId"}
		if indexed {
			d.SecondaryKeys = []string{"val", "num"}
		} else if tc.Kind == 1 && i%2 == 1 {
			d = oneSchema()
		}
		regs = append(regs, regObj{t.obj(), d})
	}
	if tc.RT {
		return newRtStore(regs...)
	}
	return newBareStore(regs...)
}

// manyTypesStore: one object per type, under the same key, each altered and deleted in
// turn while every other is compared.
func manyTypesStore(c *Ctx) {
	Explore(c, "many types", func(emit func(typesCase) bool) { typesGen(c, emit) }, func(w *Worker, tc typesCase) *Fail {
		s := tc.open(false)
		defer s.close()
		var slots []slot
		for i, t := range manyTypes()[manyTypesMax-tc.N:] {
			if tc.Kind == 1 && i%2 == 1 {
				slots = append(slots, singleSlot(t))
			} else {
				slots = append(slots, strSlot(t, "the_id", "k"))
			}
		}
		model := map[int]proto.Message{}
		n := 0
		step := func(verb, i int, all bool) *Fail {
			n++
			f := applyMap(s, slots, model, mapStep{verb, i}, n, false)
			if f == nil && all {
				f = checkAll(s, slots, model)
			}
			if f != nil {
				f.Msg = fmt.Sprintf("%s %d of %d types: %s", verbNames[verb], i, tc.N, f.Msg)
			}
			return f
		}
		for i := range slots {
			if f := step(0, i, false); f != nil {
				return f
			}
		}
		if f := checkAll(s, slots, model); f != nil {
			return f
		}
		for _, i := range placesIn(tc.N) {
			for _, v := range []int{0, 1, 2, 2, 1, 0} {
				if f := step(v, i, true); f != nil {
					return f
				}
			}
		}
		addN(&c.Transitions, n)
		addN(&c.Traces, 1)
		return nil
	})
}

func singleSlot(t *dynType) slot {
	sl := strSlot(t, "the_id", "")
	one := historySlots()[3]
	return slot{name: sl.name, mk: func() *DynObj { return t.obj() }, id: one.id}
}

// objsCase is a population of one type grown to Max objects.
type objsCase struct {
	Kind string `json:"kind"` // of primary key
	RT   bool   `json:"runtime"`
	Max  int    `json:"max"`
}

// manyObjects: as the population grows, objects at every place are read, altered, deleted
// and put back.
func manyObjects(c *Ctx) {
	Explore(c, "many objects", func(emit func(objsCase) bool) {
		max := most(c, 5001, 20001)
		for _, k := range []string{"string", "uint64", "bytes", "int32"} {
			emit(objsCase{k, false, max})
		}
		emit(objsCase{"string", true, max})
	}, func(w *Worker, oc objsCase) *Fail {
		s := storeKinds["bare"]()
		if oc.RT {
			s.close()
			s = storeKinds["rt"]()
		}
		defer s.close()
		slots := map[int]slot{}
		at := func(i int) slot {
			if _, ok := slots[i]; !ok {
				slots[i] = keySlot(oc.Kind, nthKey(oc.Kind, i))
			}
			return slots[i]
		}
		sizes := map[int]bool{}
		for _, n := range sizesTo(oc.Max) {
			sizes[n] = true
		}
		want := map[int]proto.Message{}
		put := func(i, k int, f func(*DynObj) error) error {
			o := content(at(i).mk(), k)
			err := f(o)
			if err == nil {
				want[i] = proto.Clone(o)
			}
			return err
		}
		create := func(o *DynObj) error { return s.create(o) }
		update := func(o *DynObj) error { return s.update(o) }
		for n := 1; n <= oc.Max; n++ {
			if err := put(n-1, n, create); err != nil {
				return failf("create-outcome", "create object %d: %v", n, err)
			}
			if !sizes[n] {
				continue
			}
			check := func(stage string, i int) *Fail {
				for _, j := range append(placesIn(n), i-1, i+1, n) {
					if j < 0 {
						continue
					}
					if f := getMatches(s, at(j), want[j]); f != nil {
						f.Msg = fmt.Sprintf("%d objects, %s %d: %s", n, stage, i, f.Msg)
						return f
					}
				}
				return nil
			}
			for _, i := range placesIn(n) {
				if f := check("before", i); f != nil {
					return f
				}
				if err := put(i, n+1, create); err == nil {
					return failf("create-outcome", "%d objects: second create of %s succeeded", n, at(i).name)
				}
				if err := put(i, n+2, update); err != nil {
					return failf("update-outcome", "%d objects: update %s: %v", n, at(i).name, err)
				}
				if f := check("update", i); f != nil {
					return f
				}
				if err := s.del(at(i).mk()); err != nil {
					return failf("delete-outcome", "%d objects: delete %s: %v", n, at(i).name, err)
				}
				delete(want, i)
				if err := s.update(at(i).mk()); err == nil {
					return failf("update-outcome", "%d objects: update of deleted %s succeeded", n, at(i).name)
				}
				if f := check("delete", i); f != nil {
					return f
				}
				if err := put(i, n, create); err != nil {
					return failf("create-outcome", "%d objects: create %s again: %v", n, at(i).name, err)
				}
				addN(&c.Transitions, 5)
			}
		}
		for i := 0; i < oc.Max; i++ {
			if f := getMatches(s, at(i), want[i]); f != nil {
				return f
			}
		}
		for i := 0; i < oc.Max; i++ { // take all away, in another order
			j := (i*7 + 3) % oc.Max
			err := s.del(at(j).mk())
			if (err == nil) != (want[j] != nil) {
				return failf("delete-outcome", "delete %s: %v", at(j).name, err)
			}
			delete(want, j)
			for _, k := range []int{j, j + 1, j - 1} {
				if k < 0 {
					continue
				}
				if f := getMatches(s, at(k), want[k]); f != nil {
					return f
				}
			}
		}
		addN(&c.Transitions, 2*oc.Max)
		addN(&c.Traces, 1)
		return nil
	})
}

func nthKey(kind string, i int) interface{} {
	switch kind {
	case "uint64":
		return uint64(i)
	case "int32":
		return int32((i + 1) / 2 * (1 - 2*(i%2)))
	case "bytes":
		return []byte{byte(i >> 8), byte(i), 1}
	}
	return fmt.Sprint("k", i)
}

// manyUnderOne: lists of every size, with an object at every place changed to another
// value, deleted and put back.
func manyUnderOne(c *Ctx) {
	type listCase struct {
		Field string `json:"field"`
		RT    bool   `json:"runtime"`
		Max   int    `json:"max"`
	}
	Explore(c, "many under one value", func(emit func(listCase) bool) {
		max := most(c, 301, 1050)
		for i, f := range []string{"s", "by", "bo", "i32", "u64"} {
			emit(listCase{f, i%2 == 1, max})
		}
	}, func(w *Worker, lc listCase) *Fail {
		kind := "idx-bare"
		if lc.RT {
			kind = "idx-rt"
		}
		s := storeKinds[kind]()
		defer s.close()
		t := stTypes().idx
		fd := t.md.Fields().ByJSONName(lc.Field)
		vals := map[string][]interface{}{"s": {"x", "xa"}, "by": {[]byte{}, []byte{0}}, "bo": {true, false}, "i32": {int32(-1), int32(1)}, "u64": {uint64(256), uint64(1)}}[lc.Field]
		m := idxModel{}
		mk := func(i, v, n int) *DynObj {
			o := t.obj().set("id", fmt.Sprintf("%03d-%d", (i*7)%1000, i)).set(string(fd.Name()), vals[v]).set("val", fmt.Sprint(n))
			return o
		}
		id := func(o *DynObj) string { return o.m.Get(t.md.Fields().ByName("id")).String() }
		sizes := map[int]bool{}
		for _, n := range sizesTo(lc.Max) {
			sizes[n] = true
		}
		both := func(n int, stage string) *Fail {
			for _, v := range vals {
				if f := checkList(s, m, t, lc.Field, v); f != nil {
					f.Msg = fmt.Sprintf("%d objects, %s: %s", n, stage, f.Msg)
					return f
				}
			}
			return nil
		}
		for n := 1; n <= lc.Max; n++ {
			o := mk(n-1, 0, n)
			if err := s.create(o); err != nil {
				return failf("create-outcome", "create object %d: %v", n, err)
			}
			m.put(t, id(o), o)
			if !sizes[n] {
				continue
			}
			if f := both(n, "grown"); f != nil {
				return f
			}
			pl := placesIn(n)
			for k, i := range pl {
				if n > 20 && !c.Thorough && k%3 != n%3 {
					continue
				}
				for st, f := range []func() (*DynObj, error){
					func() (*DynObj, error) { o := mk(i, 1, n); return o, s.update(o) },
					func() (*DynObj, error) { o := mk(i, 0, n+1); return o, s.update(o) },
					func() (*DynObj, error) { return nil, s.del(mk(i, 0, 0)) },
					func() (*DynObj, error) { o := mk(i, 0, n+2); return o, s.create(o) },
				} {
					o, err := f()
					if err != nil {
						return failf("write-outcome", "%d objects, place %d step %d: %v", n, i, st, err)
					}
					m.put(t, id(mk(i, 0, 0)), o)
					if f := both(n, fmt.Sprintf("place %d step %d", i, st)); f != nil {
						return f
					}
				}
				addN(&c.Transitions, 4)
			}
		}
		// all to the other value, one by one in another order
		for i := 0; i < lc.Max; i++ {
			j := (i*11 + 5) % lc.Max
			o := mk(j, 1, 0)
			if err := s.update(o); err != nil {
				return failf("update-outcome", "%v", err)
			}
			m.put(t, id(o), o)
			if sizes[i+1] {
				if f := both(lc.Max, "moved over"); f != nil {
					return f
				}
			}
		}
		addN(&c.Traces, 1)
		return nil
	})
}

// manyTypesListed: one object per type, all with the same values; a query yields its own type's.
func manyTypesListed(c *Ctx) {
	Explore(c, "many types", func(emit func(typesCase) bool) {
		typesGen(c, func(tc typesCase) bool { return tc.Kind == 1 || emit(tc) })
	}, func(w *Worker, tc typesCase) *Fail {
		s := tc.open(true)
		defer s.close()
		m := idxModel{}
		ts := manyTypes()[manyTypesMax-tc.N:]
		mk := func(i, v int) *DynObj {
			return ts[i].obj().set("the_id", "k").set("val", []string{"v", "w"}[v]).set("num", uint64(v+1)).set("tags", strList(ts[i], i))
		}
		look := func() *Fail {
			for _, i := range placesIn(tc.N) {
				for _, q := range []struct {
					f string
					v interface{}
				}{{"val", "v"}, {"val", "w"}, {"num", uint64(1)}, {"num", uint64(2)}} {
					if f := checkList(s, m, ts[i], q.f, q.v); f != nil {
						return f
					}
				}
			}
			return nil
		}
		for i := range ts {
			o := mk(i, 0)
			if err := s.create(o); err != nil {
				return failf("create-outcome", "create %v: %v", o, err)
			}
			m.put(ts[i], "k", o)
		}
		if f := look(); f != nil {
			return f
		}
		for _, i := range placesIn(tc.N) {
			o := mk(i, 1)
			if err := s.update(o); err != nil {
				return failf("update-outcome", "update %v: %v", o, err)
			}
			m.put(ts[i], "k", o)
			if f := look(); f != nil {
				return f
			}
			if err := s.del(o); err != nil {
				return failf("delete-outcome", "delete %v: %v", o, err)
			}
			m.put(ts[i], "k", nil)
			if f := look(); f != nil {
				return f
			}
		}
		addN(&c.Transitions, tc.N+2*len(placesIn(tc.N)))
		addN(&c.Traces, 1)
		return nil
	})
}

func strList(t *dynType, n int) protoreflect.List {
	fd := t.md.Fields().ByName("tags")
	l := t.obj().m.NewField(fd).List()
	l.Append(protoStr(fmt.Sprint(n)))
	return l
}

const manyFieldsMax = 66

var (
	manyFieldsOnce sync.Once
	manyFieldTypes []*dynType // by number of fields
)

// manyFieldType has n fields f0, f1, … to index, of every kind in turn.
func manyFieldType(n int) *dynType {
	manyFieldsOnce.Do(func() {
		var msgs []*descriptorpb.DescriptorProto
		for _, k := range sizesTo(manyFieldsMax) {
			fs := []fieldSpec{{Name: "id", Type: tString}, {Name: "val", Type: tString}, {Name: "tags", Type: tString, Repeated: true}, {Name: "num", Type: tUint64}}
			for i := 0; i < k; i++ {
				fs = append(fs, fieldSpec{Name: fmt.Sprintf("f%d", i), Type: kindTypes[kindNames[i%len(kindNames)]]})
			}
			msgs = append(msgs, msgProto(fmt.Sprintf("F%d", k), fs...))
		}
		fd := mustFile(fileProto("mc/manyfields.proto", "mc.manyfields", nil, msgs...))
		manyFieldTypes = make([]*dynType, manyFieldsMax+1)
		for _, k := range sizesTo(manyFieldsMax) {
			manyFieldTypes[k] = registerType(newDynType(fd.Messages().ByName(protoreflect.Name(fmt.Sprintf("F%d", k))), dynObject))
		}
	})
	return manyFieldTypes[n]
}

// manyFields: objects that differ in one indexed field among many.
func manyFields(c *Ctx) {
	type fieldsCase struct {
		N    int  `json:"n"`
		Desc bool `json:"desc"` // indexes declared in descending order
		RT   bool `json:"runtime"`
	}
	vals := map[string][]interface{}{"bool": {true, false}, "int32": {int32(-5), int32(5)}, "uint32": {uint32(5), uint32(300)}, "int64": {int64(-5), int64(5)}, "uint64": {uint64(5), uint64(300)}, "string": {"p", "pq"}, "bytes": {[]byte("p"), []byte("pq")}}
	Explore(c, "many indexed fields", func(emit func(fieldsCase) bool) {
		for _, n := range sizesTo(manyFieldsMax) {
			emit(fieldsCase{n, false, n%4 == 1})
			emit(fieldsCase{n, true, n%4 == 3})
		}
	}, func(w *Worker, fc fieldsCase) *Fail {
		t := manyFieldType(fc.N)
		d := &schema.Definition{PrimaryKey: "id"}
		for i := 0; i < fc.N; i++ {
			d.SecondaryKeys = append(d.SecondaryKeys, fmt.Sprintf("f%d", i))
		}
		if fc.Desc {
			sort.Sort(sort.Reverse(sort.StringSlice(d.SecondaryKeys)))
		}
		var s objStore
		if fc.RT {
			s = newRtStore(regObj{t.obj(), d})
		} else {
			s = newBareStore(regObj{t.obj(), d})
		}
		defer s.close()
		// object i has the second value in field i alone; object n has it nowhere
		mk := func(i, odd int) *DynObj {
			o := t.obj().set("id", fmt.Sprintf("o%03d", i))
			for j := 0; j < fc.N; j++ {
				v := 0
				if j == odd {
					v = 1
				}
				o.set(fmt.Sprintf("f%d", j), vals[kindNames[j%len(kindNames)]][v])
			}
			return o
		}
		m := idxModel{}
		put := func(i, odd int) { m.put(t, fmt.Sprintf("o%03d", i), mk(i, odd)) }
		look := func(fields []int) *Fail {
			for _, j := range fields {
				for _, v := range vals[kindNames[j%len(kindNames)]] {
					if f := checkList(s, m, t, fmt.Sprintf("f%d", j), v); f != nil {
						return f
					}
				}
			}
			return nil
		}
		for i := 0; i <= fc.N; i++ {
			if err := s.create(mk(i, i)); err != nil {
				return failf("create-outcome", "object of %d indexed fields: %v", fc.N, err)
			}
			put(i, i)
		}
		if f := look(upTo(fc.N)); f != nil {
			return f
		}
		for _, i := range placesIn(fc.N) { // the odd value moves to the next field
			if err := s.update(mk(i, (i+1)%fc.N)); err != nil {
				return failf("update-outcome", "object of %d indexed fields: %v", fc.N, err)
			}
			put(i, (i+1)%fc.N)
			if f := look([]int{i, (i + 1) % fc.N, 0, fc.N - 1}); f != nil {
				return f
			}
		}
		for _, i := range placesIn(fc.N) {
			if err := s.del(mk(i, i)); err != nil {
				return failf("delete-outcome", "object of %d indexed fields: %v", fc.N, err)
			}
			m.put(t, fmt.Sprintf("o%03d", i), nil)
		}
		if f := look(upTo(fc.N)); f != nil {
			return f
		}
		addN(&c.Transitions, fc.N+1+2*len(placesIn(fc.N)))
		addN(&c.Traces, 1)
		return nil
	})
}

// wideCase is a message of n fields, all of them indexed or none, with something odd at a place.
type wideCase struct {
	N, At int
	Odd   string `json:"odd"`
	Def   int    `json:"def"` // 0 singleton, 1 a primary key, 2 every field a secondary key
}

var wideOdds = []string{"none", "map", "map of messages", "message with a map", "message", "float", "fixed64", "repeated", "enum", "key twice", "key missing"}

func (wc wideCase) build() (shape, *schema.Definition) {
	const pkg = "mc.wide"
	ref := func(n string) string { return "." + pkg + "." + n }
	d := &schema.Definition{PrimaryKey: "id"}
	if wc.Def == 0 {
		d = &schema.Definition{Singleton: true}
	}
	m := msgProto("Wide", fieldSpec{Name: "id", Type: tString}, fieldSpec{Name: "g", Type: tMsg, TypeName: ref("Leaf")})
	for i := 0; i < wc.N; i++ {
		n := fmt.Sprintf("f%d", i)
		fs := fieldSpec{Name: n, Type: kindTypes[kindNames[i%len(kindNames)]]}
		k := n
		if i == wc.At {
			switch wc.Odd {
			case "map":
				mapField(m, pkg, n, tString, "")
			case "map of messages":
				mapField(m, pkg, n, tMsg, ref("Leaf"))
			case "message with a map":
				fs.Type, fs.TypeName = tMsg, ref("M")
			case "message":
				fs.Type, fs.TypeName = tMsg, ref("Leaf")
			case "float":
				fs.Type = descriptorpb.FieldDescriptorProto_TYPE_FLOAT
			case "fixed64":
				fs.Type = descriptorpb.FieldDescriptorProto_TYPE_FIXED64
			case "repeated":
				fs.Repeated = true
			case "enum":
				fs.Type, fs.TypeName = tEnum, ref("E")
			case "key twice":
				k = fmt.Sprintf("f%d", (i+1)%wc.N)
			case "key missing":
				k = n + "x"
			}
		}
		if wc.Def == 2 {
			d.SecondaryKeys = append(d.SecondaryKeys, k)
		}
		if i == wc.At && strings.HasPrefix(wc.Odd, "map") {
			continue
		}
		x := msgProto("x", fs).Field[0]
		x.Number = proto.Int32(int32(len(m.Field) + 1))
		m.Field = append(m.Field, x)
	}
	mm := msgProto("M", fieldSpec{Name: "id", Type: tString})
	mapField(mm, pkg, "m", tUint64, "")
	fdp := fileProto("mc/wide.proto", pkg, nil, m, mm, msgProto("Leaf", fieldSpec{Name: "id", Type: tString}))
	fdp.EnumType = []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E"), Value: []*descriptorpb.EnumValueDescriptorProto{
		{Name: proto.String("E0"), Number: proto.Int32(0)}, {Name: proto.String("E1"), Number: proto.Int32(1)}}}}
	md := localFile(fdp).Messages().ByName("Wide")
	return shape{md, wc.At >= 0 && strings.Contains(wc.Odd, "map")}, d
}

// wideMessages registers messages with many fields and definitions with many keys.
func wideMessages(c *Ctx) {
	Explore(c, "wide", func(emit func(wideCase) bool) {
		for _, n := range sizesTo(most(c, 201, 501)) {
			for _, at := range append([]int{-1}, placesIn(n)...) {
				for o, odd := range wideOdds {
					for d := 0; d < 3; d++ {
						if (at < 0) != (o == 0) || odd == "key twice" && n == 1 {
							continue
						}
						if !c.Thorough && n > 8 && o > 0 && (o+n+at+d)%4 != 0 {
							continue
						}
						if !emit(wideCase{n, at, odd, d}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, wc wideCase) *Fail {
		sh, d := wc.build()
		s := orm.NewStore(objects.NewStore(newMemKV()), indexes.NewStore(newMemKV()))
		t := newDynType(sh.md, dynObject)
		want, why := acceptable(sh, d)
		err := s.RegisterObject(t.obj(), d)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint("wide ", wc.Odd, wc.Def, err == nil))
		switch {
		case err == nil && !want:
			key := "accepted-bad"
			if wc.Odd == "repeated" && wc.Def == 2 && strings.HasPrefix(why, "key field") {
				key = "accepted-repeated-secondary-key"
			}
			return failf(key, "%+v: accepted although %s", wc, why)
		case err != nil && want:
			return failf("refused-good", "%+v: refused: %v", wc, err)
		case err != nil:
			return nil
		}
		return exercise(s, t, d)
	})
}

// manyModules composes many modules with a conflict, or a lack, at a place.
func manyModules(c *Ctx) {
	type modsCase struct {
		N, At, Other, Kind int
	}
	kinds := [][2][]string{
		{{"handles:T1"}, {"needs:T1"}},
		{{"handles:T1", "owns:O1"}, {"handles:T1"}},
		{{"owns:O1", "handles:T2"}, {"owns:O1", "handles:T1"}},
		{{"needs:T1"}, {"owns:O1"}},
		{{"pre:T1"}, {"handles:T1"}},
		{{"post:T1", "pre:sys"}, {"handles:T1"}},
		{{"post:T2"}, {"handles:T1"}},
		{{"authorizer"}, {"handles:T1"}},
		{{"authorizer"}, {"authorizer"}},
		{{"noname"}, {"owns:O1"}},
		{{"badobject:nofield"}, {"handles:T1"}},
		{{"failgenesis"}, {"service"}},
		{{"failservice"}, {"service"}},
		{{"service"}, {"failgenesis"}},
		{{"handles:T1x", "handles:T1other"}, {"handles:T1", "needs:T1other", "needs:T1x"}},
		{{"owns:sys"}, {"needs:sys"}},
		{{"handles:sys"}, {"needs:sys"}},
	}
	Explore(c, "many modules", func(emit func(modsCase) bool) {
		for _, n := range sizesTo(most(c, 66, 129)) {
			if n < 4 || !c.Thorough && (n > 6 && n < 20 && n%4 > 1 || n > 20 && n%2 == 1) {
				continue
			}
			pl := placesIn(n)
			for i, a := range pl {
				for j, b := range pl {
					if a == b || !c.Thorough && n > 6 && (i != 0 && j != 0 && i != len(pl)-1 && j != len(pl)-1 || (i+j+n)%3 != 0) {
						continue
					}
					for k := range kinds {
						if !c.Thorough && n > 6 && (k+i+j+n/3)%4 != 0 {
							continue
						}
						if !emit(modsCase{n, a, b, k}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, mc modsCase) *Fail {
		cs := compCase{Mods: make([][]string, mc.N)}
		cs.Mods[mc.At], cs.Mods[mc.Other] = kinds[mc.Kind][0], kinds[mc.Kind][1]
		if f := runComp(w, cs); f != nil {
			f.Msg = fmt.Sprintf("%d modules, %v at %d and %v at %d: %s", mc.N, cs.Mods[mc.At], mc.At, cs.Mods[mc.Other], mc.Other, trunc(f.Msg, 1500))
			return f
		}
		return nil
	})
}

// manyDocumented: documents of many objects, of objects of many fields, references and parts.
func manyDocumented(c *Ctx) {
	type docCase struct {
		What   string `json:"what"`
		N      int    `json:"n"`
		Module bool   `json:"module"`
	}
	var all []regObj
	for i, t := range manyTypes() {
		d := &schema.Definition{PrimaryKey: "theId", SecondaryKeys: []string{"val"}}
		if i%4 == 3 {
			d = oneSchema()
		}
		all = append(all, regObj{t.obj(), d})
	}
	Explore(c, "many", func(emit func(docCase) bool) {
		for _, n := range sizesTo(manyTypesMax) {
			for _, what := range []string{"objects", "fields", "references", "chain", "nested"} {
				if !c.Thorough && what == "objects" && n > 6 && n%8 > 2 {
					continue
				}
				if !emit(docCase{what, n, n%2 == 0}) {
					return
				}
			}
		}
	}, func(w *Worker, dc docCase) *Fail {
		var regs []regObj
		pkg := fmt.Sprintf("mcmany.%s%d", dc.What, dc.N)
		leaf := func(i int) *descriptorpb.DescriptorProto {
			return msgProto(fmt.Sprintf("L%d", i), fieldSpec{Name: fmt.Sprintf("v%d", i), Type: kindTypes[kindNames[i%len(kindNames)]], Repeated: i%3 == 1})
		}
		obj := msgProto("Obj", fieldSpec{Name: "id", Type: tString})
		ref := func(m *descriptorpb.DescriptorProto, n, ty string, rep bool) {
			x := msgProto("x", fieldSpec{Name: n, Type: tMsg, TypeName: "." + pkg + "." + ty, Repeated: rep}).Field[0]
			x.Number = proto.Int32(int32(len(m.Field) + 1))
			m.Field = append(m.Field, x)
		}
		msgs := []*descriptorpb.DescriptorProto{obj}
		d := &schema.Definition{PrimaryKey: "id"}
		switch dc.What {
		case "objects":
			regs = all[manyTypesMax-dc.N:]
		case "fields":
			d.SecondaryKeys = []string{"val"}
			regs = []regObj{{manyFieldType(dc.N).obj(), d}}
		case "references":
			for i := 0; i < dc.N; i++ {
				msgs = append(msgs, leaf(i))
				ref(obj, fmt.Sprintf("r%d", i), fmt.Sprintf("L%d", i), i%2 == 1)
			}
		case "chain":
			for i := 0; i < dc.N; i++ {
				m := leaf(i)
				if i+1 < dc.N {
					ref(m, "next", fmt.Sprintf("L%d", i+1), i%2 == 1)
				}
				msgs = append(msgs, m)
			}
			ref(obj, "first", "L0", false)
		case "nested":
			in, name := obj, "Obj"
			for i := 0; i < dc.N && i < 40; i++ {
				m := leaf(i)
				in.NestedType = append(in.NestedType, m)
				name += fmt.Sprintf(".L%d", i)
				ref(in, "part", name, i%2 == 1)
				in = m
			}
		}
		if regs == nil {
			fd := mustFile(fileProto(strings.ReplaceAll(pkg, ".", "/")+".proto", pkg, nil, msgs...))
			regs = []regObj{{newDynType(fd.Messages().ByName("Obj"), dynObject).obj(), d}}
		}
		return c.judgeRegs(regs, dc.Module, true)
	})
}
