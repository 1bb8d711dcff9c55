package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	ormschema "github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

func init() { register("C05", c05) }

var scalarTypes = []descriptorpb.FieldDescriptorProto_Type{
	tBool, tInt32, tUint32, tInt64, tUint64, tString, tBytes, tEnum,
	descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_SINT64,
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_DOUBLE,
}

func kindName(t descriptorpb.FieldDescriptorProto_Type) string {
	return strings.ToLower(strings.TrimPrefix(t.String(), "TYPE_"))
}

// mapEntry adds a map field to the message.
func mapField(m *descriptorpb.DescriptorProto, pkg, name string, valType descriptorpb.FieldDescriptorProto_Type, valName string) {
	en := strings.ToUpper(name[:1]) + name[1:] + "Entry"
	e := msgProto(en, fieldSpec{Name: "key", Type: tString}, fieldSpec{Name: "value", Type: valType, TypeName: valName})
	e.Options = &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}
	m.NestedType = append(m.NestedType, e)
	l := descriptorpb.FieldDescriptorProto_LABEL_REPEATED
	ty := tMsg
	m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(name), JsonName: proto.String(name),
		Number: proto.Int32(int32(len(m.Field) + 1)), Label: &l, Type: &ty, TypeName: proto.String("." + pkg + "." + m.GetName() + "." + en)})
}

type shape struct {
	md     protoreflect.MessageDescriptor
	hasMap bool
}

var (
	shapesOnce sync.Once
	shapesList []shape
)

// shapes builds message types of every relevant form.
func shapes() []shape {
	shapesOnce.Do(func() {
		pkg := "mc.shapes"
		var msgs []*descriptorpb.DescriptorProto
		maps := map[string]bool{}
		add := func(m *descriptorpb.DescriptorProto, hasMap bool) {
			msgs = append(msgs, m)
			maps[m.GetName()] = hasMap
		}
		ref := func(n string) string { return "." + pkg + "." + n }
		for _, t := range scalarTypes {
			tn := ""
			if t == tEnum {
				tn = ref("E")
			}
			for _, rep := range []bool{false, true} {
				pre := "S"
				if rep {
					pre = "R"
				}
				add(msgProto(pre+kindName(t), fieldSpec{Name: "id", Type: tString}, fieldSpec{Name: "val_x", Type: tUint64}, fieldSpec{Name: "f", Type: t, TypeName: tn, Repeated: rep}), false)
			}
		}
		// messages and maps
		id := fieldSpec{Name: "id", Type: tString}
		f := func(n, ty string) fieldSpec { return fieldSpec{Name: n, Type: tMsg, TypeName: ref(ty)} }
		fr := func(n, ty string) fieldSpec {
			return fieldSpec{Name: n, Type: tMsg, TypeName: ref(ty), Repeated: true}
		}
		add(msgProto("Leaf", id), false)
		m0 := msgProto("M0", id)
		mapField(m0, pkg, "f", tString, "")
		add(m0, true)
		mm := msgProto("Mm", id) // map of messages
		mapField(mm, pkg, "f", tMsg, ref("Leaf"))
		add(mm, true)
		add(msgProto("N1", id, f("f", "Leaf")), false)
		add(msgProto("N1r", id, fr("f", "Leaf")), false)
		add(msgProto("M1", id, f("f", "M0")), true)
		add(msgProto("M1r", id, fr("f", "M0")), true)
		add(msgProto("M2", id, f("f", "M1")), true)
		add(msgProto("M3", id, fr("f", "M2")), true)
		add(msgProto("MSecond", id, f("f", "Leaf"), f("g", "M1")), true)
		add(msgProto("MFirst", id, f("f", "M1"), f("g", "Leaf")), true)
		add(msgProto("MDeepSecond", id, f("f", "N1"), f("g", "N1r"), f("h", "MSecond")), true)
		add(msgProto("Rec", id, f("f", "Rec")), false)
		add(msgProto("RecM", id, f("f", "RecM"), f("g", "M1")), true)
		add(msgProto("RecM2", id, f("g", "M2"), f("f", "RecM2")), true)
		add(msgProto("MutA", id, f("f", "MutB")), true)
		add(msgProto("MutB", id, f("f", "MutA"), f("g", "M0")), true)
		add(msgProto("MutC", id, f("f", "MutD")), false)
		add(msgProto("MutD", id, f("f", "MutC"), f("g", "Leaf")), false)
		add(msgProto("Dia", id, f("f", "N1"), f("g", "N1r"), f("h", "Leaf")), false)
		one := msgProto("Oneof", id, fieldSpec{Name: "f", Type: tString}, fieldSpec{Name: "g", Type: tUint64})
		one.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("o")}}
		one.Field[1].OneofIndex, one.Field[2].OneofIndex = proto.Int32(0), proto.Int32(0)
		add(one, false)
		add(msgProto("Empty"), false)
		fdp := fileProto("mc/shapes.proto", pkg, nil, msgs...)
		fdp.EnumType = []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E"), Value: []*descriptorpb.EnumValueDescriptorProto{
			{Name: proto.String("E0"), Number: proto.Int32(0)}, {Name: proto.String("E1"), Number: proto.Int32(1)}}}}
		fd := mustFile(fdp)
		for i := 0; i < fd.Messages().Len(); i++ {
			md := fd.Messages().Get(i)
			shapesList = append(shapesList, shape{md, maps[string(md.Name())]})
		}
	})
	return shapesList
}

var encodable = map[protoreflect.Kind]bool{
	protoreflect.BoolKind: true, protoreflect.Int32Kind: true, protoreflect.Uint32Kind: true, protoreflect.Int64Kind: true,
	protoreflect.Uint64Kind: true, protoreflect.StringKind: true, protoreflect.BytesKind: true,
}

func unsupportedKind(k protoreflect.Kind) bool {
	return !encodable[k] && k != protoreflect.EnumKind && k != protoreflect.MessageKind
}

// acceptable is the registration rule.
func acceptable(sh shape, d *schema.Definition) (bool, string) {
	if sh.hasMap {
		return false, "it contains a map"
	}
	fs := sh.md.Fields()
	for i := 0; i < fs.Len(); i++ {
		if unsupportedKind(fs.Get(i).Kind()) {
			return false, "field of kind " + fs.Get(i).Kind().String()
		}
	}
	if d.Singleton {
		if d.PrimaryKey != "" || len(d.SecondaryKeys) > 0 {
			return false, "a singleton with keys"
		}
		return true, ""
	}
	seen := map[string]bool{}
	for i, k := range append([]string{d.PrimaryKey}, d.SecondaryKeys...) {
		fd := fs.ByJSONName(k)
		if fd == nil {
			return false, "no field " + k
		}
		if !encodable[fd.Kind()] || fd.Cardinality() == protoreflect.Repeated {
			return false, "key field " + k + " cannot be encoded"
		}
		if i > 0 && seen[k] {
			return false, "secondary key " + k + " twice"
		}
		if i > 0 {
			seen[k] = true
		}
	}
	return true, ""
}

// memKV is a plain in-memory KV used to try accepted definitions.
type memKV struct{ m map[string][]byte }

func newMemKV() *memKV { return &memKV{map[string][]byte{}} }
func (k *memKV) Get(key []byte) ([]byte, bool) {
	v, ok := k.m[string(key)]
	return append([]byte{}, v...), ok
}
func (k *memKV) Set(key, v []byte) {
	if len(key) == 0 {
		panic("empty key")
	}
	k.m[string(key)] = append([]byte{}, v...)
}
func (k *memKV) Has(key []byte) bool { _, ok := k.m[string(key)]; return ok }
func (k *memKV) Delete(key []byte) bool {
	_, ok := k.m[string(key)]
	delete(k.m, string(key))
	return ok
}
func (k *memKV) iter(lo, hi, pre string) kv.Iterator {
	it := &memIter{cut: len(pre)}
	for _, x := range sortedKeys(k.m) {
		if strings.HasPrefix(x, pre) && x >= lo && (hi == "" || x <= hi) {
			it.kv = append(it.kv, [2]string{x, string(k.m[x])})
		}
	}
	return it
}
func (k *memKV) Iterate(start, end []byte) kv.Iterator { return k.iter(string(start), string(end), "") }
func (k *memKV) IteratePrefix(p []byte) kv.Iterator    { return k.iter("", "", string(p)) }

type memIter struct {
	kv  [][2]string
	i   int
	cut int
}

func (m *memIter) Next()         { m.i++ }
func (m *memIter) Key() []byte   { return []byte(m.kv[m.i][0])[m.cut:] }
func (m *memIter) Value() []byte { return []byte(m.kv[m.i][1]) }
func (m *memIter) Valid() bool   { return m.i < len(m.kv) }
func (m *memIter) Close()        {}

// scalarVal is the n-th value of a kind (n 0 is zero).
func scalarVal(k protoreflect.Kind, n int) protoreflect.Value {
	switch k {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(n%2 == 1)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(-n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(-n))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(n))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(strings.Repeat("s", n))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(bytes.Repeat([]byte{'b'}, n))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n % 2))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(n))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(n))
	}
	hp("scalarVal %v", k)
	return protoreflect.Value{}
}

type regCase struct {
	Shape     string   `json:"shape"`
	Singleton bool     `json:"singleton"`
	PK        string   `json:"pk"`
	SK        []string `json:"sk"`
}

func (rc regCase) def() *schema.Definition {
	return &schema.Definition{Singleton: rc.Singleton, PrimaryKey: rc.PK, SecondaryKeys: rc.SK}
}

func c05(c *Ctx) {
	c.Rule = "every registration of 55 message shapes (each scalar kind, repeated, nested, recursive, maps to depth 4) under every singleton/primary/secondary key combination is decided by the rule of the property, and of messages of up to 201 fields with something odd at each place; each accepted one is exercised with create, get and list"
	c.Assumptions = []string{"unsupported scalar kinds are looked for among the object's own fields"}
	byName := map[string]shape{}
	for _, s := range shapes() {
		byName[string(s.md.Name())] = s
	}
	gen := func(emit func(regCase) bool) {
		names := []string{"id", "f", "valX", "val_x", "nope", "g", "Id", ""}
		var sks [][]string
		sks = append(sks, nil)
		for _, a := range names {
			sks = append(sks, []string{a})
			for _, b := range names[:6] {
				sks = append(sks, []string{a, b})
				last := names[:4]
				if c.Thorough {
					last = names
				}
				for _, d := range last {
					sks = append(sks, []string{a, b, d})
				}
			}
		}
		for _, sh := range shapes() {
			for _, single := range []bool{true, false} {
				for _, pk := range append([]string{""}, names[:7]...) {
					for _, sk := range sks {
						if !emit(regCase{string(sh.md.Name()), single, pk, sk}) {
							return
						}
					}
				}
			}
		}
	}
	Explore(c, "definitions", gen, func(w *Worker, rc regCase) *Fail {
		sh := byName[rc.Shape]
		t := newDynType(sh.md, dynObject)
		k1, k2 := newMemKV(), newMemKV()
		s := orm.NewStore(objects.NewStore(k1), indexes.NewStore(k2))
		d := rc.def()
		want, why := acceptable(sh, d)
		err := s.RegisterObject(t.obj(), d)
		if err == nil && !want {
			key := "accepted-bad"
			for _, k := range rc.SK {
				if fd := sh.md.Fields().ByJSONName(k); fd != nil && fd.Cardinality() == protoreflect.Repeated {
					key = "accepted-repeated-secondary-key"
				}
			}
			return failf(key, "%s with %v was accepted although %s", rc.Shape, d, why)
		}
		if err != nil && want {
			return failf("refused-good", "%s with %v was refused: %v", rc.Shape, d, err)
		}
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		if err != nil {
			c.Outcome("refused " + rc.Shape + why)
			// a refused registration leaves nothing behind
			if _, err := s.SchemaRegistry().Get(t.obj()); err == nil {
				return failf("refused-registered", "%s with %v was refused but is registered", rc.Shape, d)
			}
			if len(s.ListRegisteredStateObjects()) != 0 || len(s.SchemaRegistry().ListAPIGroups()) != 0 {
				return failf("refused-registered", "%s with %v was refused but is listed", rc.Shape, d)
			}
			return nil
		}
		c.State(fmt.Sprint(rc))
		c.Outcome("accepted " + fmt.Sprint(rc))
		// a second registration, with another definition, is refused and changes nothing
		alt := &schema.Definition{Singleton: !rc.Singleton}
		if rc.Singleton && sh.md.Fields().ByJSONName("id") != nil {
			alt.PrimaryKey = "id"
		}
		for _, d2 := range []*schema.Definition{d, alt} {
			if s.RegisterObject(t.obj(), d2) == nil {
				return failf("registered-twice", "%s was registered twice", rc.Shape)
			}
		}
		return exercise(s, t, d)
	})

	// maps at any depth, reached through every form of message field
	type deepCase struct {
		Depth, Form, End int
		Single           bool
	}
	deepForms := []string{"singular", "repeated", "oneof", "optional", "high number", "second of oneof", "required"}
	Explore(c, "deep", func(emit func(deepCase) bool) {
		for form := range deepForms {
			for end := 0; end < 8; end++ {
				for _, d := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 150} {
					if !emit(deepCase{d, form, end, false}) || !emit(deepCase{d, form, end, true}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, dc deepCase) *Fail {
		md := chainMsg(dc.Depth, deepForms[dc.Form], dc.End)
		t := newDynType(md, dynObject)
		s := orm.NewStore(objects.NewStore(newMemKV()), indexes.NewStore(newMemKV()))
		d := &schema.Definition{PrimaryKey: "id"}
		if dc.Single {
			d = &schema.Definition{Singleton: true}
		}
		has := walkHasMap(md, map[protoreflect.FullName]bool{})
		err := s.RegisterObject(t.obj(), d)
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint("deep", dc, has))
		switch {
		case err == nil && has:
			return failf("accepted-bad", "%+v: accepted although it contains a map", dc)
		case err != nil && !has:
			return failf("refused-good", "%+v: refused: %v", dc, err)
		case err != nil || deepForms[dc.Form] == "required":
			return nil
		}
		return exercise(s, t, d)
	})

	wideMessages(c)

	// two different types in one registry do not affect each other
	type pairCase struct{ A, B regCase }
	good := []regCase{}
	gen(func(rc regCase) bool {
		if ok, _ := acceptable(byName[rc.Shape], rc.def()); ok && (len(rc.SK) == 0 || len(rc.SK) == 1 && rc.SK[0] == "f") && (rc.PK == "id" || rc.Singleton) {
			good = append(good, rc)
		}
		return true
	})
	Explore(c, "pairs", func(emit func(pairCase) bool) {
		for _, a := range good {
			for _, b := range good {
				if a.Shape != b.Shape {
					if !emit(pairCase{a, b}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, pc pairCase) *Fail {
		s := orm.NewStore(objects.NewStore(newMemKV()), indexes.NewStore(newMemKV()))
		ta, tb := newDynType(byName[pc.A.Shape].md, dynObject), newDynType(byName[pc.B.Shape].md, dynObject)
		for _, x := range []struct {
			t *dynType
			d *schema.Definition
		}{{ta, pc.A.def()}, {tb, pc.B.def()}} {
			if err := s.RegisterObject(x.t.obj(), x.d); err != nil {
				return failf("refused-good", "%v after the other type: %v", x.d, err)
			}
		}
		addN(&c.Transitions, 2)
		addN(&c.Traces, 1)
		if f := exercise(s, ta, pc.A.def()); f != nil {
			return f
		}
		return exercise(s, tb, pc.B.def())
	})

	// the repository's own objects are registered as their definitions say
	type nilCase struct{ Def int }
	Explore(c, "degenerate", func(emit func(nilCase) bool) {
		emit(nilCase{0})
		emit(nilCase{1})
	}, func(w *Worker, nc nilCase) *Fail {
		reg := ormschema.NewRegistry()
		t := newDynType(byName["Sstring"].md, dynObject)
		d := &schema.Definition{}
		if nc.Def == 1 {
			d = &schema.Definition{SecondaryKeys: []string{"f"}}
		}
		if reg.AddObject(t.obj(), d) == nil {
			return failf("accepted-bad", "a definition without primary key was accepted: %v", d)
		}
		return nil
	})
}

// exercise creates objects of an accepted type, reads them back and lists them by each index.
func exercise(s orm.Store, t *dynType, d *schema.Definition) *Fail {
	sch, err := s.SchemaRegistry().Get(t.obj())
	if err != nil {
		return failf("accepted-unusable", "schema of accepted type: %v", err)
	}
	var objs []*DynObj
	fs := t.md.Fields()
	for n := 0; n < 3; n++ {
		o := t.obj()
		for i := 0; i < fs.Len(); i++ {
			fd := fs.Get(i)
			if fd.Kind() == protoreflect.MessageKind {
				continue
			}
			if fd.Cardinality() == protoreflect.Repeated {
				for j := 0; j < n; j++ {
					o.m.Mutable(fd).List().Append(scalarVal(fd.Kind(), j+n))
				}
				continue
			}
			v := scalarVal(fd.Kind(), n+1)
			if fd.JSONName() == d.PrimaryKey {
				v = scalarVal(fd.Kind(), n+1)
			} else if n == 0 {
				v = scalarVal(fd.Kind(), 0)
			} else {
				v = scalarVal(fd.Kind(), 1)
			}
			if fd.ContainingOneof() != nil && fd.JSONName() != d.PrimaryKey && (n == 0 || o.m.WhichOneof(fd.ContainingOneof()) != nil) {
				continue
			}
			o.m.Set(fd, v)
		}
		if d.Singleton && n > 0 {
			break
		}
		if !d.Singleton && fs.ByJSONName(d.PrimaryKey).Kind() == protoreflect.BoolKind && n > 1 {
			break
		}
		if err := s.Create(o); err != nil {
			return failf("accepted-unusable", "create of accepted type %s (%v): %v", t.md.Name(), d, err)
		}
		objs = append(objs, o)
	}
	for _, o := range objs {
		got := t.obj()
		if err := s.Get(rawID(sch.EncodePrimaryKey(o)), got); err != nil {
			return failf("accepted-unusable", "get of accepted type %s (%v): %v", t.md.Name(), d, err)
		}
		if !proto.Equal(got, o) {
			return failf("accepted-wrong", "get of accepted type %s (%v): %v, want %v", t.md.Name(), d, got, o)
		}
		for _, k := range d.SecondaryKeys {
			fd := fs.ByJSONName(k)
			v := o.m.Get(fd)
			it, err := s.List(t.obj(), orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: k, Value: v.Interface()}}})
			if err != nil {
				return failf("accepted-unusable", "list of accepted type %s by %s (%v): %v", t.md.Name(), k, d, err)
			}
			n, want := 0, 0
			for _, x := range objs {
				if valEq(x.m.Get(fd), v, fd) {
					want++
				}
			}
			for ; it.Valid() && n < 10; it.Next() {
				x := t.obj()
				if err := it.Get(x); err != nil {
					return failf("accepted-unusable", "list item of %s: %v", t.md.Name(), err)
				}
				if !valEq(x.m.Get(fd), v, fd) {
					return failf("accepted-wrong", "list of %s by %s=%v yields %v", t.md.Name(), k, v, x)
				}
				n++
			}
			it.Close()
			if n != want {
				return failf("accepted-wrong", "list of %s by %s=%v yields %d objects, want %d", t.md.Name(), k, v, n, want)
			}
		}
	}
	return nil
}

type rawID []byte

func (r rawID) Bytes() []byte { return r }
