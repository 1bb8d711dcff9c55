// Package gencheck decides whether generated code (API definitions, schemas and clients)
// does what the protobuf options of its messages declare. It is used on the code in the
// explorer's own binary and in programs the explorer generates and compiles.
package gencheck

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/modulegen"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// Pkg is one package of generated code.
type Pkg struct {
	Name    string
	File    string // path of the proto file
	New     interface{}
	Schemas map[string]*schema.Definition // by Go type name
}

type Fail struct{ Key, Msg string }

// Result is what the exploration of one package gave.
type Result struct {
	Name        string
	Fails       []Fail
	Steps       int
	Traces      int
	Objects     int
	Transitions int
}

// Main checks the packages and prints the results.
func Main(pkgs []Pkg, depth int) {
	var out []Result
	for _, p := range pkgs {
		out = append(out, Check(p, depth))
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	fmt.Printf("\nGENCHECK %s\n", b)
}

type checker struct {
	p   Pkg
	r   Result
	key string
	d   int
}

func (c *checker) failf(key, format string, args ...interface{}) {
	for _, f := range c.r.Fails {
		if f.Key == key {
			return
		}
	}
	c.r.Fails = append(c.r.Fails, Fail{key, fmt.Sprintf(format, args...)})
}

// guarded runs f, a panic of the generated code is a failure.
func (c *checker) guarded(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.failf("panic", "%s panics: %v\n%s", what, r, firstLines(string(debug.Stack()), 20))
		}
	}()
	f()
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Declared lists the state objects and transitions the file declares.
func Declared(fd protoreflect.FileDescriptor) (objs, trans []protoreflect.MessageDescriptor) {
	for i := 0; i < fd.Messages().Len(); i++ {
		md := fd.Messages().Get(i)
		if o, ok := proto.GetExtension(md.Options(), modulegen.E_StateObject).(*modulegen.StateObjectDescriptor); ok && o != nil {
			objs = append(objs, md)
		}
		if o, ok := proto.GetExtension(md.Options(), modulegen.E_StateTransition).(*modulegen.StateTransitionDescriptor); ok && o != nil {
			trans = append(trans, md)
		}
	}
	return
}

// Check explores one package.
func Check(p Pkg, depth int) Result {
	c := &checker{p: p, d: depth}
	c.r.Name = p.Name
	c.guarded("the generated code", func() { c.run() })
	return c.r
}

func (c *checker) run() {
	fd, err := protoregistry.GlobalFiles.FindFileByPath(c.p.File)
	if err != nil {
		panic(err)
	}
	objs, trans := Declared(fd)
	c.r.Objects, c.r.Transitions = len(objs), len(trans)
	newV := reflect.ValueOf(c.p.New)
	want := map[string]bool{}
	csT := newV.Type().Out(0)
	for _, md := range objs {
		ty, err := protoregistry.GlobalTypes.FindMessageByName(md.FullName())
		if err != nil {
			panic(err)
		}
		o, ok := ty.New().Interface().(meta.StateObject)
		if !ok {
			c.failf("not-generated", "%s is declared as state object, but is none", md.FullName())
			continue
		}
		goName := reflect.TypeOf(o).Elem().Name()
		c.guarded(string(md.FullName()), func() { c.definition(o) })
		c.guarded(string(md.FullName()), func() { c.fresh(o, o.NewStateObject, o.NewStateObject) })
		c.guarded(string(md.FullName()), func() { c.schema(o, goName) })
		// the accessor
		var acc []string
		for i := 0; i < csT.NumMethod(); i++ {
			m := csT.Method(i)
			if m.Type.NumIn() == 0 && m.Type.NumOut() == 1 && m.Type.Out(0).Kind() == reflect.Interface {
				if g, ok := m.Type.Out(0).MethodByName("Get"); ok && g.Type.NumOut() == 2 && g.Type.Out(0) == reflect.TypeOf(o) {
					acc = append(acc, m.Name)
				}
			}
		}
		if len(acc) != 1 || (acc[0] != goName && acc[0] != goName+"s") {
			c.failf("accessor", "the client set reaches %s through %v", goName, acc)
			continue
		}
		want[acc[0]] = true
		c.guarded(string(md.FullName()), func() { c.object(o, acc[0]) })
		c.guarded(string(md.FullName()), func() { c.histories(o, acc[0]) })
	}
	for _, md := range trans {
		ty, err := protoregistry.GlobalTypes.FindMessageByName(md.FullName())
		if err != nil {
			panic(err)
		}
		t, ok := ty.New().Interface().(meta.StateTransition)
		if !ok {
			c.failf("not-generated", "%s is declared as state transition, but is none", md.FullName())
			continue
		}
		goName := reflect.TypeOf(t).Elem().Name()
		c.guarded(string(md.FullName()), func() { c.definition(t) })
		c.guarded(string(md.FullName()), func() { c.freshT(t) })
		m, ok := csT.MethodByName("Exec" + goName)
		if !ok || m.Type.NumIn() != 1 || m.Type.In(0) != reflect.TypeOf(t) || m.Type.NumOut() != 1 {
			c.failf("exec", "the client set cannot execute %s", goName)
			continue
		}
		want[m.Name] = true
		c.guarded(string(md.FullName()), func() { c.deliver(t, m.Name) })
	}
	for i := 0; i < csT.NumMethod(); i++ {
		if n := csT.Method(i).Name; !want[n] {
			c.failf("extra-method", "the client set has a method %s for nothing declared", n)
		}
	}
}

func (c *checker) definition(t meta.APIObject) {
	d := t.APIDefinition()
	md := t.ProtoReflect().Descriptor()
	want := &meta.APIDefinition{Group: string(md.FullName().Parent()), Kind: string(md.Name())}
	if o, ok := proto.GetExtension(md.Options(), modulegen.E_StateObject).(*modulegen.StateObjectDescriptor); ok && o != nil {
		want.ApiType = meta.APIType_StateObject
	} else {
		want.ApiType = meta.APIType_StateTransition
	}
	c.r.Steps++
	if !proto.Equal(d, want) {
		c.failf("definition", "%s reports %v, it is %v", md.FullName(), d, want)
	}
	c.r.Traces++
}

func (c *checker) fresh(o meta.StateObject, f, g func() meta.StateObject) {
	a, b := f(), g()
	c.r.Steps += 2
	if reflect.TypeOf(a) != reflect.TypeOf(o) || reflect.TypeOf(b) != reflect.TypeOf(o) {
		c.failf("new-type", "%T creates %T", o, a)
		return
	}
	if a == b || a == o {
		c.failf("new-shared", "%T creates the same instance twice", o)
	}
	Fill(a.ProtoReflect(), 1)
	n := f()
	if n == a || proto.Size(b) != 0 || proto.Size(n) != 0 {
		c.failf("new-not-fresh", "%T creates instances which are not empty", o)
	}
	if n := a.NewStateObject(); proto.Size(n) != 0 {
		c.failf("new-not-fresh", "%T creates instances which are not empty", o)
	}
	c.r.Traces++
}

func (c *checker) freshT(o meta.StateTransition) {
	a, b := o.NewStateTransition(), o.NewStateTransition()
	c.r.Steps += 2
	if reflect.TypeOf(a) != reflect.TypeOf(o) || reflect.TypeOf(b) != reflect.TypeOf(o) {
		c.failf("new-type", "%T creates %T", o, a)
		return
	}
	// instances of empty messages may have one address
	Fill(a.ProtoReflect(), 1)
	if n := a.NewStateTransition(); proto.Size(b) != 0 || proto.Size(n) != 0 {
		c.failf("new-not-fresh", "%T creates instances which are not empty", o)
	}
	c.r.Traces++
}

func declaredSchema(md protoreflect.MessageDescriptor) *schema.Definition {
	o := proto.GetExtension(md.Options(), modulegen.E_StateObject).(*modulegen.StateObjectDescriptor)
	return &schema.Definition{Singleton: o.Singleton, PrimaryKey: o.PrimaryKey, SecondaryKeys: o.SecondaryKeys}
}

func (c *checker) schema(o meta.StateObject, goName string) {
	md := o.ProtoReflect().Descriptor()
	want := declaredSchema(md)
	got := c.p.Schemas[goName]
	c.r.Steps++
	if got == nil || got.Singleton != want.Singleton || got.PrimaryKey != want.PrimaryKey ||
		strings.Join(got.SecondaryKeys, ",") != strings.Join(want.SecondaryKeys, ",") {
		c.failf("schema", "the schema of %s is %v, declared is %v", md.FullName(), got, want)
	}
	c.r.Traces++
}

// ---- single calls ----

// call is one call that reached the runtime's client.
type call struct {
	op   string
	id   []byte
	obj  interface{}
	opts []string
}

// recorder is the runtime's client: it notes the calls and answers from a store, or with an error.
type recorder struct {
	calls []call
	log   *[]string // options write here when applied
	err   error
	fill  func(o meta.StateObject)
	store *orm.Store
}

func (r *recorder) note(op string, id meta.ID, obj interface{}, apply func()) {
	k := call{op: op, obj: obj}
	if id != nil {
		k.id = append([]byte{}, id.Bytes()...)
	}
	if r.log != nil {
		*r.log = nil
		apply()
		k.opts = append([]string(nil), *r.log...)
	}
	r.calls = append(r.calls, k)
}

func (r *recorder) Get(id meta.ID, o meta.StateObject, opts ...client.GetOption) error {
	r.note("Get", id, o, func() {
		for _, f := range opts {
			f(new(client.GetOptionsRaw))
		}
	})
	if r.err != nil {
		return r.err
	}
	if r.store != nil {
		return r.store.Get(id, o)
	}
	if r.fill != nil {
		r.fill(o)
	}
	return nil
}
func (r *recorder) List(o meta.StateObject, opts ...client.ListOption) (client.ObjectIterator, error) {
	raw := new(client.ListOptionsRaw)
	r.note("List", nil, o, func() {
		for _, f := range opts {
			f(new(client.ListOptionsRaw))
		}
	})
	for _, f := range opts {
		f(raw)
	}
	if r.err != nil {
		return client.ObjectIterator{}, r.err
	}
	if r.store != nil {
		return r.store.List(o, raw.ORMOptions)
	}
	return client.ObjectIterator{}, nil
}
func (r *recorder) Create(o meta.StateObject, opts ...client.CreateOption) error {
	r.note("Create", nil, o, func() {
		for _, f := range opts {
			f()
		}
	})
	if r.err == nil && r.store != nil {
		return r.store.Create(o)
	}
	return r.err
}
func (r *recorder) Update(o meta.StateObject, opts ...client.UpdateOption) error {
	r.note("Update", nil, o, func() {
		for _, f := range opts {
			f(new(client.UpdateOptionsRaw))
		}
	})
	if r.err == nil && r.store != nil {
		return r.store.Update(o)
	}
	return r.err
}
func (r *recorder) Delete(o meta.StateObject, opts ...client.DeleteOption) error {
	r.note("Delete", nil, o, func() {
		for _, f := range opts {
			f()
		}
	})
	if r.err == nil && r.store != nil {
		return r.store.Delete(o)
	}
	return r.err
}
func (r *recorder) Deliver(t meta.StateTransition, opts ...client.DeliverOption) error {
	r.note("Deliver", nil, t, func() {
		for _, f := range opts {
			f(new(client.DeliverOptionsRaw))
		}
	})
	return r.err
}

func (r *recorder) take() []call {
	k := r.calls
	r.calls = nil
	return k
}

// clientSet makes the client set over the runtime's client.
func (c *checker) clientSet(rt client.Client) reflect.Value {
	return reflect.ValueOf(c.p.New).Call([]reflect.Value{reflect.ValueOf(&rt).Elem()})[0]
}

// options makes n options of the type which write their number to the log.
func options(ty reflect.Type, n int, log *[]string) (vs []reflect.Value, names []string) {
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("option %d", i)
		names = append(names, name)
		vs = append(vs, reflect.MakeFunc(ty, func([]reflect.Value) []reflect.Value {
			*log = append(*log, name)
			return nil
		}))
	}
	return
}

var errRuntime = errors.New("the runtime's own error")

func asErr(v reflect.Value) error {
	e, _ := v.Interface().(error)
	return e
}

func keys(fd protoreflect.FieldDescriptor) []protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		var out []protoreflect.Value
		for _, s := range []string{"k", "", "unique", "ü\x00/", strings.Repeat("long", 80)} {
			out = append(out, protoreflect.ValueOfString(s))
		}
		return out
	case protoreflect.BytesKind:
		var out []protoreflect.Value
		for _, s := range [][]byte{{'k'}, {}, {0}, {0xff, 0, 0xfe}, bytes.Repeat([]byte{7}, 300)} {
			out = append(out, protoreflect.ValueOfBytes(s))
		}
		return out
	}
	return nil
}

func (c *checker) object(o meta.StateObject, acc string) {
	md := o.ProtoReflect().Descriptor()
	name := string(md.FullName())
	def := declaredSchema(md)
	sch, err := schema.NewSchema(o, def)
	if err != nil {
		panic(err)
	}
	var log []string
	rec := &recorder{log: &log}
	cs := c.clientSet(rec)
	cl := cs.MethodByName(acc).Call(nil)[0]
	if cl.IsNil() {
		c.failf("accessor", "the client of %s is nil", name)
		return
	}
	wantOps := "Create Delete Get Update"
	if !def.Singleton {
		wantOps = "Create Delete Get List Update"
	}
	var ops []string
	itf := cs.MethodByName(acc).Type().Out(0)
	for i := 0; i < itf.NumMethod(); i++ {
		ops = append(ops, itf.Method(i).Name)
	}
	sort.Strings(ops)
	if strings.Join(ops, " ") != wantOps {
		c.failf("operations", "the client of %s has operations %v, want %s", name, ops, wantOps)
		return
	}
	for n := 0; n <= 2; n++ {
		for _, fail := range []bool{false, true} {
			rec.err = nil
			if fail {
				rec.err = errRuntime
			}
			// create, update, delete
			for _, op := range []string{"Create", "Update", "Delete"} {
				m := cl.MethodByName(op)
				if m.Type().NumIn() != 2 || m.Type().In(0) != reflect.TypeOf(o) || !m.Type().IsVariadic() {
					c.failf("signature", "%s of %s is %s", op, name, m.Type())
					continue
				}
				ovs, names := options(m.Type().In(1).Elem(), n, &log)
				x := o.NewStateObject()
				Fill(x.ProtoReflect(), n+1)
				before := proto.Clone(x)
				err := asErr(m.Call(append([]reflect.Value{reflect.ValueOf(x)}, ovs...))[0])
				c.r.Steps++
				if err != rec.err {
					c.failf("error", "%s of %s answers %v when the runtime answers %v", op, name, err, rec.err)
				}
				ks := rec.take()
				if len(ks) != 1 || ks[0].op != op || ks[0].obj != interface{}(x) || strings.Join(ks[0].opts, ",") != strings.Join(names, ",") {
					c.failf("passes", "%s of %s with %d options gives the runtime %v", op, name, n, describe(ks, x))
				}
				if !proto.Equal(x, before) {
					c.failf("changes-argument", "%s of %s changes the object it is given", op, name)
				}
			}
			// get
			m := cl.MethodByName("Get")
			arg := 0
			kvs := []protoreflect.Value{{}}
			var fd protoreflect.FieldDescriptor
			if !def.Singleton {
				arg = 1
				fd = md.Fields().ByJSONName(def.PrimaryKey)
				kvs = keys(fd)
			}
			if m.Type().NumIn() != arg+1 || !m.Type().IsVariadic() {
				c.failf("signature", "Get of %s is %s", name, m.Type())
				continue
			}
			for _, k := range kvs {
				filled := o.NewStateObject()
				Fill(filled.ProtoReflect(), 3)
				rec.fill = func(x meta.StateObject) {
					if reflect.TypeOf(x) == reflect.TypeOf(filled) {
						proto.Merge(x, filled)
					}
				}
				ovs, names := options(m.Type().In(arg).Elem(), n, &log)
				var args []reflect.Value
				wantID := meta.SingletonID.Bytes()
				if arg == 1 {
					kx := o.NewStateObject()
					kx.ProtoReflect().Set(fd, k)
					wantID = sch.EncodePrimaryKey(kx)
					args = append(args, reflect.ValueOf(k.Interface()))
				}
				res := m.Call(append(args, ovs...))
				c.r.Steps++
				ks := rec.take()
				if err := asErr(res[1]); err != rec.err {
					c.failf("error", "Get of %s answers %v when the runtime answers %v", name, err, rec.err)
				}
				if len(ks) != 1 || ks[0].op != "Get" || reflect.TypeOf(ks[0].obj) != reflect.TypeOf(o) || strings.Join(ks[0].opts, ",") != strings.Join(names, ",") {
					c.failf("passes", "Get of %s with %d options gives the runtime %v", name, n, describe(ks, nil))
				} else if !bytes.Equal(ks[0].id, wantID) {
					c.failf("id", "Get of %s for key %v asks for %x, the object is stored under %x", name, k, ks[0].id, wantID)
				}
				got := res[0]
				switch {
				case fail && !got.IsNil():
					c.failf("get-result", "Get of %s answers an object and an error", name)
				case !fail && (got.IsNil() || !proto.Equal(got.Interface().(proto.Message), filled)):
					c.failf("get-result", "Get of %s answers %v, the runtime found %v", name, got, filled)
				}
				// later results are not earlier ones
				if !fail {
					res2 := m.Call(args)
					rec.take()
					c.r.Steps++
					if res2[0].Interface() == got.Interface() {
						c.failf("get-shared", "Get of %s answers the same instance twice", name)
					}
				}
			}
			// list
			if !def.Singleton {
				m := cl.MethodByName("List")
				if m.Type().NumIn() != 1 || !m.Type().IsVariadic() {
					c.failf("signature", "List of %s is %s", name, m.Type())
					continue
				}
				ovs, names := options(m.Type().In(0).Elem(), n, &log)
				res := m.Call(ovs)
				c.r.Steps++
				ks := rec.take()
				if err := asErr(res[1]); err != rec.err {
					c.failf("error", "List of %s answers %v when the runtime answers %v", name, err, rec.err)
				}
				// the recorder runs the options a second time
				if len(ks) != 1 || ks[0].op != "List" || reflect.TypeOf(ks[0].obj) != reflect.TypeOf(o) || strings.Join(ks[0].opts, ",") != strings.Join(names, ",") {
					c.failf("passes", "List of %s with %d options gives the runtime %v", name, n, describe(ks, nil))
				} else if proto.Size(ks[0].obj.(proto.Message)) != 0 {
					c.failf("passes", "List of %s gives the runtime %v", name, ks[0].obj)
				}
				if fail && !res[0].IsNil() {
					c.failf("list-result", "List of %s answers an iterator and an error", name)
				}
			}
			c.r.Traces++
		}
	}
}

func describe(ks []call, x interface{}) string {
	var out []string
	for _, k := range ks {
		same := ""
		if x != nil && k.obj != x {
			same = ", another object than the one given"
		}
		out = append(out, fmt.Sprintf("%s(%x %T%s, options %v)", k.op, k.id, k.obj, same, k.opts))
	}
	if out == nil {
		return "nothing"
	}
	return strings.Join(out, "; ")
}

func (c *checker) deliver(t meta.StateTransition, method string) {
	var log []string
	for n := 0; n < 3; n++ {
		for _, e := range []error{nil, errRuntime} {
			rec := &recorder{log: &log, err: e}
			x := t.NewStateTransition()
			Fill(x.ProtoReflect(), n)
			before := proto.Clone(x)
			err := asErr(c.clientSet(rec).MethodByName(method).Call([]reflect.Value{reflect.ValueOf(x)})[0])
			c.r.Steps++
			ks := rec.take()
			if len(ks) != 1 || ks[0].op != "Deliver" || ks[0].obj != interface{}(x) || len(ks[0].opts) != 0 {
				c.failf("delivers", "%s gives the runtime %s", method, describe(ks, x))
			}
			if err != e {
				c.failf("error", "%s answers %v when the runtime answers %v", method, err, e)
			}
			if !proto.Equal(x, before) {
				c.failf("changes-argument", "%s changes the message it is given", method)
			}
			c.r.Traces++
		}
	}
}

// ---- histories: the generated client over a store against the store itself ----

func newStore(o meta.StateObject, def *schema.Definition) *orm.Store {
	s := orm.NewStore(objects.NewStore(newMemKV()), indexes.NewStore(newMemKV()))
	if err := s.RegisterObject(o, def); err != nil {
		panic(err)
	}
	return &s
}

func (c *checker) histories(o meta.StateObject, acc string) {
	md := o.ProtoReflect().Descriptor()
	def := declaredSchema(md)
	var pk protoreflect.FieldDescriptor
	nk := 1
	if !def.Singleton {
		pk = md.Fields().ByJSONName(def.PrimaryKey)
		nk = 2
	}
	mk := func(k, v int) meta.StateObject {
		x := o.NewStateObject()
		Fill(x.ProtoReflect(), v)
		if pk != nil {
			s := fmt.Sprintf("key%d", k)
			if pk.Kind() == protoreflect.BytesKind {
				x.ProtoReflect().Set(pk, protoreflect.ValueOfBytes([]byte(s)))
			} else {
				x.ProtoReflect().Set(pk, protoreflect.ValueOfString(s))
			}
		}
		return x
	}
	type op struct {
		name string
		k    int
	}
	var ops []op
	for k := 0; k < nk; k++ {
		for _, n := range []string{"Create", "Update", "Delete"} {
			ops = append(ops, op{n, k})
		}
	}
	a, b := newStore(o, def), newStore(o, def)
	cl := c.clientSet(&recorder{store: a}).MethodByName(acc).Call(nil)[0]
	// what both stores hold, seen through the client and directly
	look := func(h []op) {
		for k := 0; k < nk; k++ {
			x := mk(k, 1)
			want := o.NewStateObject()
			var werr error
			var args []reflect.Value
			if pk == nil {
				werr = b.Get(meta.SingletonID, want)
			} else {
				v := x.ProtoReflect().Get(pk)
				id := meta.ID(meta.NewStringID(v.String()))
				if pk.Kind() == protoreflect.BytesKind {
					id = meta.NewBytesID(v.Bytes())
				}
				werr = b.Get(id, want)
				args = append(args, reflect.ValueOf(v.Interface()))
			}
			res := cl.MethodByName("Get").Call(args)
			c.r.Steps++
			err := asErr(res[1])
			if (err == nil) != (werr == nil) || err == nil && !proto.Equal(res[0].Interface().(proto.Message), want) {
				c.failf("history-get", "%s after %v: Get(%d) answers %v, %v; the store holds %v, %v", md.FullName(), h, k, res[0], err, want, werr)
			}
		}
		if pk == nil {
			return
		}
		sel := []client.ListOption{}
		opt := orm.ListOptions{}
		if len(def.SecondaryKeys) == 0 {
			return
		}
		f := md.Fields().ByJSONName(def.SecondaryKeys[0])
		for v := 1; v <= 3; v++ {
			x := o.NewStateObject()
			Fill(x.ProtoReflect(), v)
			val := x.ProtoReflect().Get(f).Interface()
			sel = []client.ListOption{client.ListMatchFieldInterface(def.SecondaryKeys[0], val)}
			opt = orm.ListOptions{MatchFieldInterface: []orm.ListMatchFieldInterface{{Field: def.SecondaryKeys[0], Value: val}}}
			var args []reflect.Value
			for _, s := range sel {
				args = append(args, reflect.ValueOf(s))
			}
			it, werr := b.List(o, opt)
			res := cl.MethodByName("List").Call(args)
			err := asErr(res[1])
			c.r.Steps++
			if (err == nil) != (werr == nil) {
				c.failf("history-list", "%s after %v: List answers %v, the store %v", md.FullName(), h, err, werr)
			}
			if err != nil || werr != nil {
				continue
			}
			for {
				gv := res[0].MethodByName("Valid").Call(nil)[0].Bool()
				if gv != it.Valid() {
					c.failf("history-iterator", "%s after %v: the iterator is valid: %v, the store's: %v", md.FullName(), h, gv, it.Valid())
					break
				}
				if !gv {
					break
				}
				want := o.NewStateObject()
				werr := it.Get(want)
				g := res[0].MethodByName("Get").Call(nil)
				err := asErr(g[1])
				if (err == nil) != (werr == nil) || err == nil && !proto.Equal(g[0].Interface().(proto.Message), want) {
					c.failf("history-iterator", "%s after %v: the iterator is at %v, %v; the store's at %v, %v", md.FullName(), h, g[0], err, want, werr)
				}
				res[0].MethodByName("Next").Call(nil)
				it.Next()
				c.r.Steps++
			}
			it.Close()
		}
	}
	var rec func(h []op)
	rec = func(h []op) {
		c.r.Traces++
		if len(h) == c.d {
			return
		}
		for _, p := range ops {
			// both stores start empty and run the whole history
			hist := append(append([]op(nil), h...), p)
			for k := 0; k < nk; k++ {
				_ = a.Delete(mk(k, 1))
				_ = b.Delete(mk(k, 1))
			}
			for i, q := range hist {
				x := mk(q.k, i%3+1)
				var werr error
				switch q.name {
				case "Create":
					werr = b.Create(x)
				case "Update":
					werr = b.Update(x)
				case "Delete":
					werr = b.Delete(x)
				}
				err := asErr(cl.MethodByName(q.name).Call([]reflect.Value{reflect.ValueOf(mk(q.k, i%3+1))})[0])
				c.r.Steps++
				if (err == nil) != (werr == nil) {
					c.failf("history-op", "%s after %v: %s answers %v, the store %v", md.FullName(), hist[:i], q.name, err, werr)
				}
			}
			look(hist)
			rec(hist)
		}
	}
	rec(nil)
}

// Fill sets the fields of the message to values which depend on v; 0 leaves it empty.
func Fill(m protoreflect.Message, v int) { fill(m, v, 2) }

func fill(m protoreflect.Message, v, depth int) {
	if v == 0 || m.Descriptor().FullName() == "google.protobuf.Any" {
		return
	}
	one := func(fd protoreflect.FieldDescriptor) (protoreflect.Value, bool) {
		switch fd.Kind() {
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(v%2 == 1), true
		case protoreflect.EnumKind:
			vs := fd.Enum().Values()
			return protoreflect.ValueOfEnum(vs.Get(v % vs.Len()).Number()), true
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			return protoreflect.ValueOfInt32(int32(v)), true
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(uint32(v)), true
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			return protoreflect.ValueOfInt64(int64(v)), true
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(uint64(v)), true
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(float32(v)), true
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(float64(v)), true
		case protoreflect.StringKind:
			return protoreflect.ValueOfString(fmt.Sprint("v", v)), true
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes([]byte(fmt.Sprint("b", v))), true
		}
		return protoreflect.Value{}, false
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch {
		case fd.IsMap():
		case fd.Message() != nil:
			if depth == 0 || strings.HasPrefix(string(fd.Message().FullName()), "google.protobuf.") {
				continue
			}
			if fd.IsList() {
				fill(m.Mutable(fd).List().AppendMutable().Message(), v, depth-1)
			} else {
				fill(m.Mutable(fd).Message(), v, depth-1)
			}
		default:
			x, ok := one(fd)
			if !ok {
				continue
			}
			if fd.IsList() {
				m.Mutable(fd).List().Append(x)
			} else {
				m.Set(fd, x)
			}
		}
	}
}
