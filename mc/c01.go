package main

import (
	"bytes"
	"encoding/base64"
	stderr "errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	badger "github.com/dgraph-io/badger/v3"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"google.golang.org/protobuf/proto"
)

func init() { register("C01", c01) }

// objStore is the face shared by the bare object store and the runtime.
type objStore interface {
	create(o meta.StateObject) error
	update(o meta.StateObject) error
	del(o meta.StateObject) error
	get(id meta.ID, o meta.StateObject) error
	list(o meta.StateObject, opt orm.ListOptions) (orm.Iterator, error)
	notFound(err error) bool
	exists(err error) bool
	pk(o meta.StateObject, text string) ([]byte, error)
	dbs() []*badger.DB
	close()
}

type bareStore struct {
	s orm.Store
	d []*badger.DB
}

func newBareStore(regs ...regObj) *bareStore {
	k1, k2 := kv.NewBadger(), kv.NewBadger()
	s := orm.NewStore(objects.NewStore(k1), indexes.NewStore(k2))
	for _, r := range regs {
		must(s.RegisterObject(r.o, r.d))
	}
	return &bareStore{s: s, d: append(findDBs(k1), findDBs(k2)...)}
}

type regObj struct {
	o meta.StateObject
	d *schema.Definition
}

func (b *bareStore) create(o meta.StateObject) error          { return b.s.Create(o) }
func (b *bareStore) update(o meta.StateObject) error          { return b.s.Update(o) }
func (b *bareStore) del(o meta.StateObject) error             { return b.s.Delete(o) }
func (b *bareStore) get(id meta.ID, o meta.StateObject) error { return b.s.Get(id, o) }
func (b *bareStore) list(o meta.StateObject, opt orm.ListOptions) (orm.Iterator, error) {
	return b.s.List(o, opt)
}
func (b *rtStore) list(o meta.StateObject, opt orm.ListOptions) (orm.Iterator, error) {
	return b.rt.List(o, opt)
}
func (b *bareStore) notFound(err error) bool { return stderr.Is(err, orm.ErrNotFound) }
func (b *bareStore) exists(err error) bool   { return err != nil }
func (b *bareStore) pk(o meta.StateObject, t string) ([]byte, error) {
	sch, err := b.s.SchemaRegistry().Get(o)
	if err != nil {
		return nil, err
	}
	return sch.EncodePrimaryKeyString(t)
}
func (b *bareStore) dbs() []*badger.DB { return b.d }
func (b *bareStore) close() {
	for _, d := range b.d {
		_ = d.Close()
	}
}

type funcModule func(c module.Client) module.Descriptor

func (f funcModule) Initialize(c module.Client) module.Descriptor { return f(c) }

type rtStore struct {
	rt *runtime.Runtime
	d  []*badger.DB
	u  user.Users
	pb *bareStore
}

func newRtStore(regs ...regObj) *rtStore {
	b := runtime.NewBuilder()
	b.AddModule(funcModule(func(c module.Client) module.Descriptor {
		d := module.NewDescriptorBuilder().Named("mcstore")
		for _, r := range regs {
			d.OwnsStateObject(r.o, r.d)
		}
		return d.Build()
	}))
	rt, err := b.Build()
	must(err)
	return &rtStore{rt: rt, d: findDBs(rt), u: user.NewUsersFromString("mcstore"), pb: newBareStore(regs...)}
}

func (b *rtStore) create(o meta.StateObject) error                 { return b.rt.Create(b.u, o) }
func (b *rtStore) update(o meta.StateObject) error                 { return b.rt.Update(b.u, o) }
func (b *rtStore) del(o meta.StateObject) error                    { return b.rt.Delete(b.u, o) }
func (b *rtStore) get(id meta.ID, o meta.StateObject) error        { return b.rt.Get(id, o) }
func (b *rtStore) notFound(err error) bool                         { return stderr.Is(err, rterr.ErrNotFound) }
func (b *rtStore) exists(err error) bool                           { return err != nil }
func (b *rtStore) pk(o meta.StateObject, t string) ([]byte, error) { return b.pb.pk(o, t) }
func (b *rtStore) dbs() []*badger.DB                               { return b.d }
func (b *rtStore) close() {
	for _, d := range b.d {
		_ = d.Close()
	}
	b.pb.close()
}

func kindSchema() *schema.Definition { return &schema.Definition{PrimaryKey: "theId"} }
func oneSchema() *schema.Definition  { return &schema.Definition{Singleton: true} }
func idxSchema() *schema.Definition {
	return &schema.Definition{PrimaryKey: "id", SecondaryKeys: append([]string{}, idxKeys...)}
}

func allRegs() []regObj {
	t := stTypes()
	var r []regObj
	for _, k := range append(append([]string{}, kindNames...), "st") {
		r = append(r, regObj{t.byKind[k].obj(), kindSchema()})
	}
	return append(r, regObj{t.single.obj(), oneSchema()}, regObj{t.singleX.obj(), oneSchema()},
		regObj{t.idx.obj(), idxSchema()}, regObj{t.idxX.obj(), idxSchema()})
}

// slot is one addressable object.
type slot struct {
	name string
	mk   func() *DynObj
	id   func(s objStore) meta.ID
}

func strSlot(t *dynType, field, key string) slot {
	return slot{name: string(t.md.Name()) + ":" + key,
		mk: func() *DynObj { return t.obj().set(field, key) },
		id: func(objStore) meta.ID { return meta.NewStringID(key) }}
}

// keySlot addresses an object by a key of any kind.
func keySlot(kind string, key interface{}) slot {
	t := stTypes().byKind[kind]
	return slot{name: fmt.Sprintf("%s:%v", kind, trunc(fmt.Sprint(key), 40)),
		mk: func() *DynObj { return t.obj().set("the_id", key) },
		id: func(s objStore) meta.ID {
			switch k := key.(type) {
			case string:
				return meta.NewStringID(k)
			case []byte:
				return meta.NewBytesID(append([]byte{}, k...))
			}
			b, err := s.pk(t.obj(), keyText(key))
			if err != nil {
				hp("encode %v: %v", key, err)
			}
			return meta.NewBytesID(b)
		}}
}

func keyText(key interface{}) string {
	switch k := key.(type) {
	case string:
		return k
	case []byte:
		return base64.RawStdEncoding.EncodeToString(k)
	case bool:
		return strconv.FormatBool(k)
	default:
		return fmt.Sprint(k)
	}
}

func historySlots() []slot {
	t := stTypes()
	return []slot{
		keySlot("string", "a"),
		keySlot("st", "ringa"),
		keySlot("string", "ab"),
		{name: "One", mk: func() *DynObj { return t.single.obj() }, id: func(objStore) meta.ID { return meta.SingletonID }},
		strSlot(t.idx, "id", "a"),
		keySlot("int32", int32(97)),
		{name: "OneX", mk: func() *DynObj { return t.singleX.obj() }, id: func(objStore) meta.ID { return meta.SingletonID }},
		keySlot("st", "a"),
		keySlot("string", "unique"),
	}
}

// content fills the non-key fields with the n-th content; contents differ in which fields are set.
func content(o *DynObj, n int) *DynObj {
	switch n % 4 {
	case 0:
		o.set("val", fmt.Sprintf("v%d", n))
		if fd := o.m.Descriptor().Fields().ByName("num"); fd != nil {
			o.set("num", uint64(n)+1)
			l := o.m.NewField(o.m.Descriptor().Fields().ByName("tags")).List()
			l.Append(protoStr("x"))
			l.Append(protoStr(strconv.Itoa(n)))
			o.set("tags", l)
		}
	case 1:
		o.set("val", fmt.Sprintf("v%d", n))
	case 2:
		if o.m.Descriptor().Fields().ByName("num") != nil {
			o.set("num", uint64(n))
		} else {
			o.set("s", fmt.Sprint(n))
		}
	case 3: // nothing but the key
	}
	return o
}

// scribble changes every non-key field of an object already handed over.
func scribble(o *DynObj) {
	o.set("val", "scribbled")
	if o.m.Descriptor().Fields().ByName("num") != nil {
		o.set("num", uint64(999))
		o.m.Mutable(o.m.Descriptor().Fields().ByName("tags")).List().Append(protoStr("scribble"))
	}
}

// checkAll compares every slot with the model.
func checkAll(s objStore, slots []slot, model map[int]proto.Message) *Fail {
	for i, sl := range slots {
		for dirty := 0; dirty < 2; dirty++ {
			got := sl.mk().New()
			if dirty == 1 {
				content(got, 0)
			}
			err := s.get(sl.id(s), got)
			want, ok := model[i]
			if !ok {
				if err == nil {
					return failf("ghost", "get %s returned %v, but no such object exists", sl.name, got)
				}
				if !s.notFound(err) {
					return failf("get-error", "get %s of an absent object: %v is not a not-found error", sl.name, err)
				}
				continue
			}
			if err != nil {
				return failf("lost", "get %s: %v, want %v", sl.name, err, want)
			}
			if !proto.Equal(got, want) {
				return failf("wrong", "get %s (dirty target: %v) returned %v, want %v", sl.name, dirty == 1, got, want)
			}
			scribble(got)
		}
	}
	return nil
}

type mapStep struct {
	Verb int `json:"verb"` // 0 create, 1 update, 2 delete
	Slot int `json:"slot"`
}

var verbNames = []string{"create", "update", "delete"}

// applyMap performs one operation on the store and the model and compares.
func applyMap(s objStore, slots []slot, model map[int]proto.Message, st mapStep, n int, deep bool) *Fail {
	sl := slots[st.Slot]
	o := content(sl.mk(), n)
	want := proto.Clone(o)
	_, present := model[st.Slot]
	var before Dump
	wantOK := present
	if st.Verb == 0 {
		wantOK = !present
	}
	if deep && !wantOK {
		before = dump(s.dbs())
	}
	var err error
	switch st.Verb {
	case 0:
		err = s.create(o)
	case 1:
		err = s.update(o)
	case 2:
		err = s.del(o)
	}
	if (err == nil) != wantOK {
		return failf(verbNames[st.Verb]+"-outcome", "%s %s: error %v, but object present=%v", verbNames[st.Verb], sl.name, err, present)
	}
	if err != nil {
		if st.Verb != 0 && !s.notFound(err) {
			return failf("error-kind", "%s %s of an absent object: %v is not a not-found error", verbNames[st.Verb], sl.name, err)
		}
		if deep {
			if after := dump(s.dbs()); !before.equal(after) {
				return failf("failed-op-effect", "failed %s %s changed the store:%s", verbNames[st.Verb], sl.name, before.diff(after))
			}
		}
	} else if st.Verb == 2 {
		delete(model, st.Slot)
	} else {
		model[st.Slot] = want
	}
	if !proto.Equal(o, want) {
		return failf("argument-mutated", "%s %s changed its argument to %v from %v", verbNames[st.Verb], sl.name, o, want)
	}
	scribble(o)
	return nil
}

func modelDigest(model map[int]proto.Message) string {
	var b strings.Builder
	for i := 0; i < 64; i++ {
		if m, ok := model[i]; ok {
			fmt.Fprintf(&b, "%d=%v;", i, m)
		}
	}
	return b.String()
}

func presence(model map[int]proto.Message) string {
	var b strings.Builder
	for i := 0; i < 64; i++ {
		if _, ok := model[i]; ok {
			fmt.Fprintf(&b, "%d,", i)
		}
	}
	return b.String()
}

type keyCase struct {
	Kind string   `json:"kind"`
	Strs []string `json:"strs,omitempty"` // keys as text (base64 for bytes, Go syntax for strings via JSON)
	Raw  [][]byte `json:"raw,omitempty"`
}

func parseKey(kind, text string) interface{} {
	switch kind {
	case "bool":
		return text == "true"
	case "int32":
		n, err := strconv.ParseInt(text, 10, 32)
		must(err)
		return int32(n)
	case "uint32":
		n, err := strconv.ParseUint(text, 10, 32)
		must(err)
		return uint32(n)
	case "int64":
		n, err := strconv.ParseInt(text, 10, 64)
		must(err)
		return n
	case "uint64":
		n, err := strconv.ParseUint(text, 10, 64)
		must(err)
		return n
	}
	hp("kind %s", kind)
	return nil
}

// edgeInts lists boundary values of every integer width as text, filtered by kind.
func edgeInts(kind string) []string {
	set := map[string]bool{}
	var out []string
	add := func(s string) {
		if !set[s] {
			set[s] = true
			out = append(out, s)
		}
	}
	var lo int64
	var hi uint64
	switch kind {
	case "int32":
		lo, hi = math.MinInt32, math.MaxInt32
	case "uint32":
		lo, hi = 0, math.MaxUint32
	case "int64":
		lo, hi = math.MinInt64, math.MaxInt64
	case "uint64":
		lo, hi = 0, math.MaxUint64
	}
	for i := int64(-300); i <= 300; i++ {
		if i < 0 && i < lo || i < 0 && lo == 0 {
			continue
		}
		add(strconv.FormatInt(i, 10))
	}
	for sh := uint(7); sh < 64; sh++ {
		for d := int64(-1); d <= 1; d++ {
			u := uint64(1)<<sh + uint64(d)
			if u <= hi {
				add(strconv.FormatUint(u, 10))
			}
			n := -int64(uint64(1)<<sh) + d
			if lo < 0 && n < 0 && n >= lo {
				add(strconv.FormatInt(n, 10))
			}
		}
	}
	add(strconv.FormatUint(hi, 10))
	add(strconv.FormatInt(lo, 10))
	return out
}

// edgeStrings lists keys by length and by content.
func edgeStrings(thorough bool) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for l := 1; l <= 300; l++ {
		add(strings.Repeat("a", l))
	}
	for _, l := range []int{511, 512, 1023, 1024, 2047, 2048, 4096, 8192, 16382, 16383, 16384, 16385, 16386, 32767, 32768, 60000} {
		add(strings.Repeat("a", l))
		add(strings.Repeat("a", l-1) + "b")
	}
	for _, l := range []int{126, 127, 128, 129, 130, 255, 256} {
		add(strings.Repeat("a", l-1) + "b")
		add("b" + strings.Repeat("a", l-1))
		add(strings.Repeat("\x01", l))
		add("\x01" + strings.Repeat("a", l))
		add(string([]byte{0x01}) + strings.Repeat("\x01", l))
	}
	parts := []string{"a", "b", "/", "\x00", " ", "é", "unique", "%", ".", "\n", "\x7f"}
	for _, x := range parts {
		add(x)
		for _, y := range parts {
			add(x + y)
			if thorough {
				for _, z := range parts {
					add(x + y + z)
				}
			}
		}
	}
	for c := 1; c < 128; c++ {
		add(string(rune(c)))
	}
	return out
}

func edgeBytes(thorough bool) [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if len(b) > 0 && !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	for _, s := range edgeStrings(thorough) {
		add([]byte(s))
	}
	for c := 0; c < 256; c++ {
		add([]byte{byte(c)})
		add([]byte{byte(c), 0})
		add([]byte{byte(c), 0xff})
		add([]byte{0xff, byte(c)})
	}
	for _, l := range []int{127, 128, 129, 255, 16384} {
		add(bytes.Repeat([]byte{0xff}, l))
		add(bytes.Repeat([]byte{0x80}, l))
	}
	return out
}

func keyCases(thorough bool) []keyCase {
	var out []keyCase
	for _, k := range kindNames {
		switch k {
		case "bool":
			out = append(out, keyCase{Kind: k, Strs: []string{"false", "true"}})
		case "string":
			out = append(out, keyCase{Kind: k, Strs: edgeStrings(thorough)})
		case "bytes":
			out = append(out, keyCase{Kind: k, Raw: edgeBytes(thorough)})
		default:
			out = append(out, keyCase{Kind: k, Strs: edgeInts(k)})
		}
	}
	return out
}

func (kc keyCase) slots() []slot {
	var ss []slot
	for _, s := range kc.Strs {
		if kc.Kind == "string" {
			ss = append(ss, keySlot("string", s))
		} else {
			ss = append(ss, keySlot(kc.Kind, parseKey(kc.Kind, s)))
		}
	}
	for _, b := range kc.Raw {
		ss = append(ss, keySlot("bytes", b))
	}
	return ss
}

// checkSome compares the slots in idx (all when nil).
func getMatches(s objStore, sl slot, want proto.Message) *Fail {
	got := sl.mk().New()
	err := s.get(sl.id(s), got)
	if want == nil {
		if err == nil {
			return failf("ghost", "get %s returned %v, but no such object exists", sl.name, got)
		}
		if !s.notFound(err) {
			return failf("get-error", "get %s of an absent object: %v is not a not-found error", sl.name, err)
		}
		return nil
	}
	if err != nil {
		return failf("lost", "get %s: %v, want %v", sl.name, trunc(err.Error(), 300), trunc(fmt.Sprint(want), 300))
	}
	if !proto.Equal(got, want) {
		return failf("wrong", "get %s returned %v, want %v", sl.name, trunc(got.String(), 300), trunc(fmt.Sprint(want), 300))
	}
	return nil
}

var storeKinds = map[string]func() objStore{
	"bare": func() objStore { return newBareStore(allRegs()...) },
	"rt":   func() objStore { return newRtStore(allRegs()...) },
}

// pooled returns an empty store that the worker reuses between executions; it is replaced
// by a newly opened one every so often. A failure is only reported after it repeats on
// stores opened for it alone.
func pooled(w *Worker, kind string) objStore {
	type pool struct {
		s objStore
		n int
		e Dump
	}
	p, _ := w.S["pool:"+kind].(*pool)
	if p == nil {
		p = &pool{}
		w.S["pool:"+kind] = p
		w.OnClose(func() {
			if p.s != nil {
				p.s.close()
			}
		})
	}
	if p.s != nil && p.n >= 150 {
		p.s.close()
		p.s, p.n = nil, 0
	}
	if p.s == nil {
		p.s = storeKinds[kind]()
		p.e = dump(p.s.dbs())
	} else {
		restore(p.s.dbs(), p.e)
	}
	p.n++
	return p.s
}

func c01(c *Ctx) {
	c.Rule = "operation histories over colliding (type, key) slots, each step compared with a Go map by reading every slot; all edge keys of every key type stored together; populations of every size up to 5001 objects and 66 types"
	c.Assumptions = []string{"Badger in-memory stores and retrieves keys of at most 65000 bytes; longer keys are outside the alphabet"}
	slots := historySlots()

	runHist := func(mk string, n int) func(w *Worker, h []mapStep) *Fail {
		return func(w *Worker, h []mapStep) *Fail {
			s := pooled(w, mk)
			model := map[int]proto.Message{}
			for i, st := range h {
				if f := applyMap(s, slots[:n], model, st, i, true); f != nil {
					f.Msg = fmt.Sprintf("step %d: %s", i, f.Msg)
					return f
				}
				if f := checkAll(s, slots[:n], model); f != nil {
					f.Msg = fmt.Sprintf("after step %d (%s %s): %s", i, verbNames[st.Verb], slots[st.Slot].name, f.Msg)
					return f
				}
				c.State(modelDigest(model))
			}
			c.Outcome(presence(model))
			addN(&c.Transitions, len(h))
			addN(&c.Traces, 1)
			return nil
		}
	}
	gen := func(n, depth int) func(emit func([]mapStep) bool) {
		return func(emit func([]mapStep) bool) {
			wordsLen(3*n, depth, func(w []int) bool {
				h := make([]mapStep, len(w))
				for i, x := range w {
					h[i] = mapStep{Verb: x % 3, Slot: x / 3}
				}
				return emit(h)
			})
		}
	}
	bare, rts := "bare", "rt"
	if c.Thorough {
		Explore(c, "store-depth3-slots9", gen(9, 3), runHist(bare, 9))
		Explore(c, "store-depth4-slots6", gen(6, 4), runHist(bare, 6))
		Explore(c, "store-depth5-slots4", gen(4, 5), runHist(bare, 4))
		Explore(c, "runtime-depth3-slots9", gen(9, 3), runHist(rts, 9))
		Explore(c, "runtime-depth4-slots4", gen(4, 4), runHist(rts, 4))
	} else {
		Explore(c, "store-depth3-slots9", gen(9, 3), runHist(bare, 9))
		Explore(c, "store-depth4-slots4", gen(4, 4), runHist(bare, 4))
		Explore(c, "runtime-depth2-slots9", gen(9, 2), runHist(rts, 9))
		Explore(c, "runtime-depth3-slots4", gen(4, 3), runHist(rts, 4))
	}

	// long-lived systems: every 3-gram (4-gram) of operations on a system never reset
	type walkCase struct {
		RT  bool      `json:"runtime"`
		N   int       `json:"slots"`
		K   int       `json:"k"`
		Seq []mapStep `json:"seq"`
	}
	Explore(c, "walk", func(emit func(walkCase) bool) {
		mk := func(rt bool, n, k int) walkCase {
			wc := walkCase{RT: rt, N: n, K: k}
			for _, x := range deBruijn(3*n, k) {
				wc.Seq = append(wc.Seq, mapStep{Verb: x % 3, Slot: x / 3})
			}
			return wc
		}
		emit(mk(true, 5, 3))
		emit(mk(false, 9, 3))
		if c.Thorough {
			emit(mk(true, 4, 4))
			emit(mk(true, 9, 3))
			emit(mk(false, 4, 4))
			emit(mk(false, 3, 5))
		}
	}, func(w *Worker, wc walkCase) *Fail {
		var s objStore
		if wc.RT {
			s = newRtStore(allRegs()...)
		} else {
			s = newBareStore(allRegs()...)
		}
		defer s.close()
		model := map[int]proto.Message{}
		for i, st := range wc.Seq {
			if f := applyMap(s, slots[:wc.N], model, st, i, i%16 == 0); f != nil {
				f.Msg = fmt.Sprintf("step %d: %s", i, f.Msg)
				return f
			}
			if f := checkAll(s, slots[:wc.N], model); f != nil {
				f.Msg = fmt.Sprintf("after step %d (%s %s): %s", i, verbNames[st.Verb], slots[st.Slot].name, f.Msg)
				return f
			}
		}
		addN(&c.Transitions, len(wc.Seq))
		addN(&c.Traces, 1)
		return nil
	})

	// every edge key of a type, together in one store
	Explore(c, "keys", func(emit func(keyCase) bool) {
		for _, kc := range keyCases(c.Thorough) {
			if !emit(kc) {
				return
			}
		}
	}, func(w *Worker, kc keyCase) *Fail {
		s := newBareStore(allRegs()...)
		defer s.close()
		ss := kc.slots()
		want := make([]proto.Message, len(ss))
		sweep := func(stage string) *Fail {
			for i := range ss {
				if f := getMatches(s, ss[i], want[i]); f != nil {
					f.Msg = stage + ": " + f.Msg
					return f
				}
			}
			return nil
		}
		for i := range ss {
			if f := getMatches(s, ss[i], nil); f != nil {
				return f
			}
			o := content(ss[i].mk(), 4*i+1)
			if err := s.create(o); err != nil {
				return failf("create-outcome", "create %s refused: %v", ss[i].name, trunc(err.Error(), 300))
			}
			want[i] = o
			if f := getMatches(s, ss[i], o); f != nil {
				return f
			}
			if err := s.create(content(ss[i].mk(), 4*i+4)); err == nil {
				return failf("create-outcome", "second create of %s succeeded", ss[i].name)
			}
		}
		if f := sweep("after creating all"); f != nil {
			return f
		}
		for i := range ss {
			o := content(ss[i].mk(), 4*i+4)
			if err := s.update(o); err != nil {
				return failf("update-outcome", "update %s refused: %v", ss[i].name, trunc(err.Error(), 300))
			}
			want[i] = o
			if i+1 < len(ss) {
				if f := getMatches(s, ss[i+1], want[i+1]); f != nil {
					return f
				}
			}
		}
		if f := sweep("after updating all"); f != nil {
			return f
		}
		for i := range ss {
			if err := s.del(ss[i].mk()); err != nil {
				return failf("delete-outcome", "delete %s refused: %v", ss[i].name, trunc(err.Error(), 300))
			}
			want[i] = nil
			if err := s.del(ss[i].mk()); err == nil {
				return failf("delete-outcome", "second delete of %s succeeded", ss[i].name)
			}
			if i%37 == 0 || len(ss) < 50 {
				if f := sweep(fmt.Sprintf("after deleting %d", i)); f != nil {
					return f
				}
			} else if i+1 < len(ss) {
				if f := getMatches(s, ss[i+1], want[i+1]); f != nil {
					return f
				}
			}
		}
		addN(&c.Transitions, 5*len(ss))
		addN(&c.Traces, 1)
		c.Outcome("keys " + kc.Kind)
		return nil
	})

	// the empty key is refused, by every operation, without effect
	type emptyCase struct{ Kind, Verb string }
	Explore(c, "empty-key", func(emit func(emptyCase) bool) {
		for _, k := range []string{"string", "bytes"} {
			for _, v := range []string{"create", "update", "delete", "get"} {
				emit(emptyCase{k, v})
				emit(emptyCase{"rt-" + k, v})
			}
		}
	}, func(w *Worker, ec emptyCase) *Fail {
		var s objStore
		if strings.HasPrefix(ec.Kind, "rt-") {
			s = newRtStore(allRegs()...)
		} else {
			s = newBareStore(allRegs()...)
		}
		defer s.close()
		t := stTypes().byKind[strings.TrimPrefix(ec.Kind, "rt-")]
		before := dump(s.dbs())
		var err error
		o := content(t.obj(), 1)
		switch ec.Verb {
		case "create":
			err = s.create(o)
		case "update":
			err = s.update(o)
		case "delete":
			err = s.del(o)
		case "get":
			err = s.get(meta.NewStringID(""), o)
		}
		if err == nil {
			return failf("empty-key", "%s with an empty %s key succeeded", ec.Verb, ec.Kind)
		}
		if after := dump(s.dbs()); !before.equal(after) {
			return failf("empty-key", "%s with an empty %s key had an effect:%s", ec.Verb, ec.Kind, before.diff(after))
		}
		addN(&c.Transitions, 1)
		return nil
	})

	// object contents: sizes and zero values survive exactly
	type sizeCase struct{ Size int }
	Explore(c, "content-sizes", func(emit func(sizeCase) bool) {
		for i := 0; i <= 300; i++ {
			emit(sizeCase{i})
		}
		for _, n := range []int{1023, 1024, 1025, 4095, 4096, 16383, 16384, 65535, 65536, 1 << 20} {
			emit(sizeCase{n})
		}
	}, func(w *Worker, sc sizeCase) *Fail {
		s, _ := w.S["st"].(*bareStore)
		if s == nil {
			s = newBareStore(allRegs()...)
			w.S["st"] = s
			w.OnClose(s.close)
		}
		sl := keySlot("string", "k"+strconv.Itoa(sc.Size))
		o := sl.mk().set("val", strings.Repeat("z", sc.Size)).set("num", uint64(sc.Size))
		if err := s.create(o); err != nil {
			return failf("create-outcome", "create with a value of %d bytes refused: %v", sc.Size, err)
		}
		if f := getMatches(s, sl, o); f != nil {
			return f
		}
		o.set("val", "small")
		if err := s.update(o); err != nil {
			return failf("update-outcome", "%v", err)
		}
		if f := getMatches(s, sl, o); f != nil {
			return f
		}
		o.set("val", strings.Repeat("y", sc.Size))
		if err := s.update(o); err != nil {
			return failf("update-outcome", "%v", err)
		}
		f := getMatches(s, sl, o)
		if err := s.del(o); err != nil {
			return failf("delete-outcome", "%v", err)
		}
		addN(&c.Transitions, 4)
		return f
	})

	manyObjects(c)
	manyTypesStore(c)
}
