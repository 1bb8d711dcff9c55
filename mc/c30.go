package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/gorilla/mux"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"gopkg.in/yaml.v3"
)

func init() { register("C30", c30) }

// ---- reading a document ----

type oaNode = yaml.Node

// oaMap reads a mapping, whose keys must be distinct.
func oaMap(n *oaNode, what string) (map[string]*oaNode, []string, *Fail) {
	m := map[string]*oaNode{}
	if n == nil {
		return m, nil, nil
	}
	if n.Kind != yaml.MappingNode {
		return nil, nil, failf("malformed", "%s is not a mapping", what)
	}
	var keys []string
	for i := 0; i+1 < len(n.Content); i += 2 {
		k := n.Content[i].Value
		if _, dup := m[k]; dup {
			return nil, nil, failf("duplicate", "%s has %q twice", what, k)
		}
		m[k] = n.Content[i+1]
		keys = append(keys, k)
	}
	return m, keys, nil
}

func oaGet(n *oaNode, path ...string) *oaNode {
	for _, p := range path {
		if n == nil || n.Kind != yaml.MappingNode {
			return nil
		}
		var x *oaNode
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i].Value == p {
				x = n.Content[i+1]
			}
		}
		n = x
	}
	return n
}

func oaStr(n *oaNode, path ...string) string {
	if x := oaGet(n, path...); x != nil && x.Kind == yaml.ScalarNode {
		return x.Value
	}
	return ""
}

const oaRefPrefix = "#/components/schemas/"

type oaDoc struct {
	root    *oaNode
	paths   map[string]*oaNode
	schemas map[string]*oaNode
}

func parseOA(body []byte) (*oaDoc, *Fail) {
	var n oaNode
	if err := yaml.Unmarshal(body, &n); err != nil || len(n.Content) != 1 {
		return nil, failf("malformed", "the document cannot be read: %v", err)
	}
	d := &oaDoc{root: n.Content[0]}
	var f *Fail
	if d.paths, _, f = oaMap(oaGet(d.root, "paths"), "paths"); f != nil {
		return nil, f
	}
	if d.schemas, _, f = oaMap(oaGet(d.root, "components", "schemas"), "schemas"); f != nil {
		return nil, f
	}
	return d, nil
}

// refs visits every reference of the document.
func (d *oaDoc) refs(n *oaNode, at string, f func(at, ref string) *Fail) *Fail {
	if n == nil {
		return nil
	}
	if n.Kind == yaml.MappingNode {
		for i := 0; i+1 < len(n.Content); i += 2 {
			k, v := n.Content[i].Value, n.Content[i+1]
			if k == "$ref" && v.Kind == yaml.ScalarNode {
				if e := f(at, v.Value); e != nil {
					return e
				}
			}
			if e := d.refs(v, at+"/"+k, f); e != nil {
				return e
			}
		}
		return nil
	}
	for _, x := range n.Content {
		if e := d.refs(x, at, f); e != nil {
			return e
		}
	}
	return nil
}

// ---- what the document has to say ----

// wellKnown messages have JSON forms of their own.
func wellKnown(n protoreflect.FullName) bool { return strings.HasPrefix(string(n), "google.protobuf.") }

func oaScalar(k protoreflect.Kind) string {
	switch k {
	case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.EnumKind:
		return "string"
	case protoreflect.Int64Kind, protoreflect.Uint64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind:
		return "string" // JSON numbers do not hold them
	case protoreflect.Int32Kind, protoreflect.Uint32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind:
		return "integer"
	case protoreflect.BoolKind:
		return "boolean"
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		return "number"
	}
	return ""
}

// judgeValue judges the description of one value of the field.
func judgeValue(at string, n *oaNode, fd protoreflect.FieldDescriptor) *Fail {
	ref, ty := oaStr(n, "$ref"), oaStr(n, "type")
	if fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind {
		if wellKnown(fd.Message().FullName()) && ref == "" && ty != "" {
			return nil
		}
		if want := oaRefPrefix + string(fd.Message().FullName()); ref != want {
			return failf("field-type", "%s is described by %q (type %q), want a reference to %s", at, ref, ty, want)
		}
		return nil
	}
	if want := oaScalar(fd.Kind()); ty != want || ref != "" {
		return failf("field-type", "%s (%s) is described as %q%s, its JSON form is a %s", at, fd.Kind(), ty, ref, want)
	}
	return nil
}

// judgeMessage judges the schema of a message.
func (d *oaDoc) judgeMessage(md protoreflect.MessageDescriptor) *Fail {
	name := string(md.FullName())
	n := d.schemas[name]
	if n == nil {
		return failf("no-schema", "there is no schema of %s", name)
	}
	if wellKnown(md.FullName()) {
		return nil
	}
	props, _, f := oaMap(oaGet(n, "properties"), "the properties of "+name)
	if f != nil {
		return f
	}
	if ty := oaStr(n, "type"); ty != "" && ty != "object" {
		return failf("message-type", "the schema of message %s is a %s", name, ty)
	}
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		p := props[fd.JSONName()]
		at := name + "." + fd.JSONName()
		if p == nil {
			return failf("no-field", "the schema of %s lacks field %s (it has %v)", name, fd.JSONName(), sortedKeys(props))
		}
		delete(props, fd.JSONName())
		if fd.IsList() {
			if oaStr(p, "type") != "array" || oaStr(p, "$ref") != "" {
				return failf("field-type", "the repeated field %s is described as %q", at, oaStr(p, "type")+oaStr(p, "$ref"))
			}
			items := oaGet(p, "items")
			if items == nil || items.Kind != yaml.MappingNode {
				return failf("field-type", "the repeated field %s does not say what it is a list of", at)
			}
			if f := judgeValue(at+"[]", items, fd); f != nil {
				return f
			}
			continue
		}
		if f := judgeValue(at, p, fd); f != nil {
			return f
		}
	}
	if len(props) != 0 {
		return failf("extra-field", "the schema of %s has fields the message has not: %v", name, sortedKeys(props))
	}
	return nil
}

// closure lists the messages reachable from the objects.
func closure(regs []regObj) []protoreflect.MessageDescriptor {
	seen := map[protoreflect.FullName]bool{}
	var out []protoreflect.MessageDescriptor
	var walk func(md protoreflect.MessageDescriptor)
	walk = func(md protoreflect.MessageDescriptor) {
		if seen[md.FullName()] {
			return
		}
		seen[md.FullName()] = true
		out = append(out, md)
		if wellKnown(md.FullName()) {
			return
		}
		for i := 0; i < md.Fields().Len(); i++ {
			if m := md.Fields().Get(i).Message(); m != nil {
				walk(m)
			}
		}
	}
	for _, r := range regs {
		walk(r.o.ProtoReflect().Descriptor())
	}
	return out
}

func oaPathKey(p string) string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") {
			s = "{}"
		}
		out = append(out, s)
	}
	return strings.Join(out, "/")
}

// judgeDoc judges the document served for the objects.
func judgeDoc(body []byte, regs []regObj, h *mux.Router) (*oaDoc, *Fail) {
	d, f := parseOA(body)
	if f != nil {
		return nil, f
	}
	// references
	if f := d.refs(d.root, "", func(at, ref string) *Fail {
		if !strings.HasPrefix(ref, oaRefPrefix) || d.schemas[strings.TrimPrefix(ref, oaRefPrefix)] == nil {
			return failf("dangling-reference", "%s refers to %s, which the document does not have", at, ref)
		}
		return nil
	}); f != nil {
		return nil, f
	}
	// paths
	got := map[string]*oaNode{}
	for p, n := range d.paths {
		k := oaPathKey(p)
		if got[k] != nil {
			return nil, failf("paths", "the path %s is described twice", k)
		}
		got[k] = n
	}
	type wantPath struct {
		o    meta.StateObject
		list bool
	}
	ids := map[string]string{}
	want := map[string]wantPath{}
	for _, r := range regs {
		if r.d.Singleton {
			want[singlePath(r.o)] = wantPath{r.o, false}
		} else {
			want[singlePath(r.o)+"/{}"] = wantPath{r.o, false}
			want[singlePath(r.o)+"s"] = wantPath{r.o, true}
		}
	}
	for _, p := range sortedKeys(want) {
		w := want[p]
		n := got[p]
		if n == nil {
			return nil, failf("path-missing", "the path %s is not described (described: %v)", p, sortedKeys(got))
		}
		delete(got, p)
		ops, _, f := oaMap(n, p)
		if f != nil {
			return nil, f
		}
		for op := range ops {
			switch op {
			case "put", "post", "delete", "options", "head", "patch", "trace":
				return nil, failf("methods", "%s is described with method %s", p, op)
			}
		}
		// the operation has a name of its own, and parameters
		id := oaStr(ops["get"], "operationId")
		if o, dup := ids[id]; dup || id == "" {
			return nil, failf("operation-id", "%s and %s have the operation id %q", p, o, id)
		}
		ids[id] = p
		if f := judgeParams(p, ops["get"], w.list); f != nil {
			return nil, f
		}
		content := oaGet(ops["get"], "responses", "200", "content")
		cs, _, f := oaMap(content, p)
		if f != nil {
			return nil, f
		}
		ref := oaStr(cs["application/json"], "schema", "$ref")
		if !strings.HasPrefix(ref, oaRefPrefix) {
			return nil, failf("no-response-schema", "%s has no response schema (%q)", p, ref)
		}
		name := string(w.o.ProtoReflect().Descriptor().FullName())
		if !w.list {
			if ref != oaRefPrefix+name {
				return nil, failf("response-schema", "%s answers with %s, the document says %s", p, name, ref)
			}
			continue
		}
		lp, _, f := oaMap(oaGet(d.schemas[strings.TrimPrefix(ref, oaRefPrefix)], "properties"), ref)
		if f != nil {
			return nil, f
		}
		if len(lp) != 1 {
			return nil, failf("list-schema", "%s of %s has fields %v", ref, p, sortedKeys(lp))
		}
		for k, x := range lp {
			if oaStr(x, "type") != "array" || oaStr(x, "items", "$ref") != oaRefPrefix+name {
				return nil, failf("list-schema", "the field %s of %s, served at %s, is not a list of %s", k, ref, p, name)
			}
		}
	}
	if len(got) != 0 {
		return nil, failf("path-extra", "described but not served: %v", sortedKeys(got))
	}
	if h != nil {
		served := map[string]bool{}
		must(h.Walk(func(r *mux.Route, _ *mux.Router, _ []*mux.Route) error {
			if t, err := r.GetPathTemplate(); err == nil && t != "/spec" {
				served[oaPathKey(t)] = true
			}
			return nil
		}))
		for p := range served {
			if _, ok := want[p]; !ok {
				return nil, failf("path-missing", "%s is served but not described", p)
			}
		}
		for p := range want {
			if !served[p] {
				return nil, failf("path-extra", "%s is described but not served", p)
			}
		}
	}
	for _, md := range closure(regs) {
		// messages of well-known types may be described in place
		if wellKnown(md.FullName()) {
			continue
		}
		if f := d.judgeMessage(md); f != nil {
			return nil, f
		}
	}
	return d, nil
}

// judgeParams judges the parameters an operation is described with.
func judgeParams(p string, op *oaNode, list bool) *Fail {
	in := map[string]string{}
	if ps := oaGet(op, "parameters"); ps != nil {
		for _, x := range ps.Content {
			n := oaStr(x, "name")
			if in[n] != "" {
				return failf("parameters", "%s has the parameter %q twice", p, n)
			}
			in[n] = oaStr(x, "in")
			if in[n] == "path" && oaStr(x, "required") != "true" {
				return failf("parameters", "the path parameter %q of %s is not required", n, p)
			}
			if oaStr(x, "schema", "type") == "" && oaStr(x, "schema", "$ref") == "" {
				return failf("parameters", "the parameter %q of %s has no type", n, p)
			}
		}
	}
	paths := 0
	for n, where := range in {
		switch where {
		case "path":
			paths++
		case "query":
			if !list {
				return failf("parameters", "%s takes no query, described is %q", p, n)
			}
		default:
			if where != "header" && where != "cookie" {
				return failf("parameters", "the parameter %q of %s is in %q", n, p, where)
			}
		}
	}
	if want := strings.Count(p, "{}"); paths != want {
		return failf("parameters", "%s is described with %d path parameters, it has %d", p, paths, want)
	}
	for _, n := range []string{router.QueryParamSelectField, router.QueryParamStart, router.QueryParamEnd} {
		if list && in[n] != "query" {
			return failf("parameters", "%s is described without the query parameter %q", p, n)
		}
	}
	return nil
}

// ---- an answer against the document ----

func (d *oaDoc) conforms(at string, v interface{}, n *oaNode) *Fail {
	if ref := oaStr(n, "$ref"); ref != "" {
		name := strings.TrimPrefix(ref, oaRefPrefix)
		if strings.HasPrefix(name, "google.protobuf.") {
			return nil
		}
		n = d.schemas[name]
		if n == nil {
			return failf("dangling-reference", "%s: no schema %s", at, ref)
		}
		obj, ok := v.(map[string]interface{})
		if !ok {
			return failf("answer", "%s is answered with %v, described as %s", at, v, name)
		}
		for k, x := range obj {
			p := oaGet(n, "properties", k)
			if p == nil {
				return failf("answer", "%s is answered with a field %s that %s is not described to have", at, k, name)
			}
			if f := d.conforms(at+"."+k, x, p); f != nil {
				return f
			}
		}
		return nil
	}
	ty := oaStr(n, "type")
	ok := false
	switch x := v.(type) {
	case string:
		ok = ty == "string" || (ty == "number" && (x == "NaN" || x == "Infinity" || x == "-Infinity"))
	case bool:
		ok = ty == "boolean"
	case float64:
		ok = ty == "number" || (ty == "integer" && x == math.Trunc(x))
	case []interface{}:
		ok = ty == "array"
		if ok {
			for i, e := range x {
				if f := d.conforms(fmt.Sprintf("%s[%d]", at, i), e, oaGet(n, "items")); f != nil {
					return f
				}
			}
		}
	}
	if !ok {
		return failf("answer", "%s is answered with %v (%T), described as %q", at, v, v, ty)
	}
	return nil
}

// populate sets every field of the message, nested messages down to the depth.
func populate(m protoreflect.Message, depth int) {
	md := m.Descriptor()
	if md.FullName() == "google.protobuf.Any" {
		return
	}
	val := func(fd protoreflect.FieldDescriptor) (protoreflect.Value, bool) {
		switch fd.Kind() {
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(true), true
		case protoreflect.EnumKind:
			vs := fd.Enum().Values()
			return protoreflect.ValueOfEnum(vs.Get(vs.Len() - 1).Number()), true
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			return protoreflect.ValueOfInt32(-7), true
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(math.MaxUint32), true
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			if md.FullName() == "google.protobuf.Timestamp" || md.FullName() == "google.protobuf.Duration" {
				return protoreflect.ValueOfInt64(5), true
			}
			return protoreflect.ValueOfInt64(-1 << 60), true
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(math.MaxUint64), true
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(1.5), true
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(-2.25), true
		case protoreflect.StringKind:
			return protoreflect.ValueOfString("1"), true
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes([]byte{'1'}), true
		}
		return protoreflect.Value{}, false
	}
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if wellKnown(md.FullName()) && fd.Name() == "nanos" {
			continue
		}
		switch {
		case fd.IsMap():
		case fd.Message() != nil:
			if depth == 0 || wellKnown(fd.Message().FullName()) && !strings.HasSuffix(string(fd.Message().FullName()), "Timestamp") {
				continue
			}
			if fd.IsList() {
				l := m.Mutable(fd).List()
				populate(l.AppendMutable().Message(), depth-1)
			} else {
				populate(m.Mutable(fd).Message(), depth-1)
			}
		default:
			v, ok := val(fd)
			if !ok {
				continue
			}
			if fd.IsList() {
				m.Mutable(fd).List().Append(v)
			} else {
				m.Set(fd, v)
			}
		}
	}
}

// ---- building documents ----

func docOf(regs []regObj, perModule bool) ([]byte, *mux.Router, error) {
	b := router.NewBuilder(nil)
	if perModule {
		d := module.NewDescriptorBuilder().Named("mcstore")
		for _, r := range regs {
			d.OwnsStateObject(r.o, r.d)
		}
		if err := b.CreateModuleHandlers(d.Build()); err != nil {
			return nil, nil, err
		}
	} else {
		for _, r := range regs {
			if err := b.CreateStateObjectHandler(r.o, r.d); err != nil {
				return nil, nil, err
			}
		}
	}
	h, err := b.Build()
	if err != nil {
		return nil, nil, err
	}
	code, body := httpAPI{h}.do("GET", "/spec", "")
	if code != 200 {
		return nil, nil, fmt.Errorf("/spec answers %d", code)
	}
	return body, h, nil
}

// judgeRegs builds the document of the objects and judges it, and what is served with it.
func (c *Ctx) judgeRegs(regs []regObj, perModule, answers bool) *Fail {
	body, h, err := docOf(regs, perModule)
	if err != nil {
		return failf("no-document", "the objects have no document: %v", err)
	}
	addN(&c.Transitions, len(regs)+1)
	d, f := judgeDoc(body, regs, h)
	if f != nil {
		return f
	}
	c.Outcome(string(body))
	addN(&c.Traces, 1)
	if !answers {
		return nil
	}
	s := newBareStore(regs...)
	defer s.close()
	api := newHTTP(client.NewORMClient(s.s, "mc"), regs, perModule)
	for _, r := range regs {
		o := r.o.NewStateObject()
		populate(o.ProtoReflect(), 2)
		if err := s.create(o); err != nil {
			return failf("create", "an object of %s with every field set cannot be created: %v", meta.Name(r.o), err)
		}
	}
	for _, r := range regs {
		check := func(target, path string) *Fail {
			code, body := api.do("GET", target, "")
			if code != 200 {
				return failf("answer", "GET %s answers %d: %s", target, code, trunc(string(body), 200))
			}
			var v interface{}
			if err := json.Unmarshal(body, &v); err != nil {
				return failf("answer", "GET %s answers no JSON: %v", target, err)
			}
			for p, n := range d.paths {
				if oaPathKey(p) == path {
					return d.conforms(target, v, oaGet(n, "get", "responses", "200", "content", "application/json", "schema"))
				}
			}
			return failf("path-missing", "%s is not described", path)
		}
		p := singlePath(r.o)
		if r.d.Singleton {
			if f := check(p, p); f != nil {
				return f
			}
			continue
		}
		id := "1"
		if r.o.ProtoReflect().Descriptor().Fields().ByJSONName(r.d.PrimaryKey).Kind() == protoreflect.BytesKind {
			id = "MQ=="
		}
		if f := check(p+"/"+id, p+"/{}"); f != nil {
			return f
		}
		if len(r.d.SecondaryKeys) > 0 {
			sk := r.d.SecondaryKeys[0]
			fd := r.o.ProtoReflect().Descriptor().Fields().ByJSONName(sk)
			if fd.Kind() == protoreflect.StringKind {
				if f := check(listPath(r.o, sk, "1"), p+"s"); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// ---- the repository's objects ----

var (
	repoRegsOnce sync.Once
	repoRegsV    []regObj
)

// repoRegs lists the repository's objects with the definitions their modules register.
func repoRegs() []regObj {
	repoRegsOnce.Do(func() {
		for _, o := range repoObjects() {
			repoRegsV = append(repoRegsV, regObj{o, repoDef(o)})
		}
		sort.Slice(repoRegsV, func(i, j int) bool { return meta.Name(repoRegsV[i].o) < meta.Name(repoRegsV[j].o) })
	})
	return repoRegsV
}

// ---- generated shapes ----

// oaKinds are the field kinds, by number of the descriptor type.
var oaKinds = []descriptorpb.FieldDescriptorProto_Type{
	tBool, tInt32, tUint32, tInt64, tUint64, tString, tBytes, tMsg, tEnum,
	descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_SINT64,
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_DOUBLE,
}

// objects of floats and of the fixed and zigzag integers are refused at registration
const oaDirectKinds = 9

type oaShape struct {
	Kind  int    `json:"kind"`
	Label string `json:"label"` // one, many, optional, oneof
	Where string `json:"where"` // object, sub (a message of the file), nested, import, deep
	Name  string `json:"name"`  // of the field
	JSON  string `json:"json,omitempty"`
}

func (s oaShape) pkg() string {
	return fmt.Sprintf("mcoa.k%d%s%s.n%x.j%x", s.Kind, s.Label, strings.ReplaceAll(s.Where, "-", ""), s.Name, s.JSON)
}

// obj makes an object with the field at the place.
func (s oaShape) obj() regObj {
	pkg := s.pkg()
	path := strings.ReplaceAll(pkg, ".", "/") + ".proto"
	f := fieldSpec{s.Name, oaKinds[s.Kind], s.Label == "many", ""}
	switch f.Type {
	case tMsg:
		f.TypeName = "." + pkg + ".Leaf"
	case tEnum:
		f.TypeName = "." + pkg + ".Color"
	}
	leaf := msgProto("Leaf", fieldSpec{"leaf_value", tString, false, ""})
	enum := &descriptorpb.EnumDescriptorProto{Name: proto.String("Color"), Value: []*descriptorpb.EnumValueDescriptorProto{
		{Name: proto.String("RED"), Number: proto.Int32(0)}, {Name: proto.String("BLUE"), Number: proto.Int32(4)}}}
	finish := func(d *descriptorpb.DescriptorProto, i int) *descriptorpb.DescriptorProto {
		fp := d.Field[i]
		if s.JSON != "" {
			fp.JsonName = proto.String(s.JSON)
		} else {
			fp.JsonName = nil // protoc's rule
		}
		switch s.Label {
		case "oneof":
			fp.OneofIndex = proto.Int32(0)
			d.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("choice")}}
		case "optional":
			fp.OneofIndex = proto.Int32(0)
			fp.Proto3Optional = proto.Bool(true)
			d.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("_choice")}}
		}
		return d
	}
	id := fieldSpec{"id", tString, false, ""}
	var msgs []*descriptorpb.DescriptorProto
	var deps []string
	switch s.Where {
	case "object":
		msgs = append(msgs, finish(msgProto("Obj", id, f), 1), leaf)
	case "sub":
		msgs = append(msgs, msgProto("Obj", id, fieldSpec{"h", tMsg, false, "." + pkg + ".Holder"}), finish(msgProto("Holder", f), 0), leaf)
	case "nested":
		o := msgProto("Obj", id, fieldSpec{"h", tMsg, false, "." + pkg + ".Obj.Holder"})
		o.NestedType = append(o.NestedType, finish(msgProto("Holder", f), 0))
		msgs = append(msgs, o, leaf)
	case "nested-import", "import":
		ipkg, ipath := pkg+".imp", strings.ReplaceAll(pkg, ".", "/")+"/imp.proto"
		deps = []string{ipath}
		switch f.Type {
		case tMsg:
			f.TypeName = "." + ipkg + ".Leaf"
		case tEnum:
			f.TypeName = "." + ipkg + ".Color"
		}
		h := finish(msgProto("Holder", f), 0)
		tn := "." + ipkg + ".Holder"
		im := []*descriptorpb.DescriptorProto{h, leaf}
		if s.Where == "nested-import" {
			box := msgProto("Box", id)
			box.NestedType = append(box.NestedType, h)
			tn = "." + ipkg + ".Box.Holder"
			im = []*descriptorpb.DescriptorProto{box, leaf}
		}
		ifp := fileProto(ipath, ipkg, nil, im...)
		ifp.EnumType = append(ifp.EnumType, enum)
		mustFile(ifp)
		msgs = append(msgs, msgProto("Obj", id, fieldSpec{"h", tMsg, true, tn}))
	}
	fp := fileProto(path, pkg, deps, msgs...)
	if len(deps) == 0 {
		fp.EnumType = append(fp.EnumType, enum)
	}
	fd := mustFile(fp)
	return regObj{newDynType(fd.Messages().ByName("Obj"), dynObject).obj(), &schema.Definition{PrimaryKey: "id"}}
}

// a digraph of references between messages
type oaGraph struct {
	N     int   `json:"n"`
	Edges int   `json:"edges"` // bit i*N+j: message i has a field of message j
	Place []int `json:"place"` // of messages 1..: 0 top level, 1+i nested in message i, -1 in an imported file
	Roots int   `json:"roots"` // how many of the messages are objects
}

func (g oaGraph) edge(i, j int) bool { return g.Edges>>(i*g.N+j)&1 == 1 }

func (g oaGraph) ok() bool {
	for i := 0; i < g.N; i++ {
		for j := 0; j < g.N; j++ {
			// an imported message cannot refer back
			if g.edge(i, j) && i > 0 && g.root(i) == -1 && g.root(j) != -1 {
				return false
			}
		}
	}
	for i := 0; i < g.Roots; i++ {
		if i > 0 && g.Place[i-1] != 0 {
			return false // objects are top-level messages
		}
	}
	// every message is reachable from an object
	seen := (1 << g.Roots) - 1
	for k := 0; k < g.N; k++ {
		for i := 0; i < g.N; i++ {
			for j := 0; j < g.N; j++ {
				if seen>>i&1 == 1 && g.edge(i, j) {
					seen |= 1 << j
				}
			}
		}
	}
	return seen == 1<<g.N-1
}

// root says whose file the message is in: -1 the imported one.
func (g oaGraph) root(i int) int {
	for i > 0 {
		p := g.Place[i-1]
		if p <= 0 {
			return p
		}
		i = p - 1
	}
	return 0
}

func (g oaGraph) full(pkg string, i int) string {
	n := fmt.Sprintf("M%d", i)
	if i == 0 {
		return "." + pkg + "." + n
	}
	switch p := g.Place[i-1]; {
	case p == -1:
		return "." + pkg + ".imp." + n
	case p == 0:
		return "." + pkg + "." + n
	default:
		return g.full(pkg, p-1) + "." + n
	}
}

func (g oaGraph) regs() []regObj {
	pkg := fmt.Sprintf("mcoa.g%de%dr%d", g.N, g.Edges, g.Roots)
	for _, p := range g.Place {
		pkg += fmt.Sprintf("p%d", p+1)
	}
	ds := make([]*descriptorpb.DescriptorProto, g.N)
	for i := range ds {
		fs := []fieldSpec{{"id", tString, false, ""}}
		for j := 0; j < g.N; j++ {
			if g.edge(i, j) {
				fs = append(fs, fieldSpec{fmt.Sprintf("to_m%d", j), tMsg, (i+j)%2 == 0, g.full(pkg, j)})
			}
		}
		ds[i] = msgProto(fmt.Sprintf("M%d", i), fs...)
	}
	top := []*descriptorpb.DescriptorProto{ds[0]}
	var imp []*descriptorpb.DescriptorProto
	for i := 1; i < g.N; i++ {
		switch p := g.Place[i-1]; {
		case p == -1:
			imp = append(imp, ds[i])
		case p == 0:
			top = append(top, ds[i])
		default:
			ds[p-1].NestedType = append(ds[p-1].NestedType, ds[i])
		}
	}
	var deps []string
	base := strings.ReplaceAll(pkg, ".", "/")
	if imp != nil {
		mustFile(fileProto(base+"/imp.proto", pkg+".imp", nil, imp...))
		deps = []string{base + "/imp.proto"}
	}
	fd := mustFile(fileProto(base+".proto", pkg, deps, top...))
	var out []regObj
	for i := 0; i < g.Roots; i++ {
		md := fd.Messages().ByName(protoreflect.Name(fmt.Sprintf("M%d", i)))
		out = append(out, regObj{newDynType(md, dynObject).obj(), &schema.Definition{PrimaryKey: "id"}})
	}
	return out
}

func oaGraphs(n, roots int, emit func(oaGraph) bool) bool {
	place := make([]int, n-1)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			for e := 0; e < 1<<(n*n); e++ {
				g := oaGraph{n, e, append([]int(nil), place...), roots}
				if g.ok() && !emit(g) {
					return false
				}
			}
			return true
		}
		// nested in an earlier message, so that nesting has no cycles
		for p := -1; p <= i; p++ {
			place[i-1] = p
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(1)
}

// ---- the check ----

type oaSubset struct {
	Objs   []int `json:"objs"`
	Module bool  `json:"module"`
}

// objects of several groups whose kinds, parts and fields are named alike
type oaNames struct {
	Objs    []int `json:"objs"`
	Singles int   `json:"singles"`
}

var (
	namesakesOnce sync.Once
	namesakesV    []protoreflect.MessageDescriptor
)

func namesakes() []protoreflect.MessageDescriptor {
	namesakesOnce.Do(func() {
		for i, pkg := range []string{"mcn", "mcn.a", "mcn.b", "mcn.a.b", "mcna"} {
			ty := []descriptorpb.FieldDescriptorProto_Type{tString, tBytes, tBool, tUint64, tInt32}[i]
			thing := msgProto("Thing", fieldSpec{"id", tString, false, ""}, fieldSpec{"part", tMsg, false, "." + pkg + ".Part"}, fieldSpec{"own", tMsg, true, "." + pkg + ".Thing.Part"}, fieldSpec{fmt.Sprint("x", i), ty, false, ""})
			thing.NestedType = append(thing.NestedType, msgProto("Part", fieldSpec{fmt.Sprint("inner", i), ty, true, ""}))
			part := msgProto("Part", fieldSpec{"id", tString, false, ""}, fieldSpec{fmt.Sprint("outer", i), ty, false, ""})
			fd := mustFile(fileProto("mcn/"+pkg+".proto", pkg, nil, thing, part))
			namesakesV = append(namesakesV, fd.Messages().ByName("Thing"), fd.Messages().ByName("Part"))
		}
	})
	return namesakesV
}

type oaOrder struct {
	Objs []int   `json:"objs"`
	Perm []int   `json:"perm"`
	All  uintptr `json:"all"`            // where every map iteration starts
	Site string  `json:"site,omitempty"` // only the iterations of this statement
}

func pick(all []regObj, idx []int) (out []regObj) {
	for _, i := range idx {
		out = append(out, all[i])
	}
	return
}

// subsets emits the subsets of n things with at most k elements or lacking at most l of them.
func subsets(n, k, l int, emit func([]int) bool) bool {
	var rec func(i int, cur []int, max int, f func([]int) bool) bool
	rec = func(i int, cur []int, max int, f func([]int) bool) bool {
		if !f(append([]int(nil), cur...)) {
			return false
		}
		if len(cur) == max {
			return true
		}
		for j := i; j < n; j++ {
			if !rec(j+1, append(cur, j), max, f) {
				return false
			}
		}
		return true
	}
	if !rec(0, nil, k, emit) {
		return false
	}
	return rec(0, nil, l, func(out []int) bool {
		var in []int
		for i := 0; i < n; i++ {
			if len(out) > 0 && out[0] == i {
				out = out[1:]
				continue
			}
			in = append(in, i)
		}
		if len(in) <= k {
			return true
		}
		return emit(in)
	})
}

func c30(c *Ctx) {
	if rtSet == nil {
		hp("C30 needs the explorer to be built over the controlled runtime: use check.sh")
	}
	c.Level = "exploration"
	c.Rule = "the document of every set of the repository's state objects of bounded size, whole or lacking few; of objects with every kind of field with every label at every place, of every digraph of references between up to 3 messages (thorough: 4) with every nesting, and of names; of sets of objects of several groups whose kinds and parts have the same names; of up to 66 objects, fields, references and nestings; the answers served for objects with every field set against the document; every registration order and every place a map iteration can start from give the same bytes"
	repo := repoRegs()
	n := len(repo)
	c.Set("repository_objects", n)
	k, l := 2, 1
	if c.Thorough {
		k, l = 4, 3
	}

	Explore(c, "repository-sets", func(emit func(oaSubset) bool) {
		subsets(n, k, l, func(s []int) bool {
			return emit(oaSubset{s, false}) && (len(s) > 1 && len(s) < n-1 || emit(oaSubset{s, true}))
		})
	}, func(w *Worker, s oaSubset) *Fail {
		return c.judgeRegs(pick(repo, s.Objs), s.Module, false)
	})

	Explore(c, "repository-answers", func(emit func(oaSubset) bool) {
		subsets(n, 1, 0, func(s []int) bool { return len(s) == 0 || emit(oaSubset{s, true}) })
	}, func(w *Worker, s oaSubset) *Fail {
		return c.judgeRegs(pick(repo, s.Objs), s.Module, true)
	})

	labels := []string{"one", "many", "optional", "oneof"}
	Explore(c, "fields", func(emit func(oaShape) bool) {
		for k := range oaKinds {
			for _, la := range labels {
				for _, wh := range []string{"object", "sub", "nested", "import", "nested-import"} {
					if wh == "object" && k >= oaDirectKinds {
						continue
					}
					if !emit(oaShape{k, la, wh, "some_field", ""}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, s oaShape) *Fail {
		return c.judgeRegs([]regObj{s.obj()}, true, true)
	})

	Explore(c, "names", func(emit func(oaShape) bool) {
		for _, nm := range []string{"a", "A", "_a", "a_", "a__b", "a_1", "aB", "a_B", "camelCase", "snake_case_name", "list", "properties", "type", "x_y_z", "UPPER", "ref", "e2e_test"} {
			for _, js := range []string{"", "other", "a-b", "$ref", "two words", "Übung", "yes", "null", "1", "1e3", "a: b", "#", "'", "~"} {
				for _, wh := range []string{"object", "sub"} {
					if !emit(oaShape{5, "one", wh, nm, js}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, s oaShape) *Fail {
		return c.judgeRegs([]regObj{s.obj()}, false, true)
	})

	Explore(c, "graphs", func(emit func(oaGraph) bool) {
		for n := 1; n <= 3; n++ {
			for r := 1; r <= n; r++ {
				if !oaGraphs(n, r, emit) {
					return
				}
			}
		}
		if c.Thorough {
			for _, pl := range [][]int{{0, 0, 0}, {1, 2, 3}, {0, 1, -1}} {
				for e := 0; e < 1<<16; e++ {
					if g := (oaGraph{4, e, pl, 1}); g.ok() && !emit(g) {
						return
					}
				}
			}
		}
	}, func(w *Worker, g oaGraph) *Fail {
		return c.judgeRegs(g.regs(), g.Edges%2 == 0, false)
	})

	// objects and messages that share the last part of their names
	Explore(c, "namesakes", func(emit func(oaNames) bool) {
		most := 3
		if c.Thorough {
			most = 4
		}
		subsets(len(namesakes()), most, 0, func(s []int) bool {
			for m := 0; m < 1<<len(s); m++ {
				if !emit(oaNames{append([]int(nil), s...), m}) {
					return false
				}
			}
			return true
		})
	}, func(w *Worker, s oaNames) *Fail {
		var regs []regObj
		for i, o := range s.Objs {
			d := &schema.Definition{PrimaryKey: "id"}
			if s.Singles>>i&1 == 1 {
				d = &schema.Definition{Singleton: true}
			}
			regs = append(regs, regObj{newDynType(namesakes()[o], dynObject).obj(), d})
		}
		return c.judgeRegs(regs, s.Singles%2 == 0, len(s.Objs) < 3)
	})

	manyDocumented(c)

	// determinism
	mixed := append([]regObj(nil), repo...)
	mixed = append(mixed, oaShape{7, "one", "nested-import", "some_field", ""}.obj(), oaShape{8, "many", "import", "some_field", ""}.obj())
	mixed = append(mixed, oaGraph{3, 0x1ff, []int{0, 1}, 2}.regs()...)
	mixed = append(mixed, oaGraph{3, 0x1ff, []int{0, 0}, 3}.regs()...)
	mixed = append(mixed, oaGraph{3, 0b000000110, []int{-1, -1}, 1}.regs()...)
	var whole []int
	for i := range mixed {
		whole = append(whole, i)
	}
	h0 := &chooser{record: true}
	h0.with(func() { _, _, err := docOf(mixed, false); must(err) })
	sites := map[string]repChoice{}
	for _, r := range h0.recorded {
		if x, ok := sites[r.Site]; !ok || r.Count > x.Count {
			sites[r.Site] = r
		}
	}
	c.Set("map_iteration_sites", len(sites))
	Explore(c, "same-document", func(emit func(oaOrder) bool) {
		sizes := [][]int{}
		most := 2
		if c.Thorough {
			most = 3
		}
		subsets(len(mixed), most, 0, func(s []int) bool { sizes = append(sizes, s); return true })
		for _, s := range sizes {
			if len(s) == len(mixed) {
				continue
			}
			if !perms(len(s), func(p []int) bool {
				p = append([]int(nil), p...)
				for all := uintptr(0); all < 3; all++ {
					if !emit(oaOrder{s, p, all, ""}) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
		// the whole set: rotations, the reversal, swaps of neighbours
		id := func() []int { return append([]int(nil), whole...) }
		var orders [][]int
		for r := 0; r < len(whole); r++ {
			orders = append(orders, append(id()[r:], id()[:r]...))
			if r > 0 {
				p := id()
				p[r], p[r-1] = p[r-1], p[r]
				orders = append(orders, p)
			}
		}
		rev := id()
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		orders = append(orders, rev)
		for _, p := range orders {
			if !emit(oaOrder{whole, p, 0, ""}) {
				return
			}
		}
		for all := uintptr(0); all < 64; all++ {
			if !emit(oaOrder{whole, id(), all, ""}) {
				return
			}
		}
		for _, st := range sortedKeys(sites) {
			for _, r := range sites[st].alternatives(c.Thorough) {
				if !emit(oaOrder{whole, id(), r, st}) {
					return
				}
			}
		}
	}, func(w *Worker, o oaOrder) *Fail {
		var base, got []byte
		var err error
		(&chooser{}).with(func() { base, _, err = docOf(pick(mixed, o.Objs), false) })
		if err != nil {
			return failf("no-document", "the objects have no document: %v", err)
		}
		h := &chooser{all: o.All}
		if o.Site != "" {
			h = &chooser{sites: map[string]uintptr{o.Site: o.All}}
		}
		ordered := make([]regObj, len(o.Perm))
		for i, p := range o.Perm {
			ordered[i] = mixed[o.Objs[p]]
		}
		h.with(func() { got, _, err = docOf(ordered, o.All%2 == 1) })
		if err != nil {
			return failf("no-document", "the objects have no document: %v", err)
		}
		addN(&c.Transitions, 2*len(o.Objs))
		if !bytes.Equal(base, got) {
			return failf("document-differs", "the same objects registered in another order, or with map iterations started elsewhere, have another document: %s", firstDiff(string(base), string(got)))
		}
		c.Outcome(string(got))
		addN(&c.Traces, 1)
		return nil
	})
}

// firstDiff shows the first line in which the texts differ.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %q against %q", i+1, p, q)
		}
	}
	return "equal"
}
