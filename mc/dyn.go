package main

import (
	"strings"
	"sync"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac/xt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// Dynamic API objects: real meta.StateObject / meta.StateTransition implementations over
// message descriptors made at run time, so that harness modules can own any message shape.

type dynKind int

const (
	dynObject dynKind = iota
	dynTransition
)

type dynType struct {
	md   protoreflect.MessageDescriptor
	def  *meta.APIDefinition
	kind dynKind
}

func (t *dynType) New() protoreflect.Message {
	return dynRefl{dynamicpb.NewMessage(t.md), t}
}
func (t *dynType) Zero() protoreflect.Message                 { return t.New() }
func (t *dynType) Descriptor() protoreflect.MessageDescriptor { return t.md }

type dynRefl struct {
	*dynamicpb.Message
	t *dynType
}

func (r dynRefl) Type() protoreflect.MessageType { return r.t }
func (r dynRefl) New() protoreflect.Message      { return r.t.New() }
func (r dynRefl) Interface() protoreflect.ProtoMessage {
	if r.t.kind == dynTransition {
		return &DynTrans{r.Message, r.t}
	}
	return &DynObj{r.Message, r.t}
}
func (r dynRefl) ProtoReflect() protoreflect.Message { return r }

// DynObj is a state object.
type DynObj struct {
	m *dynamicpb.Message
	t *dynType
}

func (o *DynObj) ProtoReflect() protoreflect.Message { return dynRefl{o.m, o.t} }
func (o *DynObj) APIDefinition() *meta.APIDefinition {
	return proto.Clone(o.t.def).(*meta.APIDefinition)
}
func (o *DynObj) NewStateObject() meta.StateObject { return &DynObj{dynamicpb.NewMessage(o.t.md), o.t} }
func (o *DynObj) New() *DynObj                     { return &DynObj{dynamicpb.NewMessage(o.t.md), o.t} }
func (o *DynObj) String() string                   { return o.m.String() }
func (o *DynObj) Reset()                           { proto.Reset(o.m) }

// DynTrans is a state transition.
type DynTrans struct {
	m *dynamicpb.Message
	t *dynType
}

func (o *DynTrans) ProtoReflect() protoreflect.Message { return dynRefl{o.m, o.t} }
func (o *DynTrans) APIDefinition() *meta.APIDefinition {
	return proto.Clone(o.t.def).(*meta.APIDefinition)
}
func (o *DynTrans) NewStateTransition() meta.StateTransition {
	return &DynTrans{dynamicpb.NewMessage(o.t.md), o.t}
}
func (o *DynTrans) New() *DynTrans { return &DynTrans{dynamicpb.NewMessage(o.t.md), o.t} }
func (o *DynTrans) String() string { return o.m.String() }

func (o *DynObj) set(field string, v interface{}) *DynObj { setField(o.m, field, v); return o }
func (o *DynTrans) set(field string, v interface{}) *DynTrans {
	setField(o.m, field, v)
	return o
}
func (o *DynObj) get(field string) interface{} {
	return o.m.Get(o.m.Descriptor().Fields().ByName(protoreflect.Name(field))).Interface()
}
func (o *DynTrans) str(field string) string {
	return o.m.Get(o.m.Descriptor().Fields().ByName(protoreflect.Name(field))).String()
}

func setField(m protoreflect.Message, field string, v interface{}) {
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(field))
	if fd == nil {
		hp("no field %s in %s", field, m.Descriptor().FullName())
	}
	m.Set(fd, protoreflect.ValueOf(v))
}

type fieldSpec struct {
	Name     string
	Type     descriptorpb.FieldDescriptorProto_Type
	Repeated bool
	TypeName string // for messages and enums
}

var (
	tBool   = descriptorpb.FieldDescriptorProto_TYPE_BOOL
	tInt32  = descriptorpb.FieldDescriptorProto_TYPE_INT32
	tUint32 = descriptorpb.FieldDescriptorProto_TYPE_UINT32
	tInt64  = descriptorpb.FieldDescriptorProto_TYPE_INT64
	tUint64 = descriptorpb.FieldDescriptorProto_TYPE_UINT64
	tString = descriptorpb.FieldDescriptorProto_TYPE_STRING
	tBytes  = descriptorpb.FieldDescriptorProto_TYPE_BYTES
	tMsg    = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
	tEnum   = descriptorpb.FieldDescriptorProto_TYPE_ENUM
)

func msgProto(name string, fields ...fieldSpec) *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(name)}
	for i, f := range fields {
		l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
		if f.Repeated {
			l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
		}
		ty := f.Type
		fd := &descriptorpb.FieldDescriptorProto{
			Name: proto.String(f.Name), JsonName: proto.String(jsonName(f.Name)),
			Number: proto.Int32(int32(i + 1)), Label: &l, Type: &ty,
		}
		if f.TypeName != "" {
			fd.TypeName = proto.String(f.TypeName)
		}
		d.Field = append(d.Field, fd)
	}
	return d
}

// jsonName is protobuf's lowerCamelCase rule.
func jsonName(s string) string {
	var b strings.Builder
	up := false
	for _, r := range s {
		if r == '_' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(r)))
			up = false
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// external sets the access-control option of a transition message.
func external(d *descriptorpb.DescriptorProto, ext bool) *descriptorpb.DescriptorProto {
	o := &descriptorpb.MessageOptions{}
	proto.SetExtension(o, xt.E_StateTransitionAcl, &xt.StateTransitionAccessControl{External: ext})
	d.Options = o
	return d
}

func fileProto(path, pkg string, deps []string, msgs ...*descriptorpb.DescriptorProto) *descriptorpb.FileDescriptorProto {
	return &descriptorpb.FileDescriptorProto{
		Name: proto.String(path), Package: proto.String(pkg), Syntax: proto.String("proto3"),
		Dependency: deps, MessageType: msgs,
		Options: &descriptorpb.FileOptions{GoPackage: proto.String("verifmc/" + pkg)},
	}
}

var dynMu sync.Mutex

// mustFile builds the file and registers it globally (once per path).
func mustFile(fdp *descriptorpb.FileDescriptorProto) protoreflect.FileDescriptor {
	dynMu.Lock()
	defer dynMu.Unlock()
	if fd, err := protoregistry.GlobalFiles.FindFileByPath(fdp.GetName()); err == nil {
		return fd
	}
	fd, err := protodesc.NewFile(fdp, protoregistry.GlobalFiles)
	must(err)
	must(protoregistry.GlobalFiles.RegisterFile(fd))
	return fd
}

// localFile builds the file without registering it.
func localFile(fdp *descriptorpb.FileDescriptorProto) protoreflect.FileDescriptor {
	fd, err := protodesc.NewFile(fdp, protoregistry.GlobalFiles)
	must(err)
	return fd
}

func newDynType(md protoreflect.MessageDescriptor, kind dynKind) *dynType {
	at := meta.APIType_StateObject
	if kind == dynTransition {
		at = meta.APIType_StateTransition
	}
	return &dynType{md: md, kind: kind, def: &meta.APIDefinition{
		Group: string(md.ParentFile().Package()), Kind: string(md.Name()), ApiType: at}}
}

// registerType makes the message resolvable by name (as generated code does).
func registerType(t *dynType) *dynType {
	if _, err := protoregistry.GlobalTypes.FindMessageByName(t.md.FullName()); err == nil {
		return t
	}
	must(protoregistry.GlobalTypes.RegisterMessage(t))
	return t
}

func (t *dynType) obj() *DynObj     { return &DynObj{dynamicpb.NewMessage(t.md), t} }
func (t *dynType) trans() *DynTrans { return &DynTrans{dynamicpb.NewMessage(t.md), t} }

// ---- the harness's own state objects ----

type storeTypes struct {
	byKind  map[string]*dynType // primary key of each supported kind
	idx     *dynType            // string key, one indexed field per supported kind
	idxX    *dynType            // the same, whose name has idx's name as a prefix
	single  *dynType
	singleX *dynType
}

var kindNames = []string{"bool", "int32", "uint32", "int64", "uint64", "string", "bytes"}

var kindTypes = map[string]descriptorpb.FieldDescriptorProto_Type{
	"bool": tBool, "int32": tInt32, "uint32": tUint32, "int64": tInt64, "uint64": tUint64, "string": tString, "bytes": tBytes,
}

var (
	stOnce sync.Once
	st     storeTypes
)

func idxFields() []fieldSpec {
	return []fieldSpec{
		{Name: "id", Type: tString}, {Name: "val", Type: tString},
		{Name: "s", Type: tString}, {Name: "sx", Type: tString}, {Name: "camel_case", Type: tString},
		{Name: "by", Type: tBytes}, {Name: "bo", Type: tBool},
		{Name: "i32", Type: tInt32}, {Name: "u32", Type: tUint32}, {Name: "i64", Type: tInt64}, {Name: "u64", Type: tUint64},
	}
}

var idxKeys = []string{"s", "sx", "camelCase", "by", "bo", "i32", "u32", "i64", "u64"}

func stTypes() *storeTypes {
	stOnce.Do(func() {
		var msgs []*descriptorpb.DescriptorProto
		for _, k := range kindNames {
			msgs = append(msgs, msgProto("K"+k,
				fieldSpec{Name: "the_id", Type: kindTypes[k]}, fieldSpec{Name: "val", Type: tString}, fieldSpec{Name: "tags", Type: tString, Repeated: true}, fieldSpec{Name: "num", Type: tUint64}))
		}
		msgs = append(msgs, msgProto("Kst", fieldSpec{Name: "the_id", Type: tString}, fieldSpec{Name: "val", Type: tString}, fieldSpec{Name: "tags", Type: tString, Repeated: true}, fieldSpec{Name: "num", Type: tUint64}))
		msgs = append(msgs, msgProto("Idx", idxFields()...), msgProto("IdxX", idxFields()...))
		sf := []fieldSpec{{Name: "the_id", Type: tString}, {Name: "val", Type: tString}, {Name: "tags", Type: tString, Repeated: true}, {Name: "num", Type: tUint64}}
		msgs = append(msgs, msgProto("One", sf...), msgProto("OneX", sf...))
		fd := mustFile(fileProto("mc/store.proto", "mc.store", nil, msgs...))
		st.byKind = map[string]*dynType{}
		g := func(n string) *dynType {
			return registerType(newDynType(fd.Messages().ByName(protoreflect.Name(n)), dynObject))
		}
		for _, k := range kindNames {
			st.byKind[k] = g("K" + k)
		}
		st.byKind["st"] = g("Kst") // name is a prefix of "Kstring"
		st.idx, st.idxX, st.single, st.singleX = g("Idx"), g("IdxX"), g("One"), g("OneX")
	})
	return &st
}

func protoStr(s string) protoreflect.Value { return protoreflect.ValueOfString(s) }

func protoName(s string) protoreflect.Name { return protoreflect.Name(s) }
