package main

import (
	"sort"

	"github.com/fdymylja/tmos/core/meta"
	rbacxt "github.com/fdymylja/tmos/core/rbac/xt"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// internalMsgs gives every registered state transition that external accounts must not
// use, with an empty body and bodies filled to different depths.
func internalMsgs() []msgSpec {
	appT()
	var ms []msgSpec
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		m := mt.New().Interface()
		if _, ok := m.(meta.StateTransition); !ok {
			return true
		}
		if isExternal(mt.Descriptor()) {
			return true
		}
		url := "/" + string(mt.Descriptor().FullName())
		var fill func(md protoreflect.MessageDescriptor, depth int, text string) []byte
		fill = func(md protoreflect.MessageDescriptor, depth int, text string) []byte {
			var out []byte
			for i := 0; i < md.Fields().Len(); i++ {
				f := md.Fields().Get(i)
				switch f.Kind() {
				case protoreflect.StringKind, protoreflect.BytesKind:
					out = append(out, fBytes(f.Number(), []byte(text))...)
				case protoreflect.MessageKind:
					if f.IsMap() {
						continue
					}
					if depth > 0 {
						out = append(out, fBytes(f.Number(), fill(f.Message(), depth-1, text))...)
					}
				case protoreflect.BoolKind, protoreflect.EnumKind, protoreflect.Int32Kind, protoreflect.Uint32Kind, protoreflect.Int64Kind, protoreflect.Uint64Kind:
					out = append(out, fUint(f.Number(), 1)...)
				}
			}
			return out
		}
		bodies := [][]byte{nil, fill(mt.Descriptor(), 0, key(0).addr), fill(mt.Descriptor(), 2, key(0).addr), fill(mt.Descriptor(), 3, "1")}
		for _, b := range bodies {
			if proto.Unmarshal(b, m.ProtoReflect().New().Interface()) != nil {
				continue
			}
			ms = append(ms, msgSpec{URL: url, Body: b, Kind: "other"})
		}
		return true
	})
	// the interesting ones in full
	A := key(0).addr
	coins := append(fBytes(2, wCoin(cn{"test", "1000"})), fBytes(2, wCoin(cn{"foo", "5"}))...)
	ms = append(ms,
		msgSpec{URL: "/tmos.x.bank.v1alpha1.MsgSetBalance", Body: cat(fStr(1, A), coins), Kind: "other"},
		msgSpec{URL: "/tmos.x.bank.v1alpha1.MsgSetBalance", Body: cat(fStr(1, key(1).addr)), Kind: "other"},
		msgSpec{URL: "/tmos.core.rbac.v1alpha1.MsgBindRole", Body: cat(fStr(1, "bank"), fStr(2, A)), Kind: "other"},
		msgSpec{URL: "/tmos.core.rbac.v1alpha1.MsgBindRole", Body: cat(fStr(1, "external_account"), fStr(2, key(3).addr)), Kind: "other"},
	)
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].URL < ms[j].URL })
	return ms
}

var _ = rbacxt.E_StateTransitionAcl
var _ protowire.Number
