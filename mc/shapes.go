package main

import (
	"fmt"

	"github.com/fdymylja/tmos/runtime/authentication"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// shapeTypes are messages which hold messages in every way there is: alone, in a list, in maps,
// in a oneof, in groups.
func shapeTypes() (m, g *dynType) {
	m3 := msgProto("M",
		fieldSpec{Name: "s", Type: tString},
		fieldSpec{Name: "m", Type: tMsg, TypeName: ".mc.shape.M"},
		fieldSpec{Name: "l", Type: tMsg, TypeName: ".mc.shape.M", Repeated: true},
		fieldSpec{Name: "p", Type: tMsg, TypeName: ".mc.shape.M.PEntry", Repeated: true},
		fieldSpec{Name: "u", Type: tMsg, TypeName: ".mc.shape.M.UEntry", Repeated: true},
		fieldSpec{Name: "a", Type: tMsg, TypeName: ".mc.shape.M"},
		fieldSpec{Name: "b", Type: tString},
		fieldSpec{Name: "texts", Type: tString, Repeated: true},
		fieldSpec{Name: "sm", Type: tMsg, TypeName: ".mc.shape.M.SmEntry", Repeated: true},
		fieldSpec{Name: "nums", Type: tUint64, Repeated: true})
	m3.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("o")}}
	m3.Field[5].OneofIndex, m3.Field[6].OneofIndex = proto.Int32(0), proto.Int32(0)
	entry := func(name string, k descriptorpb.FieldDescriptorProto_Type, v fieldSpec) {
		v.Name = "value"
		e := msgProto(name, fieldSpec{Name: "key", Type: k}, v)
		e.Options = &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}
		m3.NestedType = append(m3.NestedType, e)
	}
	entry("PEntry", tString, fieldSpec{Type: tMsg, TypeName: ".mc.shape.M"})
	entry("UEntry", tUint32, fieldSpec{Type: tMsg, TypeName: ".mc.shape.M"})
	entry("SmEntry", tString, fieldSpec{Type: tString})
	acl := []string{"core/rbac/xt/rbac_extension.proto"}
	fd := mustFile(fileProto("mc/shape.proto", "mc.shape", acl, external(m3, true)))

	g2 := msgProto("G",
		fieldSpec{Name: "s", Type: tString},
		fieldSpec{Name: "one", Type: descriptorpb.FieldDescriptorProto_TYPE_GROUP, TypeName: ".mc.shape2.G.One"},
		fieldSpec{Name: "many", Type: descriptorpb.FieldDescriptorProto_TYPE_GROUP, TypeName: ".mc.shape2.G.Many", Repeated: true})
	for _, n := range []string{"One", "Many"} {
		g2.NestedType = append(g2.NestedType, msgProto(n, fieldSpec{Name: "s", Type: tString}, fieldSpec{Name: "g", Type: tMsg, TypeName: ".mc.shape2.G"}))
	}
	f2 := fileProto("mc/shape2.proto", "mc.shape2", acl, external(g2, true))
	f2.Syntax = proto.String("proto2")
	fd2 := mustFile(f2)
	return registerType(newDynType(fd.Messages().ByName("M"), dynTransition)), registerType(newDynType(fd2.Messages().ByName("G"), dynTransition))
}

type shapeCase struct {
	Group  bool `json:",omitempty"`
	Path   []int
	B, A   int // messages next to the one on the path
	Odd    int // 0 none, else the kind of undeclared field
	Before bool
}

func fGroup(n protowire.Number, b []byte) []byte {
	return append(append(protowire.AppendTag(nil, n, protowire.StartGroupType), b...), protowire.AppendTag(nil, n, protowire.EndGroupType)...)
}

// c23Shapes: an undeclared field in a message reached in every way a message can hold another.
func c23Shapes(c *Ctx, decode func([]byte) (authentication.Tx, error, string)) {
	mt, gt := shapeTypes()
	odd := func(k int) []byte {
		switch k {
		case 1:
			return fUint(99, 1)
		case 2:
			return fBytes(1<<20, []byte("abc"))
		case 3:
			return fUint(1, 7) // the number of a text
		case 4:
			return fGroup(50, fUint(1, 1))
		case 5:
			return append(protowire.AppendTag(nil, 98, protowire.Fixed32Type), 0, 0, 0, 0)
		}
		return nil
	}
	const odds = 6
	kinds := 5
	Explore(c, "shapes", func(emit func(shapeCase) bool) {
		around := [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 1}}
		for _, group := range []bool{false, true} {
			k, depth := kinds, most(c, 4, 5)
			if group {
				k = 4
			}
			for l := 0; l <= depth; l++ {
				if !wordsLen(k, l, func(p []int) bool {
					for _, ba := range around {
						if l == 0 && ba != around[0] {
							continue
						}
						for o := 0; o < odds; o++ {
							for _, before := range []bool{false, true} {
								if !emit(shapeCase{group, p, ba[0], ba[1], o, before}) {
									return false
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}
		for _, n := range sizesTo(most(c, 130, 300)) {
			for _, at := range placesIn(n) {
				for k := 0; k < kinds; k++ {
					for _, p := range [][]int{{k}, {0, k}, {k, 1}} {
						for o := 0; o < 2; o++ {
							if !emit(shapeCase{false, p, at, n - 1 - at, o, false}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(w *Worker, cs shapeCase) *Fail {
		clean := cat(fStr(1, "s"), fStr(8, "x"), fStr(8, ""), fBytes(9, cat(fStr(1, "k"), fStr(2, "v"))), fBytes(10, []byte{1, 2, 3}), fUint(10, 4))
		if cs.Group {
			clean = fStr(1, "s")
		}
		cur := cat(clean, odd(cs.Odd))
		if cs.Before {
			cur = cat(odd(cs.Odd), clean)
		}
		for i := len(cs.Path) - 1; i >= 0; i-- {
			out := append([]byte{}, clean...)
			for j := 0; j < cs.B+1+cs.A; j++ {
				x := clean
				if j == cs.B {
					x = cur
				}
				if cs.Group {
					if last := i == len(cs.Path)-1; !last || cs.Path[i] < 2 {
						x = cat(fStr(1, "y"), fBytes(2, x)) // within the group, else it is the group
					}
					if cs.Path[i]%2 == 1 {
						out = append(out, fGroup(3, x)...)
					} else if j == cs.B {
						out = append(out, fGroup(2, x)...)
					}
					continue
				}
				switch cs.Path[i] {
				case 0:
					if j == cs.B {
						out = append(out, fBytes(2, x)...)
					}
				case 1:
					out = append(out, fBytes(3, x)...)
				case 2:
					out = append(out, fBytes(4, cat(fStr(1, fmt.Sprint("k", j*7%31, "-", j)), fBytes(2, x)))...)
				case 3:
					out = append(out, fBytes(5, cat(fUint(1, uint64(j*7+1)), fBytes(2, x)))...)
				case 4:
					if j == cs.B {
						out = append(out, fBytes(6, x)...)
					}
				}
			}
			cur = out
		}
		t, url := mt, "/mc.shape.M"
		if cs.Group {
			t, url = gt, "/mc.shape2.G"
		}
		want := dynamicpb.NewMessage(t.md)
		if err := proto.Unmarshal(cur, want); err != nil {
			hp("the message of %+v cannot be parsed: %v", cs, err)
		}
		signer := fBytes(1, cat(fBytes(1, wAny(pubKeyURL, fBytes(1, key(0).pub))), fBytes(2, fBytes(1, fUint(1, 1)))))
		raw := cat(fBytes(1, fBytes(1, wAny(url, cur))), fBytes(2, cat(signer, fBytes(2, fBytes(1, wCoin(cn{"test", "1"}))))), fBytes(3, []byte("sig")))
		tx, err, pan := decode(raw)
		switch {
		case pan != "":
			return failf("panics", "a message of the shape %+v: %s", cs, pan)
		case cs.Odd == 0 && err != nil:
			return failf("valid-refused", "a valid message of the shape %+v is refused: %v", cs, err)
		case cs.Odd == 0 && (len(tx.StateTransitions()) != 1 || !proto.Equal(tx.StateTransitions()[0].(*DynTrans).m, want)):
			return failf("message", "a message of the shape %+v is decoded as %v, want %v", cs, tx.StateTransitions(), want)
		case cs.Odd != 0 && err == nil:
			return failf(fmt.Sprintf("unknown-accepted:shape%v", cs.Path), "a transaction whose message has an undeclared field in a place like %+v is accepted", cs)
		}
		return nil
	})
}
