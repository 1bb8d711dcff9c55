package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"github.com/fdymylja/tmos/runtime/module"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	_ "google.golang.org/protobuf/types/known/anypb"
	_ "google.golang.org/protobuf/types/known/structpb"
)

func init() { register("C25", c25) }

// checkDeps compares the reported dependencies with the definition.
func checkDeps(fd protoreflect.FileDescriptor) *Fail {
	want := map[string]bool{}
	var walk func(f protoreflect.FileDescriptor)
	walk = func(f protoreflect.FileDescriptor) {
		for i := 0; i < f.Imports().Len(); i++ {
			p := f.Imports().Get(i).FileDescriptor
			if !want[p.Path()] {
				want[p.Path()] = true
				walk(p)
			}
		}
	}
	walk(fd)
	deps := desc.Dependencies(fd)
	seen := map[string]bool{}
	var order []string
	for _, d := range deps {
		order = append(order, d.Path())
		if seen[d.Path()] {
			return failf("deps-duplicate", "%s: dependency %s is reported twice: %v", fd.Path(), d.Path(), order)
		}
		if !want[d.Path()] {
			return failf("deps-extra", "%s: %s is not a dependency", fd.Path(), d.Path())
		}
		for i := 0; i < d.Imports().Len(); i++ {
			if p := d.Imports().Get(i).Path(); !seen[p] {
				return failf("deps-order", "%s: %s comes before its import %s: %v", fd.Path(), d.Path(), p, order)
			}
		}
		seen[d.Path()] = true
	}
	if len(seen) != len(want) {
		return failf("deps-missing", "%s: dependencies %v, want all of %v", fd.Path(), order, sortedKeys(want))
	}
	// registering in the reported order works
	files := new(protoregistry.Files)
	for _, d := range append(append([]protoreflect.FileDescriptor{}, deps...), fd) {
		nf, err := protodesc.NewFile(protodesc.ToFileDescriptorProto(d), files)
		if err != nil {
			return failf("deps-register", "%s: rebuilding %s: %v", fd.Path(), d.Path(), err)
		}
		if err := files.RegisterFile(nf); err != nil {
			return failf("deps-register", "%s: registering %s: %v", fd.Path(), d.Path(), err)
		}
	}
	return nil
}

func walkHasMap(md protoreflect.MessageDescriptor, seen map[protoreflect.FullName]bool) bool {
	if seen[md.FullName()] {
		return false
	}
	seen[md.FullName()] = true
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if fd.IsMap() {
			return true
		}
		if fd.Message() != nil && walkHasMap(fd.Message(), seen) {
			return true
		}
	}
	return false
}

var allKinds = []protoreflect.Kind{protoreflect.BoolKind, protoreflect.EnumKind, protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Uint32Kind,
	protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Uint64Kind, protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind, protoreflect.FloatKind,
	protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.DoubleKind, protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind, protoreflect.GroupKind}

// ownKinds lists the kinds of the message's own fields; a map counts as its key and value
// kinds. sure is false for kinds that only a map's value message could add.
func ownKinds(md protoreflect.MessageDescriptor) (has, unsure map[protoreflect.Kind]bool) {
	has, unsure = map[protoreflect.Kind]bool{}, map[protoreflect.Kind]bool{}
	for i := 0; i < md.Fields().Len(); i++ {
		fd := md.Fields().Get(i)
		if fd.IsMap() {
			has[fd.MapKey().Kind()], has[fd.MapValue().Kind()] = true, true
			unsure[protoreflect.MessageKind] = true
			if fd.MapValue().Message() != nil {
				for _, k := range allKinds {
					unsure[k] = true
				}
			}
			continue
		}
		has[fd.Kind()] = true
		if fd.Message() != nil { // looking further into nested messages is left open
			for _, k := range allKinds {
				unsure[k] = true
			}
		}
	}
	return
}

func checkInspect(md protoreflect.MessageDescriptor) *Fail {
	want := walkHasMap(md, map[protoreflect.FullName]bool{})
	if got := desc.HasMap(md); got != want {
		return failf("has-map", "HasMap(%s) = %v, want %v", md.FullName(), got, want)
	}
	has, unsure := ownKinds(md)
	for i, k := range allKinds {
		if got := desc.HasKind(md, k); got != has[k] && !(got && unsure[k]) {
			return failf("has-kind", "HasKind(%s, %v) = %v, want %v", md.FullName(), k, got, has[k])
		}
		for _, k2 := range allKinds[:i] {
			got := desc.HasKinds(md, k, k2)
			if w := has[k] || has[k2]; got != w && !(got && (unsure[k] || unsure[k2])) {
				return failf("has-kinds", "HasKinds(%s, %v, %v) = %v, want %v", md.FullName(), k, k2, got, w)
			}
		}
	}
	if desc.HasKinds(md) {
		return failf("has-kinds", "HasKinds(%s) without kinds is true", md.FullName())
	}
	return nil
}

func c25(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "all import graphs of up to 5 files (6 in the thorough tier) with every import order and near names of files and packages for up to 4, chains, fans, ladders and trees of up to 130 files, all registered files, and every message shape: dependencies are compared with the transitive imports and registered in order; map and kind inspections with a direct walk"

	type graph struct {
		N    int     `json:"n"`
		Deps [][]int `json:"deps"` // per file, its imports in order (all lower numbers)
		Pub  bool    `json:"public"`
		Weak int     `json:"weak,omitempty"` // bit i: every i-th import (mod 2) is weak
		Name int     `json:"names"`
	}
	// near names: of files in folders, of packages
	near := []func(i int) (file, pkg string){
		func(i int) (string, string) { return fmt.Sprintf("g%d.proto", i), "g" },
		func(i int) (string, string) { return fmt.Sprintf("d%d/x.proto", i), "g" },
		func(i int) (string, string) { return fmt.Sprintf("d%d/x.proto", i), fmt.Sprintf("g.v%d", i) },
		func(i int) (string, string) { return strings.Repeat("x/", i) + "x.proto", "" },
		func(i int) (string, string) { return strings.Repeat("x", i+1) + ".proto", "" },
		func(i int) (string, string) {
			return "x.proto" + strings.Repeat(".proto", i), "x" + strings.Repeat(".x", i)
		},
		func(i int) (string, string) {
			return []string{"x.proto", "X.proto", "x.Proto", "x", "", " "}[i] + strings.Repeat(" ", i/4), "x"
		},
	}
	build := func(g graph) []protoreflect.FileDescriptor {
		files := new(protoregistry.Files)
		var out []protoreflect.FileDescriptor
		for i := 0; i < g.N; i++ {
			name := func(i int) string { f, _ := near[g.Name](i); return f }
			pkg := func(i int) string { _, p := near[g.Name](i); return p }
			fdp := &descriptorpb.FileDescriptorProto{Name: proto.String(name(i)), Syntax: proto.String("proto3")}
			if pkg(i) != "" {
				fdp.Package = proto.String(pkg(i))
			}
			fdp.MessageType = append(fdp.MessageType, &descriptorpb.DescriptorProto{Name: proto.String(fmt.Sprintf("M%d", i))})
			for j, d := range g.Deps[i] {
				fdp.Dependency = append(fdp.Dependency, name(d))
				if g.Pub {
					fdp.PublicDependency = append(fdp.PublicDependency, int32(j))
				}
				if g.Weak>>uint(j%2)&1 == 1 {
					fdp.WeakDependency = append(fdp.WeakDependency, int32(j))
					continue
				}
				ty, l := tMsg, descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
				m := fdp.MessageType[0]
				m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("f%d", d)), Number: proto.Int32(int32(len(m.Field) + 1)), Label: &l, Type: &ty, TypeName: proto.String(strings.ReplaceAll(fmt.Sprintf(".%s.M%d", pkg(d), d), "..", "."))})
			}
			fd, err := protodesc.NewFile(fdp, files)
			must(err)
			must(files.RegisterFile(fd))
			out = append(out, fd)
		}
		return out
	}
	genGraphs := func(emit func(graph) bool) {
		max := 5
		if c.Thorough {
			max = 6
		}
		for n := 1; n <= max; n++ {
			edges := n * (n - 1) / 2
			for mask := 0; mask < 1<<uint(edges); mask++ {
				deps := make([][]int, n)
				b := 0
				for i := 0; i < n; i++ {
					for j := 0; j < i; j++ {
						if mask>>uint(b)&1 == 1 {
							deps[i] = append(deps[i], j)
						}
						b++
					}
				}
				rev := make([][]int, n)
				for i := range deps {
					for j := len(deps[i]) - 1; j >= 0; j-- {
						rev[i] = append(rev[i], deps[i][j])
					}
				}
				if !emit(graph{N: n, Deps: deps}) || !emit(graph{N: n, Deps: rev, Pub: mask%2 == 1}) {
					return
				}
				for wk := 1; wk < 4 && n < 5; wk++ {
					if !emit(graph{N: n, Deps: deps, Weak: wk}) || !emit(graph{N: n, Deps: rev, Weak: wk, Pub: true}) {
						return
					}
				}
				for s := 1; s < len(near) && (n < 5 || c.Thorough && n < 6); s++ {
					if !emit(graph{N: n, Deps: deps, Name: s}) {
						return
					}
				}
				if n == 4 {
					// every order of every import list
					var rec func(i int, cur [][]int) bool
					rec = func(i int, cur [][]int) bool {
						if i == n {
							cp := make([][]int, n)
							copy(cp, cur)
							return emit(graph{N: n, Deps: cp})
						}
						return perms(len(deps[i]), func(p []int) bool {
							var l []int
							for _, x := range p {
								l = append(l, deps[i][x])
							}
							return rec(i+1, append(append([][]int{}, cur...), l))
						})
					}
					if !rec(0, nil) {
						return
					}
				}
			}
		}
	}
	Explore(c, "graphs", genGraphs, func(w *Worker, g graph) *Fail {
		fds := build(g)
		for _, fd := range fds {
			if f := checkDeps(fd); f != nil {
				f.Msg = fmt.Sprintf("%v: %s", g, f.Msg)
				return f
			}
		}
		c.Outcome(fmt.Sprint(g.Deps))
		return nil
	})

	// many files: chains, fans, ladders, trees of imports
	type bigCase struct{ N, Shape int }
	Explore(c, "many files", func(emit func(bigCase) bool) {
		for _, n := range sizesTo(most(c, 130, 301)) {
			for s := 0; s < 10; s++ {
				if s == 6 && n > 70 {
					continue
				}
				if !emit(bigCase{n, s}) {
					return
				}
			}
		}
	}, func(w *Worker, cs bigCase) *Fail {
		g := graph{N: cs.N, Deps: make([][]int, cs.N)}
		for i := 1; i < cs.N; i++ {
			var d []int
			switch cs.Shape {
			case 0: // chain
				d = []int{i - 1}
			case 1, 2: // the last imports all the others
				if i == cs.N-1 {
					d = upTo(i)
				}
			case 3: // all import the first
				d = []int{0}
			case 4: // ladder
				d = []int{i - 1}
				if i > 1 {
					d = append(d, i-2)
				}
			case 5: // tree, and one file which imports the leaves
				d = []int{(i - 1) / 2}
			case 6: // all the earlier ones
				d = upTo(i)
			case 7:
				d = []int{i / 2, i - 1}
				if i/2 == i-1 {
					d = d[:1]
				}
			case 8: // two chains, joined at the end
				if i > 1 {
					d = []int{i - 2}
				}
				if i == cs.N-1 && i > 1 {
					d = append(d, i-1)
				}
			case 9: // groups of three
				d = []int{i - 1 - (i-1)%3}
			}
			if cs.Shape == 2 {
				for a, b := 0, len(d)-1; a < b; a, b = a+1, b-1 {
					d[a], d[b] = d[b], d[a]
				}
			}
			g.Deps[i] = d
		}
		fds := build(g)
		at := placesIn(cs.N)
		if cs.N > 20 {
			at = at[len(at)-3:]
		}
		for _, i := range at {
			if f := checkDeps(fds[i]); f != nil {
				f.Msg = fmt.Sprintf("%d files, shape %d, file %d: %s", cs.N, cs.Shape, i, f.Msg)
				return f
			}
		}
		c.Outcome(fmt.Sprint("many", cs.Shape))
		return nil
	})

	// real files
	type fileCase struct{ Path string }
	Explore(c, "files", func(emit func(fileCase) bool) {
		var ps []string
		protoregistry.GlobalFiles.RangeFiles(func(fd protoreflect.FileDescriptor) bool { ps = append(ps, fd.Path()); return true })
		sort.Strings(ps)
		for _, p := range ps {
			if !emit(fileCase{p}) {
				return
			}
		}
	}, func(w *Worker, fc fileCase) *Fail {
		fd, err := protoregistry.GlobalFiles.FindFileByPath(fc.Path)
		must(err)
		if f := checkDeps(fd); f != nil {
			return f
		}
		var all func(ms protoreflect.MessageDescriptors) *Fail
		all = func(ms protoreflect.MessageDescriptors) *Fail {
			for i := 0; i < ms.Len(); i++ {
				if recursiveThroughMaps(ms.Get(i)) {
					continue
				}
				if f := checkInspect(ms.Get(i)); f != nil {
					return f
				}
				if f := all(ms.Get(i).Messages()); f != nil {
					return f
				}
			}
			return nil
		}
		c.Outcome(fc.Path)
		return all(fd.Messages())
	})

	// message shapes
	type shapeCase struct{ Name string }
	Explore(c, "shapes", func(emit func(shapeCase) bool) {
		for _, s := range shapes() {
			emit(shapeCase{string(s.md.Name())})
		}
	}, func(w *Worker, sc shapeCase) *Fail {
		for _, s := range shapes() {
			if string(s.md.Name()) == sc.Name {
				if got := walkHasMap(s.md, map[protoreflect.FullName]bool{}); got != s.hasMap {
					hp("shape %s", sc.Name)
				}
				return checkInspect(s.md)
			}
		}
		return nil
	})

	// every way up to 3 messages can refer to each other (cycles included), with a map in any of them
	type msgGraph struct {
		Edges int `json:"edges"` // 3x3 bits: i refers to j
		Map   int `json:"map"`   // 0 none, 1+i: message i has a string map, 4+..: map of message (i -> j)
	}
	Explore(c, "message-graphs", func(emit func(msgGraph) bool) {
		for e := 0; e < 512; e++ {
			for m := 0; m < 13; m++ {
				if !emit(msgGraph{e, m}) {
					return
				}
			}
		}
	}, func(w *Worker, mg msgGraph) *Fail {
		pkg := "mg"
		var ms []*descriptorpb.DescriptorProto
		for i := 0; i < 3; i++ {
			m := msgProto(fmt.Sprintf("M%d", i), fieldSpec{Name: "id", Type: tString})
			for j := 0; j < 3; j++ {
				if mg.Edges>>uint(3*i+j)&1 == 1 {
					l, ty := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL, tMsg
					if (i+j)%2 == 1 {
						l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
					}
					m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("f%d", j)), Number: proto.Int32(int32(len(m.Field) + 1)), Label: &l, Type: &ty, TypeName: proto.String(fmt.Sprintf(".mg.M%d", j))})
				}
			}
			if mg.Map == i+1 {
				mapField(m, pkg, "m", tUint64, "")
			}
			if mg.Map >= 4 && (mg.Map-4)/3 == i {
				mapField(m, pkg, "m", tMsg, fmt.Sprintf(".mg.M%d", (mg.Map-4)%3))
			}
			ms = append(ms, m)
		}
		fd := localFile(fileProto("mg.proto", pkg, nil, ms...))
		for i := 0; i < 3; i++ {
			if f := checkInspect(fd.Messages().Get(i)); f != nil {
				f.Msg = fmt.Sprintf("%+v: %s", mg, f.Msg)
				return f
			}
		}
		c.Outcome(fmt.Sprint(mg))
		return nil
	})

	// chains of references: every depth, through every form of message field
	type chainCase struct{ Depth, Form, End int }
	chainForms := []string{"singular", "repeated", "oneof", "optional", "high number", "second of oneof", "group", "required"}
	const maxChain = 150
	Explore(c, "chains", func(emit func(chainCase) bool) {
		for form := range chainForms {
			for end := 0; end < 8; end++ {
				for d := 0; d <= maxChain; d++ {
					if (d > 12 && d%16 > 1 && d < maxChain-3) && !c.Thorough {
						continue
					}
					if !emit(chainCase{d, form, end}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, cc chainCase) *Fail {
		md := chainMsg(cc.Depth, chainForms[cc.Form], cc.End)
		if f := checkInspect(md); f != nil {
			f.Msg = fmt.Sprintf("%d %s references to end %d: %s", cc.Depth, chainForms[cc.Form], cc.End, f.Msg)
			return f
		}
		c.Outcome(fmt.Sprint(cc))
		return nil
	})

	// messages of the same short name: nested in each other, in other packages
	type nameCase struct {
		Chain []int `json:"chain"`
		Back  int   `json:"back"` // the last message refers back to this one, -1 none
		Map   bool  `json:"map"`
	}
	full := []string{"n.A", "n.A.A", "n.A.B", "n.A.A.A", "n.B", "n.B.A", "n.n", "n.n.A", "n.a", "n.A.n"}
	Explore(c, "short-names", func(emit func(nameCase) bool) {
		max := 3
		if c.Thorough {
			max = 4
		}
		var rec func(cur []int) bool
		rec = func(cur []int) bool {
			for back := -1; back < len(cur) && len(cur) > 0; back++ {
				for _, m := range []bool{false, true} {
					if !emit(nameCase{append([]int{}, cur...), back, m}) {
						return false
					}
				}
			}
			if len(cur) == max {
				return true
			}
			for i := range full {
				used := false
				for _, x := range cur {
					used = used || x == i
				}
				if !used && !rec(append(append([]int{}, cur...), i)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}, func(w *Worker, nc nameCase) *Fail {
		msgs := map[string]*descriptorpb.DescriptorProto{}
		fdp := fileProto("n.proto", "n", nil)
		for _, n := range full { // parents come before their nested messages
			m := msgProto(n[strings.LastIndex(n, ".")+1:], fieldSpec{Name: "id", Type: tString})
			msgs[n] = m
			if par := msgs[n[:strings.LastIndex(n, ".")]]; par != nil {
				par.NestedType = append(par.NestedType, m)
			} else {
				fdp.MessageType = append(fdp.MessageType, m)
			}
		}
		for i, x := range nc.Chain {
			m := msgs[full[x]]
			if i+1 < len(nc.Chain) {
				addRef(m, "f", "."+full[nc.Chain[i+1]], "singular")
				continue
			}
			if nc.Back >= 0 {
				addRef(m, "b", "."+full[nc.Chain[nc.Back]], "repeated")
			}
			if nc.Map {
				mapField(m, full[x][:strings.LastIndex(full[x], ".")], "m", tUint64, "")
			}
		}
		fd := localFile(fdp)
		var all func(ms protoreflect.MessageDescriptors) *Fail
		all = func(ms protoreflect.MessageDescriptors) *Fail {
			for i := 0; i < ms.Len(); i++ {
				if ms.Get(i).IsMapEntry() {
					continue
				}
				if f := checkInspect(ms.Get(i)); f != nil {
					f.Msg = fmt.Sprintf("%+v: %s", nc, f.Msg)
					return f
				}
				if f := all(ms.Get(i).Messages()); f != nil {
					return f
				}
			}
			return nil
		}
		c.Outcome(fmt.Sprint(nc))
		return all(fd.Messages())
	})

	// every map key kind, value kind and one other field beside the map
	type mapCase struct {
		Key, Val, Other int // field types; Other 0: none
	}
	Explore(c, "map-kinds", func(emit func(mapCase) bool) {
		for key := 1; key <= 18; key++ {
			switch descriptorpb.FieldDescriptorProto_Type(key) {
			case descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_GROUP,
				tMsg, tBytes, tEnum:
				continue
			}
			for val := 1; val <= 18; val++ {
				for other := 0; other <= 18; other++ {
					if val == 10 || other == 10 { // no groups in proto3
						continue
					}
					if !emit(mapCase{key, val, other}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, mc mapCase) *Fail {
		name := func(ty int) string {
			switch descriptorpb.FieldDescriptorProto_Type(ty) {
			case tMsg:
				return ".mk.Sub"
			case tEnum:
				return ".mk.En"
			}
			return ""
		}
		m := msgProto("M")
		if mc.Other != 0 {
			m = msgProto("M", fieldSpec{Name: "other", Type: descriptorpb.FieldDescriptorProto_Type(mc.Other), TypeName: name(mc.Other)})
		}
		mapField(m, "mk", "m", descriptorpb.FieldDescriptorProto_Type(mc.Val), name(mc.Val))
		kt := descriptorpb.FieldDescriptorProto_Type(mc.Key)
		m.NestedType[0].Field[0].Type = &kt
		fp := fileProto("mk.proto", "mk", nil, m, msgProto("Sub", fieldSpec{Name: "b", Type: tBool}))
		fp.EnumType = append(fp.EnumType, &descriptorpb.EnumDescriptorProto{Name: proto.String("En"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("Z"), Number: proto.Int32(0)}}})
		f := checkInspect(localFile(fp).Messages().ByName("M"))
		if f != nil {
			f.Msg = fmt.Sprintf("%+v: %s", mc, f.Msg)
		}
		c.Outcome(fmt.Sprint(mc))
		return f
	})

	// a module's published descriptor carries, per object and transition, the file after its dependencies
	type modCase struct{ Objs, Trans int }
	Explore(c, "module-descriptors", func(emit func(modCase) bool) {
		for o := 0; o < 4; o++ {
			for t := 0; t < 4; t++ {
				emit(modCase{o, t})
			}
		}
	}, func(w *Worker, mc modCase) *Fail {
		b := module.NewDescriptorBuilder().Named("m")
		objs := []meta.StateObject{stTypes().idx.obj(), stTypes().single.obj(), repoObjects()[0]}
		trs := repoTransitions()
		for i := 0; i < mc.Objs && i < len(objs); i++ {
			b.OwnsStateObject(objs[i], oneSchema())
		}
		for i := 0; i < mc.Trans; i++ {
			b.HandlesStateTransition(trs[i], nil)
			b.NeedsStateTransition(trs[len(trs)-1-i])
		}
		raw := b.Build().Raw()
		if raw.Name != "m" || len(raw.StateObjects) != minInt(mc.Objs, 3) || len(raw.StateTransitions) != mc.Trans || len(raw.RequiredResources) != mc.Trans {
			return failf("raw", "descriptor %v", trunc(raw.String(), 300))
		}
		chk := func(full string, def *meta.APIDefinition, deps []*descriptorpb.FileDescriptorProto, o meta.APIObject) *Fail {
			if full != string(o.ProtoReflect().Descriptor().FullName()) || !proto.Equal(def, o.APIDefinition()) {
				return failf("raw", "entry %s %v does not describe %s", full, def, o.ProtoReflect().Descriptor().FullName())
			}
			files := new(protoregistry.Files)
			for _, d := range deps {
				nf, err := protodesc.NewFile(d, files)
				if err != nil {
					return failf("raw-deps", "%s: %v", full, err)
				}
				if err := files.RegisterFile(nf); err != nil {
					return failf("raw-deps", "%s: %v", full, err)
				}
			}
			if _, err := files.FindDescriptorByName(o.ProtoReflect().Descriptor().FullName()); err != nil {
				return failf("raw-deps", "%s cannot be found in its own dependencies: %v", full, err)
			}
			return nil
		}
		for i, x := range raw.StateObjects {
			if f := chk(x.ProtobufFullname, x.ApiDefinition, x.ProtoDependencies, objs[i]); f != nil {
				return f
			}
		}
		for i, x := range raw.StateTransitions {
			if f := chk(x.ProtobufFullname, x.ApiDefinition, x.ProtoDependencies, trs[i]); f != nil {
				return f
			}
			if !proto.Equal(raw.RequiredResources[i].Resource, trs[len(trs)-1-i].APIDefinition()) {
				return failf("raw", "required resource %v", raw.RequiredResources[i])
			}
		}
		return nil
	})
}

// addRef adds a field of message type ty in one of several forms.
func addRef(m *descriptorpb.DescriptorProto, name, ty, form string) {
	l, t := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL, tMsg
	f := &descriptorpb.FieldDescriptorProto{Name: proto.String(name), JsonName: proto.String(name), Number: proto.Int32(int32(len(m.Field) + 1)), Label: &l, Type: &t, TypeName: proto.String(ty)}
	oneof := func(n string) *int32 {
		m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(n)})
		return proto.Int32(int32(len(m.OneofDecl) - 1))
	}
	switch form {
	case "repeated":
		l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
	case "oneof":
		f.OneofIndex = oneof("o_" + name)
	case "optional":
		f.OneofIndex, f.Proto3Optional = oneof("_"+name), proto.Bool(true)
	case "high number":
		f.Number = proto.Int32(536870911 - int32(len(m.Field)))
	case "second of oneof":
		o := oneof("o_" + name)
		sl, st := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL, tString
		m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String("s_" + name), JsonName: proto.String("s" + name), Number: proto.Int32(int32(len(m.Field) + 1)), Label: &sl, Type: &st, OneofIndex: o})
		f.Number, f.OneofIndex = proto.Int32(int32(len(m.Field)+1)), o
	case "required":
		l = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED
	}
	m.Field = append(m.Field, f)
}

var chainCache sync.Map

// chainMsg is a message that reaches the given end after depth references.
func chainMsg(depth int, form string, end int) protoreflect.MessageDescriptor {
	const n = 150
	key := fmt.Sprint(form, end)
	v, ok := chainCache.Load(key)
	if !ok {
		pkg := "mc.chain"
		fdp := fileProto("mc/chain.proto", pkg, nil)
		if form == "required" || form == "group" {
			fdp.Syntax = proto.String("proto2")
		}
		id := fieldSpec{Name: "id", Type: tString}
		last := msgProto("D0", id)
		switch end {
		case 1:
			mapField(last, pkg, "m", tUint64, "")
		case 2:
			mapField(last, pkg, "m", tMsg, "."+pkg+".D0")
		case 3, 4, 5, 6:
			fdp.Dependency = []string{"google/protobuf/struct.proto", "google/protobuf/any.proto"}
			addRef(last, "w", []string{".google.protobuf.Struct", ".google.protobuf.Value", ".google.protobuf.ListValue", ".google.protobuf.Any"}[end-3], "singular")
		case 7: // the map is found only in the last of several fields
			for i := 0; i < 20; i++ {
				addRef(last, fmt.Sprintf("l%d", i), "."+pkg+".Leaf", "singular")
			}
			mapField(last, pkg, "m", tUint64, "")
		}
		fdp.MessageType = append(fdp.MessageType, msgProto("Leaf", id), last)
		for i := 1; i <= n; i++ {
			m := msgProto(fmt.Sprintf("D%d", i), id)
			if form == "group" {
				// a group is a nested message with a field of group type
				g := msgProto(fmt.Sprintf("G%d", i))
				addRef(g, "f", fmt.Sprintf(".%s.D%d", pkg, i-1), "singular")
				m.NestedType = append(m.NestedType, g)
				addRef(m, fmt.Sprintf("g%d", i), fmt.Sprintf(".%s.D%d.G%d", pkg, i, i), "singular")
				gt := descriptorpb.FieldDescriptorProto_TYPE_GROUP
				m.Field[len(m.Field)-1].Type = &gt
			} else {
				addRef(m, "f", fmt.Sprintf(".%s.D%d", pkg, i-1), form)
			}
			fdp.MessageType = append(fdp.MessageType, m)
		}
		v, _ = chainCache.LoadOrStore(key, localFile(fdp))
	}
	return v.(protoreflect.FileDescriptor).Messages().ByName(protoName(fmt.Sprintf("D%d", depth)))
}

// recursiveThroughMaps: well-known recursive map types (google.protobuf.Struct).
func recursiveThroughMaps(md protoreflect.MessageDescriptor) bool { return false }
