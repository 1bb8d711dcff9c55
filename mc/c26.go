package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verifmc/gencheck"
	"verifmc/gencheck/repopkgs"

	"github.com/fdymylja/tmos/core/modulegen"
	"github.com/fdymylja/tmos/pkg/modulecodegen"
	gengo "google.golang.org/protobuf/cmd/protoc-gen-go/internal_gengo"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func init() { register("C26", c26) }

// ---- running the generator ----

// genRequest is what protoc sends a plugin for the files.
func genRequest(files ...protoreflect.FileDescriptor) *pluginpb.CodeGeneratorRequest {
	req := &pluginpb.CodeGeneratorRequest{}
	seen := map[string]bool{}
	var add func(fd protoreflect.FileDescriptor)
	add = func(fd protoreflect.FileDescriptor) {
		if seen[fd.Path()] {
			return
		}
		seen[fd.Path()] = true
		for i := 0; i < fd.Imports().Len(); i++ {
			add(fd.Imports().Get(i).FileDescriptor)
		}
		req.ProtoFile = append(req.ProtoFile, protodesc.ToFileDescriptorProto(fd))
	}
	for _, fd := range files {
		add(fd)
		req.FileToGenerate = append(req.FileToGenerate, fd.Path())
	}
	b, err := proto.Marshal(req)
	must(err)
	req = new(pluginpb.CodeGeneratorRequest)
	must(proto.Unmarshal(b, req))
	return req
}

// generate runs the generator as protoc does; it answers the files by name.
func generate(req *pluginpb.CodeGeneratorRequest, run func(*protogen.Plugin) error) (out map[string]string, err error) {
	pan := try(func() {
		var p *protogen.Plugin
		p, err = protogen.Options{}.New(proto.Clone(req).(*pluginpb.CodeGeneratorRequest))
		must(err)
		if e := run(p); e != nil {
			p.Error(e)
		}
		resp := p.Response()
		if resp.Error != nil {
			err = fmt.Errorf("%s", *resp.Error)
			return
		}
		out = map[string]string{}
		for _, f := range resp.File {
			if _, dup := out[f.GetName()]; dup {
				err = fmt.Errorf("%s is generated twice", f.GetName())
			}
			out[f.GetName()] = f.GetContent()
		}
	})
	if pan != "" {
		return nil, fmt.Errorf("the generator panics: %s", trunc(pan, 300))
	}
	return
}

func generateOwn(req *pluginpb.CodeGeneratorRequest) (map[string]string, error) {
	return generate(req, modulecodegen.PluginRunner)
}

const tmosModule = "github.com/fdymylja/tmos/"

func fileOf(path string) protoreflect.FileDescriptor {
	fd, err := protoregistry.GlobalFiles.FindFileByPath(path)
	must(err)
	return fd
}

// ---- compiling and running generated programs ----

// overlayBuild builds and runs a program of this module whose extra files exist only in an overlay.
type overlayBuild struct {
	verif string
	dir   string
	repl  map[string]string
}

func newOverlay(verif string) *overlayBuild {
	d, err := os.MkdirTemp("", "mcgen")
	must(err)
	return &overlayBuild{verif: verif, dir: d, repl: map[string]string{}}
}

func (o *overlayBuild) close() { os.RemoveAll(o.dir) }

// add places a file at the path, which need not exist.
func (o *overlayBuild) add(path, content string) {
	f := filepath.Join(o.dir, fmt.Sprintf("f%d.go", len(o.repl)))
	must(os.WriteFile(f, []byte(content), 0o644))
	o.repl[path] = f
}

func (o *overlayBuild) here(rel string) string { return filepath.Join(o.verif, "mc", "zz_gen", rel) }

func (o *overlayBuild) build(args ...string) (string, error) {
	b, err := json.Marshal(map[string]interface{}{"Replace": o.repl})
	must(err)
	ov := filepath.Join(o.dir, "overlay.json")
	must(os.WriteFile(ov, b, 0o644))
	cmd := exec.Command("go", append([]string{"build", "-overlay", ov}, args...)...)
	cmd.Dir = filepath.Join(o.verif, "mc")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func (o *overlayBuild) run(bin string) ([]gencheck.Result, error) {
	out, err := exec.Command(bin).CombinedOutput()
	i := strings.LastIndex(string(out), "\nGENCHECK ")
	if err != nil || i < 0 {
		return nil, fmt.Errorf("the program fails: %v\n%s", err, trunc(string(out), 3000))
	}
	var rs []gencheck.Result
	must(json.Unmarshal(out[i+len("\nGENCHECK "):], &rs))
	return rs, nil
}

// judgeGen turns what the exploration of a package found into a verdict.
func (c *Ctx) judgeGen(r gencheck.Result) *Fail {
	addN(&c.Transitions, r.Steps)
	addN(&c.Traces, r.Traces)
	for _, f := range r.Fails {
		return failf(f.Key, "%s", f.Msg)
	}
	return nil
}

// ---- shapes ----

type genMsg struct {
	Name string   `json:"name"`
	Role string   `json:"role"` // S singleton, K keyed, T transition, N nothing, B both, E neither key nor singleton
	Key  string   `json:"key,omitempty"`
	JSON string   `json:"json,omitempty"` // of the key
	Kind int      `json:"kind,omitempty"` // 0 string, 1 bytes, others
	SK   []string `json:"sk,omitempty"`   // json names
}

type genShape struct {
	Pkg    string   `json:"pkg"` // tail of the proto package
	Go     string   `json:"go"`  // name of the go package, if it is not the last element
	Msgs   []genMsg `json:"msgs"`
	Refuse bool     `json:"refuse"` // no code can be right for it
}

var genKeyKinds = []descriptorpb.FieldDescriptorProto_Type{tString, tBytes, tUint64, tInt64, tUint32, tInt32, tBool,
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, tMsg, descriptorpb.FieldDescriptorProto_TYPE_FIXED32}

func (s genShape) dir(i int) string { return fmt.Sprintf("p%04d", i) }

func (s genShape) file(i int) protoreflect.FileDescriptor {
	pkg := fmt.Sprintf("mcgen.p%04d", i)
	if s.Pkg == "-" {
		pkg = ""
	} else if s.Pkg != "" {
		pkg += "." + s.Pkg
	}
	gp := "verifmc/zz_gen/" + s.dir(i)
	if s.Go != "" {
		gp += ";" + s.Go
	}
	fp := &descriptorpb.FileDescriptorProto{
		Name: proto.String(fmt.Sprintf("verifmc/gen/p%04d/shape.proto", i)), Syntax: proto.String("proto3"),
		Dependency: []string{"core/modulegen/modulegen.proto"},
		Options:    &descriptorpb.FileOptions{GoPackage: proto.String(gp)},
	}
	if pkg != "" {
		fp.Package = proto.String(pkg)
	}
	for _, m := range s.Msgs {
		key := m.Key
		if key == "" {
			key = "id"
		}
		fs := []fieldSpec{
			{"note", tString, false, ""},
			{key, genKeyKinds[m.Kind], false, ""},
			{"owner_name", tString, false, ""},
			{"amount", tUint64, false, ""},
			{"tags", tBytes, true, ""},
		}
		if fs[1].Type == tMsg {
			fs[1].TypeName = ".google.protobuf.FileOptions"
			fp.Dependency = append(fp.Dependency[:1:1], "google/protobuf/descriptor.proto")
		}
		d := msgProto(m.Name, fs...)
		if m.JSON != "" {
			d.Field[1].JsonName = proto.String(m.JSON)
		}
		o := &descriptorpb.MessageOptions{}
		jn := d.Field[1].GetJsonName()
		switch m.Role {
		case "S":
			proto.SetExtension(o, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{Singleton: true})
		case "K":
			proto.SetExtension(o, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{PrimaryKey: jn, SecondaryKeys: m.SK})
		case "M": // the key names no field
			proto.SetExtension(o, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{PrimaryKey: "missing"})
		case "E":
			proto.SetExtension(o, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{})
		case "T":
			proto.SetExtension(o, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
		case "B":
			proto.SetExtension(o, modulegen.E_StateObject, &modulegen.StateObjectDescriptor{Singleton: true})
			proto.SetExtension(o, modulegen.E_StateTransition, &modulegen.StateTransitionDescriptor{})
		}
		if m.Role != "N" {
			d.Options = o
		}
		fp.MessageType = append(fp.MessageType, d)
	}
	return localFile(fp)
}

func genShapes(thorough bool) []genShape {
	var out []genShape
	add := func(s genShape) { out = append(out, s) }
	// names
	for _, n := range []string{"Foo", "Foos", "FOOS", "foo", "foo_bar", "Foo_Bar", "fooBar", "s", "S", "X", "x", "A1", "Type", "Map", "Range", "Func", "Var", "Package", "Select", "Opts", "Client", "Iter", "Error", "String", "New", "Nil", "Meta", "Schema", "Set", "Iterator", "Msg", "Params", "Obj", "Err", "True", "Len"} {
		for _, r := range []genMsg{{Role: "S"}, {Role: "K"}, {Role: "T"}} {
			r.Name = n
			add(genShape{Msgs: []genMsg{r}})
		}
	}
	// keys
	for _, k := range []string{"id", "the_id", "_id", "id2", "ID", "address", "key", "type", "func", "range", "map", "var", "x", "opts", "meta", "client", "schema", "new", "nil", "iter", "err", "error", "string", "byte", "len", "obj", "true", "_spfGenO", "_spfGenID", "_spfGenErr", "getOption", "foo", "Foo", "default_value", "import", "go"} {
		for kind := 0; kind < 2; kind++ {
			add(genShape{Msgs: []genMsg{{Name: "Foo", Role: "K", Key: k, Kind: kind}}})
		}
	}
	for _, j := range []string{"other", "Other", "with_underscore", "type", "x"} {
		add(genShape{Msgs: []genMsg{{Name: "Foo", Role: "K", Key: "id", JSON: j}}})
	}
	// schemas
	for _, sk := range [][]string{nil, {"note"}, {"ownerName"}, {"amount"}, {"note", "ownerName"}, {"ownerName", "note"}, {"amount", "ownerName", "note"}} {
		for kind := 0; kind < 2; kind++ {
			add(genShape{Msgs: []genMsg{{Name: "Foo", Role: "K", SK: sk, Kind: kind}, {Name: "Bar", Role: "K"}}})
		}
	}
	// packages
	for _, p := range []string{"a", "v1", "a.b.v1alpha1", "Upper.Case"} {
		for _, g := range []string{"", "other", "v1"} {
			add(genShape{Pkg: p, Go: g, Msgs: []genMsg{{Name: "Foo", Role: "K"}, {Name: "Bar", Role: "T"}, {Name: "Baz", Role: "S"}}})
		}
	}
	// what no code can be right for
	for kind := 2; kind < len(genKeyKinds); kind++ {
		add(genShape{Msgs: []genMsg{{Name: "Foo", Role: "K", Kind: kind}}, Refuse: true})
	}
	for _, r := range []string{"B", "E", "M"} {
		add(genShape{Msgs: []genMsg{{Name: "Foo", Role: r}}, Refuse: true})
		add(genShape{Msgs: []genMsg{{Name: "Bar", Role: "T"}, {Name: "Foo", Role: r}, {Name: "Baz", Role: "S"}}, Refuse: true})
	}
	add(genShape{Pkg: "-", Msgs: []genMsg{{Name: "McGenNoPackage", Role: "K"}}, Refuse: true})
	// words of roles
	names := []string{"Alpha", "Beta", "Gammas", "Delta"}
	roles := []genMsg{{Role: "S"}, {Role: "K"}, {Role: "K", Kind: 1, SK: []string{"ownerName"}}, {Role: "T"}, {Role: "N"}}
	most := 3
	if thorough {
		most = 4 // the longest come last: cases keep their numbers
	}
	for l := 1; l <= most; l++ {
		wordsLen(len(roles), l, func(w []int) bool {
			s := genShape{}
			for i, r := range w {
				m := roles[r]
				m.Name = names[i]
				s.Msgs = append(s.Msgs, m)
			}
			add(s)
			return true
		})
	}
	return out
}

type genOutcome struct {
	refused string
	compile string
	result  *gencheck.Result
	pan     string
}

var goNameRe = regexp.MustCompile(`(?m)^var (\w+)Schema\b`)

// runShapes generates, compiles and explores the shapes.
func runShapes(verif string, shapes []genShape, depth int) []genOutcome {
	out := make([]genOutcome, len(shapes))
	o := newOverlay(verif)
	defer o.close()
	live := map[int]string{} // the generated code
	for i, s := range shapes {
		fd := s.file(i)
		req := genRequest(fd)
		code, err := generateOwn(req)
		if err != nil {
			out[i].refused = err.Error()
			continue
		}
		any := false
		for _, m := range s.Msgs {
			any = any || m.Role != "N"
		}
		if !any {
			if len(code) != 0 {
				out[i].compile = "code is generated for a file that declares nothing"
			}
			continue
		}
		pb, err := generate(req, func(p *protogen.Plugin) error {
			for _, f := range p.Files {
				if f.Generate {
					gengo.GenerateFile(p, f)
				}
			}
			return nil
		})
		must(err)
		for _, t := range pb {
			o.add(o.here(s.dir(i)+"/shape.pb.go"), t)
		}
		if len(code) != 1 {
			out[i].compile = fmt.Sprintf("the generator writes %v", sortedKeys(code))
			continue
		}
		for _, t := range code {
			live[i] = t
			o.add(o.here(s.dir(i)+"/shape.starport.go"), t)
		}
	}
	var args []string
	for i := range live {
		args = append(args, "./zz_gen/"+shapes[i].dir(i))
	}
	if len(args) == 0 {
		return out
	}
	sort.Strings(args)
	if text, err := o.build(args...); err != nil {
		bad := regexp.MustCompile(`(?m)^# verifmc/zz_gen/p(\d+)\n((?:[^#].*\n)*)`).FindAllStringSubmatch(text, -1)
		if bad == nil {
			hp("the generated packages cannot be built: %s", trunc(text, 3000))
		}
		for _, b := range bad {
			var i int
			fmt.Sscanf(b[1], "%d", &i)
			out[i].compile = b[2]
			delete(live, i)
		}
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"verifmc/gencheck\"\n\t\"github.com/fdymylja/tmos/runtime/orm/schema\"\n")
	var idx []int
	for i := range live {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		fmt.Fprintf(&b, "\tp%04d \"verifmc/zz_gen/%s\"\n", i, shapes[i].dir(i))
	}
	b.WriteString(")\n\nfunc main() {\n\tgencheck.Main([]gencheck.Pkg{\n")
	for _, i := range idx {
		fmt.Fprintf(&b, "\t\t{Name: \"%d\", File: %q, New: p%04d.NewClientSet, Schemas: map[string]*schema.Definition{", i, shapes[i].file(i).Path(), i)
		for _, m := range goNameRe.FindAllStringSubmatch(live[i], -1) {
			fmt.Fprintf(&b, "%q: p%04d.%sSchema, ", m[1], i, m[1])
		}
		b.WriteString("}},\n")
	}
	fmt.Fprintf(&b, "\t}, %d)\n}\n\nvar _ *schema.Definition\n", depth)
	o.add(o.here("main/main.go"), b.String())
	bin := filepath.Join(o.dir, "bin")
	if text, err := o.build("-o", bin, "./zz_gen/main"); err != nil {
		hp("the program over the generated packages cannot be built: %s", trunc(text, 3000))
	}
	rs, err := o.run(bin)
	if err != nil {
		hp("%v", err)
	}
	for k := range rs {
		var i int
		fmt.Sscan(rs[k].Name, &i)
		out[i].result = &rs[k]
	}
	return out
}

// ---- the check ----

func c26(c *Ctx) {
	c.Rule = "every generated package of the repository, as committed and as regenerated, and generated packages for all words of message roles, name, key, index and package alphabets: API definitions, fresh instances and schemas against the declared options; every operation with 0 to 2 options, succeeding and failing, against what reaches the runtime's client; every history of operations of bounded depth through the generated client against the store itself"
	depth := 3
	if c.Thorough {
		depth = 4
	}
	pkgs := repopkgs.All()
	c.Set("repository_packages", len(pkgs))

	// as committed
	Explore(c, "committed", func(emit func(int) bool) {
		for i := range pkgs {
			if !emit(i) {
				return
			}
		}
	}, func(w *Worker, i int) *Fail {
		c.Outcome(pkgs[i].Name)
		return c.judgeGen(gencheck.Check(pkgs[i], depth))
	})

	// as regenerated
	var files []protoreflect.FileDescriptor
	for _, p := range pkgs {
		files = append(files, fileOf(p.File))
	}
	single := make([]map[string]string, len(files))
	singleErr := make([]error, len(files))
	for i, fd := range files {
		single[i], singleErr[i] = generateOwn(genRequest(fd))
	}
	name := func(i int) string {
		return tmosModule + strings.TrimSuffix(files[i].Path(), ".proto") + modulecodegen.GenCodeFileSuffix
	}
	var once sync.Once
	var regen map[string]gencheck.Result
	var regenErr error
	same := 0
	runRegen := func() {
		o := newOverlay(c.Verif)
		defer o.close()
		for i := range files {
			code, ok := single[i][name(i)]
			if !ok {
				continue // reported by the part before
			}
			path := "/repo/" + strings.TrimPrefix(name(i), tmosModule)
			old, err := os.ReadFile(path)
			must(err)
			if string(old) == code {
				same++
			}
			o.add(path, code)
		}
		o.add(o.here("main/main.go"), fmt.Sprintf(`package main

import (
	"verifmc/gencheck"
	"verifmc/gencheck/repopkgs"

	_ "github.com/fdymylja/tmos/core/apiserver"
	_ "github.com/fdymylja/tmos/testdata/testmodule"
	_ "github.com/fdymylja/tmos/x/authn"
	_ "github.com/fdymylja/tmos/x/bank"
	_ "github.com/fdymylja/tmos/x/distribution"
	_ "github.com/fdymylja/tmos/runtime"
)

func main() { gencheck.Main(repopkgs.All(), %d) }
`, depth))
		bin := filepath.Join(o.dir, "bin")
		if text, err := o.build("-o", bin, "./zz_gen/main"); err != nil {
			regenErr = fmt.Errorf("the repository does not compile with the regenerated code:\n%s", trunc(text, 1500))
			return
		}
		rs, err := o.run(bin)
		if err != nil {
			regenErr = err
			return
		}
		regen = map[string]gencheck.Result{}
		for _, r := range rs {
			regen[r.Name] = r
		}
	}
	Explore(c, "regenerated", func(emit func(int) bool) {
		for i := range pkgs {
			if !emit(i) {
				return
			}
		}
	}, func(w *Worker, i int) *Fail {
		if singleErr[i] != nil {
			return failf("refused", "%s cannot be regenerated: %v", files[i].Path(), singleErr[i])
		}
		if _, ok := single[i][name(i)]; !ok {
			return failf("not-generated", "generating %s writes %v, the repository has %s", files[i].Path(), sortedKeys(single[i]), name(i))
		}
		once.Do(runRegen)
		if regenErr != nil {
			return failf("regenerated-code", "%v", regenErr)
		}
		c.Outcome("regenerated " + pkgs[i].Name)
		return c.judgeGen(regen[pkgs[i].Name])
	})
	c.Set("regenerated_identical_text", same)

	// the requests of several files, in any order
	Explore(c, "requests", func(emit func([]int) bool) {
		n := 2
		if c.Thorough {
			n = 3
		}
		if !words(len(files), n, func(w []int) bool {
			for i := range w {
				for j := 0; j < i; j++ {
					if w[i] == w[j] {
						return true
					}
				}
			}
			return len(w) == 0 || emit(append([]int(nil), w...))
		}) {
			return
		}
		all := []int{}
		for i := range files {
			all = append(all, i)
		}
		for r := range all {
			if !emit(append(append([]int(nil), all[r:]...), all[:r]...)) {
				return
			}
		}
	}, func(w *Worker, idx []int) *Fail {
		var fs []protoreflect.FileDescriptor
		for _, i := range idx {
			fs = append(fs, files[i])
		}
		code, err := generateOwn(genRequest(fs...))
		if err != nil {
			return failf("refused", "a request for %d files is refused: %v", len(fs), err)
		}
		addN(&c.Transitions, len(fs))
		for _, i := range idx {
			if singleErr[i] == nil && code[name(i)] != single[i][name(i)] {
				return failf("request-dependent", "the code of %s depends on the other files of the request: %s", files[i].Path(), firstDiff(single[i][name(i)], code[name(i)]))
			}
		}
		addN(&c.Traces, 1)
		return nil
	})

	// the requests of several files of one package, each file of which declares something or nothing
	type groupCase struct {
		Roles []int // of the file's message
		Ask   int   // mask of the files to generate
		One   bool  // they share one package
	}
	groupRoles := []string{"S", "K", "T", "N"}
	Explore(c, "package-requests", func(emit func(groupCase) bool) {
		most := 3
		if c.Thorough {
			most = 4
		}
		for l := 1; l <= most; l++ {
			if !wordsLen(len(groupRoles), l, func(r []int) bool {
				for ask := 1; ask < 1<<l; ask++ {
					for _, one := range []bool{true, false} {
						if !emit(groupCase{append([]int(nil), r...), ask, one}) {
							return false
						}
					}
				}
				return true
			}) {
				return
			}
		}
	}, func(w *Worker, gc groupCase) *Fail {
		var fs []protoreflect.FileDescriptor
		var want []map[string]string
		for i, r := range gc.Roles {
			fp := protodesc.ToFileDescriptorProto(genShape{Msgs: []genMsg{{Name: fmt.Sprintf("File%c", 'A'+i), Role: groupRoles[r]}}}.file(i))
			if gc.One {
				fp.Name = proto.String(fmt.Sprintf("verifmc/gen/group/f%d.proto", i))
				fp.Package = proto.String("mcgen.group")
				fp.Options.GoPackage = proto.String("verifmc/zz_gen/group")
			}
			fs = append(fs, localFile(fp))
			alone, err := generateOwn(genRequest(fs[i]))
			if err != nil {
				return failf("refused", "a request for a file of one message is refused: %v", err)
			}
			want = append(want, alone)
		}
		var ask []protoreflect.FileDescriptor
		wantAll := map[string]string{}
		for i := range fs {
			if gc.Ask>>i&1 == 1 {
				ask = append(ask, fs[i])
				for n, t := range want[i] {
					wantAll[n] = t
				}
			}
		}
		for rep := 0; rep < 2; rep++ {
			code, err := generateOwn(genRequest(ask...))
			if err != nil {
				return failf("refused", "a request for %d files is refused: %v", len(ask), err)
			}
			addN(&c.Transitions, len(ask))
			if got, exp := sortedKeys(code), sortedKeys(wantAll); fmt.Sprint(got) != fmt.Sprint(exp) {
				return failf("request-files", "a request for %d files writes %v, each alone %v", len(ask), got, exp)
			}
			for n, t := range wantAll {
				if code[n] != t {
					return failf("request-dependent", "the code of %s depends on the other files of the request: %s", n, firstDiff(t, code[n]))
				}
			}
			// in the other order of asking
			for i, j := 0, len(ask)-1; i < j; i, j = i+1, j-1 {
				ask[i], ask[j] = ask[j], ask[i]
			}
		}
		addN(&c.Traces, 1)
		return nil
	})

	// shapes
	shapes := genShapes(c.Thorough)
	var onceS sync.Once
	var outcomes []genOutcome
	var harness interface{}
	Explore(c, "shapes", func(emit func(int) bool) {
		for i := range shapes {
			if !emit(i) {
				return
			}
		}
	}, func(w *Worker, i int) *Fail {
		onceS.Do(func() {
			defer func() { harness = recover() }()
			outcomes = runShapes(c.Verif, shapes, minInt(depth, 3))
		})
		if harness != nil {
			panic(harness)
		}
		s, o := shapes[i], outcomes[i]
		text, _ := json.Marshal(s)
		switch {
		case s.Refuse:
			// code that cannot be compiled is noticed, too
			if o.refused == "" && o.compile == "" && o.result != nil {
				if f := c.judgeGen(*o.result); f != nil {
					return failf("accepted", "%s: code is generated that is wrong: %s", text, f.Msg)
				}
			}
			c.Outcome("refused")
			return nil
		case o.refused != "":
			return failf("refused", "%s: the generator refuses it: %s", text, trunc(o.refused, 600))
		case o.compile != "":
			return failf("does-not-compile", "%s: the generated code does not compile: %s", text, trunc(o.compile, 600))
		case o.result == nil:
			c.Outcome("nothing declared")
			return nil
		}
		c.Outcome(fmt.Sprint(o.result.Objects, o.result.Transitions, len(s.Msgs)))
		if f := c.judgeGen(*o.result); f != nil {
			return failf("shape-"+f.Key, "%s: %s", text, f.Msg)
		}
		return nil
	})
}
