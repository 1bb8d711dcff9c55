package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/module"
)

func init() { register("C35", c35) }

// impModule records how it is given its part of an imported state.
type impModule struct {
	name    string
	genesis bool
	on      *[]impCall
	fail    *string // the name of the module whose import fails
	kind    *int
}

type impCall struct {
	Module, What, State string
}

func (m impModule) Initialize(module.Client) module.Descriptor {
	d := module.NewDescriptorBuilder().Named(m.name)
	if m.genesis {
		d.WithGenesis(m)
	}
	return d.Build()
}

func (m impModule) Default() error {
	*m.on = append(*m.on, impCall{m.name, "default", ""})
	return nil
}

func (m impModule) Import(s json.RawMessage) error {
	*m.on = append(*m.on, impCall{m.name, "import", string(s)})
	if *m.fail == m.name {
		return refusal(*m.kind, "import refused by "+m.name)
	}
	return nil
}

func (m impModule) Export() (json.RawMessage, error) { return nil, nil }

// sameValue tells whether two texts denote the same JSON value.
func sameValue(a, b string) bool {
	dec := func(s string) (v interface{}, ok bool) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if d.Decode(&v) != nil || d.More() {
			return nil, false
		}
		return v, true
	}
	x, ok1 := dec(a)
	y, ok2 := dec(b)
	return ok1 && ok2 && reflect.DeepEqual(x, y)
}

type impApp struct {
	rt    *runtime.Runtime
	calls []impCall
	fail  string
	kind  int
}

type impCase struct {
	Order  []int    // of the modules
	Values []int    // of impValues for each module, -1: absent
	Extra  int      // of impExtras
	Keys   []int    // order of the keys in the document
	Fail   int      // module that refuses, -1: none
	Kind   int      // of the refusal
	Cut    int      // bytes of the document that are left, -1: all
	Raw    string   // the whole document
	Blanks bool     `json:",omitempty"`
	Names  []string `json:",omitempty"`
}

var impValues = []string{`{}`, `null`, `{"a":1,"b":[true,null,"é\u0000\n"],"c":{"a":{}}}`, `"text"`, `123456789012345678901234567890.5`, `[1,2,3]`, `0`, `""`, `false`, `{"mcalpha":{"x":1},"bank":7}`, `[]`}
var impExtras = []string{``, `"unknown":{"a":1}`, `"bank":{"x":2}`, `"runtime":1,"abci":2`, `"":{}`, `"MCALPHA":5`, `"mcalpha ":6`, `"mcalph":7`, `"mcalphab":8`}

func c35(c *Ctx) {
	c.Rule = "every order of three modules (one of them without genesis), every assignment of JSON values to them (absent, null, objects, lists, numbers beyond float precision, escaped texts), further keys of every kind, every order of the keys, every failing module and kind of failure, up to 66 modules, every truncation of the document and documents that are no object; the calls the modules receive compared with the document."
	names := []string{"mcalpha", "mc/beta", "mcγ"}
	run := func(w *Worker, cs impCase) *Fail {
		ns := names
		if cs.Names != nil {
			ns = cs.Names
		}
		// one runtime per arrangement, an import leaves nothing behind in it
		key := fmt.Sprint(cs.Order, cs.Names)
		st, ok := w.S[key].(*impApp)
		if !ok {
			if old, is := w.S["many"].(string); is && len(cs.Order) > 3 {
				for _, d := range findDBs(w.S[old].(*impApp).rt) {
					d.Close()
				}
				delete(w.S, old)
			}
			if len(cs.Order) > 3 {
				w.S["many"] = key
			}
			st = new(impApp)
			b := runtime.NewBuilder()
			for _, i := range cs.Order {
				b.AddModule(impModule{ns[i], i != 2 || cs.Names != nil, &st.calls, &st.fail, &st.kind})
			}
			rt, err := b.Build()
			must(err)
			st.rt = rt
			w.S[key] = st
			w.OnClose(func() {
				if w.S[key] != st {
					return
				}
				for _, d := range findDBs(rt) {
					d.Close()
				}
			})
		}
		st.calls, st.fail, st.kind = nil, "", cs.Kind
		if cs.Fail >= 0 {
			st.fail = ns[cs.Fail]
		}
		doc, parts := cs.Raw, map[string]string{}
		if doc == "" {
			var kv []string
			for _, i := range cs.Keys {
				if cs.Values[i] < 0 {
					continue
				}
				k, err := json.Marshal(ns[i])
				must(err)
				sep := ":"
				if cs.Blanks {
					sep = " :\n\t"
				}
				parts[ns[i]] = impValues[cs.Values[i]]
				kv = append(kv, string(k)+sep+parts[ns[i]])
			}
			if impExtras[cs.Extra] != "" {
				kv = append(kv[:len(kv)/2:len(kv)/2], append([]string{impExtras[cs.Extra]}, kv[len(kv)/2:]...)...)
			}
			doc = "{" + strings.Join(kv, ",") + "}"
			if cs.Blanks {
				doc = " \n" + strings.ReplaceAll(doc, "\",", "\" ,\r\n") + "\t"
			}
		}
		malformed := cs.Raw != ""
		if cs.Cut >= 0 {
			if cs.Cut >= len(doc) {
				return nil
			}
			doc, malformed = doc[:cs.Cut], true
		}
		given := []byte(doc)
		err := st.rt.Import(given)
		calls := st.calls
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint(calls, err != nil))
		desc := fmt.Sprintf("modules %v import %q: error %v, calls %+v", order(ns, cs.Order), doc, err, calls)
		if !bytes.Equal(given, []byte(doc)) {
			return failf("document-changed", "%s\n  the document given is changed", desc)
		}
		if malformed {
			if err == nil {
				return failf("malformed-accepted", "%s\n  the document is malformed", desc)
			}
			if len(calls) > 0 {
				return failf("malformed-called", "%s\n  the document is malformed", desc)
			}
			return nil
		}
		n := 0
		for _, i := range cs.Order {
			if i == 2 && cs.Names == nil {
				continue // no genesis
			}
			if n >= len(calls) {
				return failf("not-called", "%s\n  module %s is not called", desc, ns[i])
			}
			got := calls[n]
			n++
			if got.Module != ns[i] || got.What != "import" {
				return failf("order", "%s\n  call %d must be the import of %s", desc, n, ns[i])
			}
			want, there := parts[ns[i]]
			if there && !sameValue(got.State, want) || !there && got.State != "" {
				return failf("state", "%s\n  module %s is given %q instead of %q", desc, ns[i], got.State, want)
			}
			if cs.Fail == i {
				if err == nil {
					return failf("failure-ignored", "%s\n  the import of %s fails", desc, ns[i])
				}
				if n != len(calls) {
					return failf("called-after-failure", "%s\n  the import of %s fails", desc, ns[i])
				}
				return nil
			}
		}
		if n != len(calls) {
			return failf("called-again", "%s\n  there must be %d calls", desc, n)
		}
		if err != nil {
			return failf("refused", "%s\n  no module refuses", desc)
		}
		return nil
	}
	id := []int{0, 1, 2}
	Explore(c, "values", func(emit func(impCase) bool) {
		wordsLen(len(impValues)+1, 3, func(ix []int) bool {
			v := []int{ix[0] - 1, ix[1] - 1, ix[2] - 1}
			for e := range impExtras {
				if e > 0 && !c.Thorough && ix[2] > 1 {
					break
				}
				if !emit(impCase{Order: id, Values: v, Extra: e, Keys: id, Fail: -1, Cut: -1, Blanks: e%2 == 1}) {
					return false
				}
			}
			return true
		})
	}, run)
	Explore(c, "orders", func(emit func(impCase) bool) {
		perms(3, func(p []int) bool {
			p = append([]int{}, p...)
			return perms(3, func(q []int) bool {
				q = append([]int{}, q...)
				for fail := -1; fail < 2; fail++ {
					for k := range refusals {
						if fail < 0 && k > 0 {
							break
						}
						for _, v := range [][]int{{0, 2, 3}, {-1, 4, 0}, {5, -1, -1}, {-1, -1, -1}} {
							if !emit(impCase{Order: p, Values: v, Keys: q, Fail: fail, Kind: k, Cut: -1, Extra: 1}) {
								return false
							}
						}
					}
				}
				return true
			})
		})
	}, run)
	// names that resemble each other, each module with its own part
	Explore(c, "names", func(emit func(impCase) bool) {
		alike := []string{"a", "A", "aa", "a.a", "a/a", "á", "a\u0301", "\"a\"", " a", "a ", "a\n", "a\x00", "bank", "Bank", "modules"}
		for i := range alike {
			for j := range alike {
				if i == j {
					continue
				}
				for _, v := range [][]int{{0, 3}, {2, -1}, {-1, 2}} {
					if !emit(impCase{Order: []int{0, 1}, Values: v, Keys: []int{1, 0}, Fail: -1, Cut: -1, Names: []string{alike[i], alike[j]}}) {
						return
					}
				}
			}
		}
	}, run)
	// many modules, each with a part of its own, each absent or failing in turn
	Explore(c, "many modules", func(emit func(impCase) bool) {
		for _, n := range sizesTo(most(c, 66, 201)) {
			if !c.Thorough && n > 4 && n < 20 && n%4 > 1 {
				continue
			}
			var ns []string
			for i := 0; i < n; i++ {
				ns = append(ns, fmt.Sprintf("m%d", (i*7)%100+i/100*100))
			}
			fwd, rev := upTo(n), upTo(n)
			for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
				rev[a], rev[b] = rev[b], rev[a]
			}
			for _, at := range append([]int{-1}, placesIn(n)...) {
				for what := 0; what < 3; what++ {
					v := make([]int, n)
					for i := range v {
						v[i] = i % len(impValues)
					}
					cs := impCase{Order: fwd, Keys: rev, Values: v, Fail: -1, Cut: -1, Names: ns, Extra: n % len(impExtras)}
					if n%2 == 0 {
						cs.Order, cs.Keys = rev, fwd
					}
					switch {
					case at < 0 && what > 0:
						continue
					case at < 0:
					case what == 0:
						v[at] = -1
					case what == 1:
						cs.Fail, cs.Kind = at, (at+n)%len(refusals)
					case what == 2: // the only part
						for i := range v {
							if i != at {
								v[i] = -1
							}
						}
					}
					if !emit(cs) {
						return
					}
				}
			}
		}
		for _, n := range []int{1, 100, 1000, 4000, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 200000} { // long names
			l := strings.Repeat("l", n)
			if !emit(impCase{Order: []int{0, 1}, Values: []int{2, 3}, Keys: []int{1, 0}, Fail: -1, Cut: -1, Names: []string{l, l + "l"}}) {
				return
			}
		}
	}, run)
	Explore(c, "malformed", func(emit func(impCase) bool) {
		for _, v := range [][]int{{2, 3, 4}, {9, 0, -1}} {
			for cut := 0; cut < 300; cut++ {
				if !emit(impCase{Order: id, Values: v, Keys: id, Fail: -1, Cut: cut}) {
					return
				}
			}
		}
		for _, r := range []string{"[]", "1", `"x"`, "true", "{", "}", "{}{}", `{}x`, `{"mcalpha":}`, `{"mcalpha"}`, `{"mcalpha":1,}`, `{mcalpha:1}`, `{"mcalpha":1 "mc/beta":2}`, `{"mcalpha":tru}`, `{'mcalpha':1}`, "\x00{}", "\xff", `{"mcalpha":01}`, `{"mcalpha":{"a":}}`, `{"unknown":}`, `[{"mcalpha":1}]`, ` `, "\n"} {
			if !emit(impCase{Order: id, Values: []int{-1, -1, -1}, Keys: id, Fail: -1, Cut: -1, Raw: r}) {
				return
			}
		}
	}, run)
}

func order(names []string, ix []int) (out []string) {
	for _, i := range ix {
		out = append(out, names[i])
	}
	return
}
