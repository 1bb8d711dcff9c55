package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"

	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/pkg/client"
	"github.com/fdymylja/tmos/pkg/spfcli"
	"github.com/fdymylja/tmos/runtime"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func init() { register("C33", c33) }

// rpcNode is the RPC endpoint of a node, which answers queries as told.
type rpcNode struct {
	srv *httptest.Server

	mu     sync.Mutex
	asked  []rpcAsked
	answer func(q rpcAsked) rpcAnswer
}

type rpcAsked struct {
	Method string
	Path   string
	Data   string
	Height string
	Prove  bool
}

// rpcAnswer is what the node answers: a result or, with Raw, something else.
type rpcAnswer struct {
	Code  uint32
	Log   string
	Value []byte
	// failures on the way
	Status int
	Raw    string // %ID% is replaced by the request's id
	Cut    bool   // the connection is closed
}

func (a rpcAnswer) fails() bool { return a.Code != 0 || a.Raw != "" || a.Cut }

func newRPCNode() *rpcNode {
	n := new(rpcNode)
	n.srv = httptest.NewServer(n)
	return n
}

func (n *rpcNode) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	var req struct {
		ID     json.RawMessage `json:"id"`
		Method string          `json:"method"`
		Params struct {
			Path   string `json:"path"`
			Data   string `json:"data"`
			Height string `json:"height"`
			Prove  bool   `json:"prove"`
		} `json:"params"`
	}
	q := rpcAsked{Method: "no JSON-RPC: " + string(b)}
	if json.Unmarshal(b, &req) == nil {
		q = rpcAsked{req.Method, req.Params.Path, req.Params.Data, req.Params.Height, req.Params.Prove}
	}
	n.mu.Lock()
	n.asked = append(n.asked, q)
	a := n.answer(q)
	n.mu.Unlock()
	if a.Cut {
		c, _, err := w.(http.Hijacker).Hijack()
		must(err)
		c.Close()
		return
	}
	w.Header().Set("Content-Type", "application/json")
	if a.Status != 0 {
		w.WriteHeader(a.Status)
	}
	if a.Raw != "" {
		fmt.Fprint(w, strings.ReplaceAll(a.Raw, "%ID%", string(req.ID)))
		return
	}
	resp := map[string]interface{}{"code": a.Code, "log": a.Log, "info": "", "index": "0", "key": "a2V5", "height": "7", "codespace": ""}
	if a.Value != nil {
		resp["value"] = base64.StdEncoding.EncodeToString(a.Value)
	}
	out, err := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": map[string]interface{}{"response": resp}})
	must(err)
	_, _ = w.Write(out)
}

// with answers a and tells what was asked while f ran.
func (n *rpcNode) with(a func(rpcAsked) rpcAnswer, f func()) []rpcAsked {
	n.mu.Lock()
	n.asked, n.answer = nil, a
	n.mu.Unlock()
	f()
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.asked
}

func always(a rpcAnswer) func(rpcAsked) rpcAnswer { return func(rpcAsked) rpcAnswer { return a } }

func rpcFailures() []rpcAnswer {
	out := []rpcAnswer{
		{Cut: true},
		{Raw: "no JSON"},
		{Raw: "{}"},
		{Raw: " "},
		{Raw: `{"jsonrpc":"2.0","id":%ID%,"error":{"code":-32603,"message":"Internal error","data":"x"}}`},
		{Raw: `{"jsonrpc":"2.0","id":99999,"result":{"response":{"code":0,"value":"e30="}}}`},
		{Raw: `{"jsonrpc":"2.0","id":%ID%,"result":{"response":{"code":0,"value":"e30="`},
		{Raw: `{"jsonrpc":"2.0","id":%ID%,"result":{"response":{"code":0,"value":"%%%"}}}`},
		{Raw: `<html>502</html>`, Status: 502},
	}
	for _, code := range []uint32{1, 2, 3, 4, 255, 1 << 31, 1<<32 - 1} {
		for _, v := range [][]byte{nil, []byte("{}"), []byte(`{"apiGroupResources":[{"apiGroup":"g","stateObjects":["k"]}]}`)} {
			out = append(out, rpcAnswer{Code: code, Log: []string{"", "not found", "%s %d"}[code%3], Value: v})
		}
	}
	return out
}

func rpcValues() [][]byte {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	return [][]byte{nil, []byte("{}"), []byte(`{"address":"a","balance":[]}`), []byte("%s %d %!"), []byte("\n"), {0}, []byte("ä€\x00\xff"), all, bytes.Repeat([]byte("0123456789abcdef"), 6000)}
}

func rpcWords() []string {
	return []string{"tmos.bank.v1alpha1", "Balance", "unique", "a", "", "A b", "a/b", "/", "..", "%2f", "%s", "\"", "ä€", "?x=y&z", "#", "\n", "api_resources", strings.Repeat("n", 3000), "a\\u0041", "<&>", "+"}
}

func c33(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "every group, kind and name over an alphabet of words, with every kind of answer of the node and every failure on the way, through the RPC client: what is asked and what is returned; every object and absent object of a running application through client and node; every command line over an alphabet of arguments in every state of the configuration"
	node := func(w *Worker) *rpcNode {
		if n, ok := w.S["node"].(*rpcNode); ok {
			return n
		}
		n := newRPCNode()
		w.S["node"] = n
		w.OnClose(n.srv.Close)
		return n
	}
	rpc := func(w *Worker) client.Client {
		if cl, ok := w.S["rpc"].(client.Client); ok {
			return cl
		}
		cl, err := client.NewRPC(node(w).srv.URL)
		must(err)
		w.S["rpc"] = cl
		return cl
	}
	words := rpcWords()
	// judgeGet compares the outcome of getting an object with the answer given.
	judgeGet := func(asked []rpcAsked, path string, a rpcAnswer, got []byte, err error) *Fail {
		addN(&c.Transitions, 1)
		switch {
		case len(asked) < 1 || len(asked) > 1 && !a.Cut: // a cut connection may be tried again
			return failf("asked", "getting %q asks the node %d times: %v", trunc(path, 100), len(asked), asked)
		case asked[0].Method != "abci_query" || asked[0].Path != path || asked[0].Data != "" || asked[0].Height != "0" && asked[0].Height != "" || asked[len(asked)-1] != asked[0]:
			return failf("asked", "getting %q asks the node for %+v", trunc(path, 100), asked)
		case a.fails() && err == nil:
			return failf("failure-hidden", "getting %q: the node answers %+v and the client returns %q without an error", trunc(path, 100), a, got)
		case a.fails():
			if len(got) > 0 {
				return failf("failure-value", "getting %q: the node fails and the client returns %q", trunc(path, 100), got)
			}
			return nil
		case err != nil:
			return failf("answer-lost", "getting %q: the node answers %q and the client returns the error %v", trunc(path, 100), trunc(string(a.Value), 80), err)
		case !bytes.Equal(got, a.Value):
			return failf("answer-changed", "getting %q: the node answers %q and the client returns %q", trunc(path, 100), trunc(string(a.Value), 80), trunc(string(got), 80))
		}
		return nil
	}
	get := func(w *Worker, g, k, n string, a rpcAnswer) *Fail {
		var got []byte
		var err error
		var p string
		asked := node(w).with(always(a), func() { p = try(func() { got, err = rpc(w).Get(context.Background(), g, k, n) }) })
		if p != "" {
			return failf("panic", "Get(%q, %q, %q) with the answer %+v panics: %s", g, k, n, a, p)
		}
		return judgeGet(asked, "get/"+g+"/"+k+"/"+n, a, got, err)
	}
	type getCase struct{ G, K, N int }
	Explore(c, "addresses", func(emit func(getCase) bool) {
		for g := range words {
			for k := range words {
				for n := range words {
					if !c.Thorough && g > 4 && k > 4 && n > 4 {
						continue
					}
					if !emit(getCase{g, k, n}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, gc getCase) *Fail {
		addN(&c.Traces, 1)
		c.State(fmt.Sprint("get", gc))
		return get(w, words[gc.G], words[gc.K], words[gc.N], rpcAnswer{Value: []byte(`{"n":"` + fmt.Sprint(gc) + `"}`)})
	})
	type ansCase struct {
		Res  bool
		Fail int // -1: Val
		Val  int
	}
	fails, vals := rpcFailures(), rpcValues()
	resVals := []struct {
		text string
		want []string
		ok   bool
	}{
		{`{}`, nil, true}, {`{"apiGroupResources":[]}`, nil, true}, {`{"apiGroupResources":[{"apiGroup":"g","stateObjects":["k"]}]}`, []string{"g k"}, true},
		{`{"apiGroupResources":[{"apiGroup":"g","stateObjects":["k","%s"]},{"stateObjects":["b","a"]},{"apiGroup":"g","stateObjects":["k"]},{"apiGroup":"e"}]}`, []string{"g k", "g %s", " b", " a", "g k"}, true},
		{"", nil, false}, {"[]", nil, false}, {`{"apiGroupResources":`, nil, false}, {`{"apiGroupResources":[{"apiGroup":7}]}`, nil, false}, {"\xff", nil, false},
	}
	Explore(c, "answers", func(emit func(ansCase) bool) {
		for i := range fails {
			if !emit(ansCase{false, i, 0}) || !emit(ansCase{true, i, 0}) {
				return
			}
		}
		for i := range vals {
			if !emit(ansCase{false, -1, i}) {
				return
			}
		}
		for i := range resVals {
			if !emit(ansCase{true, -1, i}) {
				return
			}
		}
	}, func(w *Worker, ac ansCase) *Fail {
		addN(&c.Traces, 1)
		c.Outcome(fmt.Sprint(ac))
		var a rpcAnswer
		if ac.Fail >= 0 {
			a = fails[ac.Fail]
		} else if !ac.Res {
			a = rpcAnswer{Value: vals[ac.Val], Log: "log"}
		} else {
			a = rpcAnswer{Value: []byte(resVals[ac.Val].text)}
		}
		if !ac.Res {
			// twice, between other answers
			for i := 0; i < 2; i++ {
				if f := get(w, "g", "k", "n", a); f != nil {
					return f
				}
				if f := get(w, "g", "k", "m", rpcAnswer{Value: []byte("other")}); f != nil {
					return f
				}
			}
			return nil
		}
		var res *runtimev1.Resources
		var err error
		var p string
		asked := node(w).with(always(a), func() { p = try(func() { res, err = rpc(w).Resources(context.Background()) }) })
		addN(&c.Transitions, 1)
		if p != "" {
			return failf("panic", "Resources with the answer %+v panics: %s", a, p)
		}
		if len(asked) < 1 || asked[0].Method != "abci_query" || asked[0].Path != runtime.ResourcesPath || len(asked) > 1 && !a.Cut {
			return failf("asked", "asking for the resources asks the node for %+v", asked)
		}
		if a.fails() || !resVals[ac.Val].ok {
			if err == nil {
				return failf("failure-hidden", "the node answers %+v and Resources returns %v without an error", a, res)
			}
			return nil
		}
		if err != nil {
			return failf("answer-lost", "the node answers %s and Resources fails: %v", a.Value, err)
		}
		got := resList(res)
		if strings.Join(got, ";") != strings.Join(resVals[ac.Val].want, ";") || len(got) != len(resVals[ac.Val].want) {
			return failf("answer-changed", "the node answers %s and Resources returns %q", a.Value, got)
		}
		return nil
	})

	// every sequence of calls on two clients of two nodes: no answer depends on
	// what was asked before
	type histOp struct{ Client, Op, Ans int }
	type histCase struct{ Ops []histOp }
	maxLen := 3
	if c.Thorough {
		maxLen = 4
	}
	Explore(c, "histories", func(emit func(histCase) bool) {
		for l := 1; l <= maxLen; l++ {
			k := 18
			if l == 4 {
				k = 9 // on one client
			}
			if !wordsLen(k, l, func(ix []int) bool {
				hc := histCase{make([]histOp, len(ix))}
				for i, x := range ix {
					hc.Ops[i] = histOp{x / 9, x / 3 % 3, x % 3}
				}
				return emit(hc)
			}) {
				return
			}
		}
	}, func(w *Worker, hc histCase) *Fail {
		ns, _ := w.S["nodes"].([]*rpcNode)
		if ns == nil {
			for i := 0; i < 2; i++ {
				n := newRPCNode()
				w.OnClose(n.srv.Close)
				ns = append(ns, n)
			}
			w.S["nodes"] = ns
		}
		var cls [2]client.Client
		for i := range cls {
			cl, err := client.NewRPC(ns[i].srv.URL)
			must(err)
			cls[i] = cl
		}
		addN(&c.Traces, 1)
		for i, op := range hc.Ops {
			a := rpcAnswer{Code: 3, Log: "no"}
			if op.Ans < 2 {
				a = rpcAnswer{Value: []byte([]string{`{"apiGroupResources":[{"apiGroup":"g","stateObjects":["one"]}]}`, `{"apiGroupResources":[{"apiGroup":"g","stateObjects":["two"]}]}`}[op.Ans])}
			}
			what := func(f *Fail) *Fail {
				if f != nil {
					f.Msg = fmt.Sprintf("after %+v: %s", hc.Ops[:i], f.Msg)
				}
				return f
			}
			other := ns[1-op.Client]
			var asked, askedOther []rpcAsked
			var got []byte
			var res *runtimev1.Resources
			var err error
			name := []string{"n", "m"}[op.Op%2]
			askedOther = other.with(always(rpcAnswer{Code: 5}), func() {
				asked = ns[op.Client].with(always(a), func() {
					if op.Op < 2 {
						got, err = cls[op.Client].Get(context.Background(), "g", "k", name)
					} else {
						res, err = cls[op.Client].Resources(context.Background())
					}
				})
			})
			if len(askedOther) > 0 {
				return what(failf("asked-other", "a client asks the other client's node for %+v", askedOther))
			}
			if op.Op < 2 {
				if f := judgeGet(asked, "get/g/k/"+name, a, got, err); f != nil {
					return what(f)
				}
				continue
			}
			addN(&c.Transitions, 1)
			switch {
			case len(asked) != 1 || asked[0].Path != runtime.ResourcesPath:
				return what(failf("asked", "asking for the resources asks the node for %+v", asked))
			case a.fails() != (err != nil):
				return what(failf("resources-error", "the node answers %+v and Resources returns %v, %v", a, res, err))
			case err == nil && strings.Join(resList(res), ";") != "g "+[]string{"one", "two"}[op.Ans]:
				return what(failf("answer-changed", "the node answers %s and Resources returns %q", a.Value, resList(res)))
			}
		}
		return nil
	})

	// through the client and the node
	type appCase struct{ State, Obj int }
	objs := append(repoObjects(), appT().note.obj())
	Explore(c, "application", func(emit func(appCase) bool) {
		for s := 0; s < 3; s++ {
			for o := -1; o < len(objs); o++ {
				if !emit(appCase{s, o}) {
					return
				}
			}
		}
	}, func(w *Worker, ac appCase) *Fail {
		apps, _ := w.S["apps"].([]*App)
		if apps == nil {
			for s := 0; s < 3; s++ {
				a := newApp(appCfg{Accounts: stdAccounts()})
				if s > 0 {
					a.begin(int64(s))
				}
				if s > 1 {
					a.deliver(mkSimple([]int{0}, putMsg("n1", "v", ""), sendMsg(key(0).addr, key(3).addr, cn{"test", "2"}))(a.observe()).bytes())
				}
				apps = append(apps, a)
				w.OnClose(a.close)
			}
			w.S["apps"] = apps
		}
		a := apps[ac.State]
		ask := func(q rpcAsked) rpcAnswer {
			r := a.abci.Query(abcitypes.RequestQuery{Path: q.Path})
			return rpcAnswer{Code: r.Code, Log: r.Log, Value: r.Value}
		}
		if ac.Obj < 0 {
			var res *runtimev1.Resources
			var err error
			node(w).with(ask, func() { res, err = rpc(w).Resources(context.Background()) })
			if err != nil {
				return failf("app-resources", "the resources of a running application: %v", err)
			}
			want, f := parseResources(a.abci.Query)
			if f != nil {
				return f
			}
			got := resList(res)
			if strings.Join(got, ";") != strings.Join(want, ";") {
				return failf("app-resources", "the client lists %v, the node %v", got, want)
			}
			return nil
		}
		d := objs[ac.Obj].APIDefinition()
		for _, id := range []string{"unique", "n1", key(0).addr, key(3).addr, "bank", "nothing", "", "external_account"} {
			var got []byte
			var err error
			asked := node(w).with(ask, func() { got, err = rpc(w).Get(context.Background(), d.Group, d.Kind, id) })
			r := a.abci.Query(abcitypes.RequestQuery{Path: "get/" + d.Group + "/" + d.Kind + "/" + id})
			c.Outcome(fmt.Sprint("application found=", r.Code == 0))
			// protojson varies its spaces from call to call of the node
			v := rpcAnswer{Code: r.Code, Value: r.Value}
			if r.Code == 0 && err == nil {
				x, y := proto.Clone(objs[ac.Obj]), proto.Clone(objs[ac.Obj])
				if protojson.Unmarshal(got, x) == nil && protojson.Unmarshal(r.Value, y) == nil && proto.Equal(x, y) {
					v.Value = got
				}
			}
			if f := judgeGet(asked, "get/"+d.Group+"/"+d.Kind+"/"+id, v, got, err); f != nil {
				return f
			}
		}
		addN(&c.Traces, 1)
		return nil
	})

	// the command line
	type cliCase struct {
		Args []string
		Conf string
		Ans  int
	}
	confs := []string{"env", "home", "env without file", "no yaml", "no endpoint", "empty", "bad endpoint", "nobody answers", "other keys"}
	answers := []rpcAnswer{{Value: []byte(`{"a":"%s %d"}`)}, {Value: []byte(`{"apiGroupResources":[{"apiGroup":"grp","stateObjects":["Kind"]},{"apiGroup":"g2","stateObjects":["K2"]}]}`)}, {Code: 3, Log: "not found"}, {Code: 0}, {Cut: true}, {Raw: "no JSON"}}
	dead, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	deadURL := "http://" + dead.Addr().String()
	dead.Close()
	var envMu sync.Mutex // the configuration is found through the environment
	Explore(c, "command-line", func(emit func(cliCase) bool) {
		cmds := []string{"get", "resources", "gett", "config", "help"}
		args := []string{"g", "k", "x%s", "", "a b"}
		for _, cmd := range cmds {
			for l := 0; l <= 5; l++ {
				if !wordsLen(len(args), minInt(l, 3), func(ix []int) bool {
					x := []string{cmd}
					for _, i := range ix {
						x = append(x, args[i])
					}
					for len(x) < 1+l {
						x = append(x, "more")
					}
					for ci, conf := range confs {
						for a := range answers {
							if cmd != "get" && cmd != "resources" && (ci > 0 || a > 0) || l == 3 && (ci > 1) && (ix[0] > 0 || ix[1] != 1) && !c.Thorough || l > 3 && ix[1] > 0 && !c.Thorough {
								continue
							}
							if !emit(cliCase{x, conf, a}) {
								return false
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}
	}, func(w *Worker, cc cliCase) *Fail {
		envMu.Lock()
		defer envMu.Unlock()
		n := node(w)
		dir, ok := w.S["dir"].(string)
		if !ok {
			var err error
			dir, err = os.MkdirTemp("", "mc33")
			must(err)
			w.S["dir"] = dir
			w.OnClose(func() { os.RemoveAll(dir) })
		}
		must(os.RemoveAll(filepath.Join(dir, "conf")))
		must(os.RemoveAll(filepath.Join(dir, spfcli.DefaultConfigDirectory)))
		write := func(sub, text string) {
			must(os.MkdirAll(filepath.Join(dir, sub), 0o755))
			must(os.WriteFile(filepath.Join(dir, sub, spfcli.ConfigName), []byte(text), 0o644))
		}
		url := "tendermintRPC: " + n.srv.URL + "\n"
		reachable, env := true, true
		switch cc.Conf {
		case "env":
			write("conf", url)
			write(spfcli.DefaultConfigDirectory, "tendermintRPC: "+deadURL+"\n")
		case "home":
			write(spfcli.DefaultConfigDirectory, url)
			env = false
		case "other keys":
			write("conf", "other: 1\n"+url)
		default:
			reachable = false
			switch cc.Conf {
			case "env without file": // the one of the home directory is not used instead
				write(spfcli.DefaultConfigDirectory, url)
			case "no yaml":
				write("conf", "\ttendermintRPC: [")
			case "no endpoint":
				write("conf", "other: x\n")
			case "empty":
				write("conf", "")
			case "bad endpoint":
				write("conf", "tendermintRPC: \"http://[::1\"\n")
			case "nobody answers":
				write("conf", "tendermintRPC: "+deadURL+"\n")
			}
		}
		must(os.Setenv("HOME", dir))
		if env {
			must(os.Setenv(spfcli.ConfigDirectoryEnv, filepath.Join(dir, "conf")))
		} else {
			must(os.Unsetenv(spfcli.ConfigDirectoryEnv))
		}
		a := answers[cc.Ans]
		out := new(bytes.Buffer)
		var err error
		var p string
		asked := n.with(always(a), func() {
			p = try(func() {
				cli := spfcli.NewCLI()
				cli.SilenceUsage, cli.SilenceErrors = true, true
				cli.SetOut(out)
				cli.SetErr(out)
				cli.SetArgs(cc.Args)
				err = cli.Execute()
			})
		})
		addN(&c.Transitions, 1)
		addN(&c.Traces, 1)
		what := fmt.Sprintf("spfcli %q with configuration %q and the node's answer %+v", cc.Args, cc.Conf, a)
		if p != "" {
			return failf("cli-panic", "%s panics: %s", what, trunc(p, 300))
		}
		cmd, rest := cc.Args[0], cc.Args[1:]
		switch {
		case cmd != "get" && cmd != "resources":
			if len(asked) > 0 {
				return failf("cli-asked", "%s asks the node for %+v", what, asked)
			}
			if cmd == "gett" && err == nil {
				return failf("cli-unknown", "%s succeeds", what)
			}
			return nil
		case cmd == "get" && len(rest) < 3 || cmd == "resources" && len(rest) > 0:
			if err == nil || len(asked) > 0 {
				return failf("cli-arguments", "%s is not refused: error %v, asked %+v", what, err, asked)
			}
			return nil
		case cmd == "get" && len(rest) > 3 && err != nil && len(asked) == 0:
			return nil // refused
		}
		c.Outcome(fmt.Sprint(cmd, cc.Conf, cc.Ans))
		if !reachable {
			if err == nil {
				return failf("cli-configuration", "%s succeeds: %s", what, out)
			}
			if len(asked) > 0 {
				return failf("cli-configuration", "%s asks a node it is not configured for: %+v", what, asked)
			}
			return nil
		}
		path := runtime.ResourcesPath
		if cmd == "get" {
			path = "get/" + strings.Join(rest[:3], "/")
		}
		if len(asked) < 1 || len(asked) > 1 && !a.Cut || asked[0].Method != "abci_query" || asked[0].Path != path {
			return failf("cli-asked", "%s (error %v) asks the node for %+v", what, err, asked)
		}
		bad := a.fails() || cmd == "resources" && cc.Ans != 1
		if bad {
			if err == nil {
				return failf("cli-failure-hidden", "%s succeeds: %s", what, out)
			}
			return nil
		}
		if err != nil {
			return failf("cli-answer-lost", "%s fails: %v", what, err)
		}
		got := out.String()
		if cmd == "get" && strings.TrimSuffix(got, "\n") != string(a.Value) {
			return failf("cli-answer-changed", "%s prints %q", what, got)
		}
		if cmd == "resources" {
			for _, s := range []string{"grp", "Kind", "g2", "K2"} {
				if !strings.Contains(got, s) {
					return failf("cli-answer-changed", "%s prints %q", what, got)
				}
			}
		}
		return nil
	})
}

func resList(res *runtimev1.Resources) (out []string) {
	for _, g := range res.ApiGroupResources {
		for _, k := range g.StateObjects {
			out = append(out, g.ApiGroup+" "+k)
		}
	}
	return
}
