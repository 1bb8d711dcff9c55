package main

import (
	"errors"
	"fmt"
	"strings"

	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
)

func init() { register("C36", c36) }

// codeOf are the codes a failure with this cause may be answered with: that of each class
// the error belongs to, or any other one when it belongs to none.
func codeOf(err error) (want []uint32, class string) {
	for _, k := range []struct {
		e    error
		code uint32
		name string
	}{{rterr.ErrBadRequest, 400, "bad request"}, {rterr.ErrNotFound, 404, "not found"}, {rterr.ErrAlreadyExists, 409, "already exists"}, {rterr.ErrConditionNotMet, 412, "conditions not met"}} {
		if errors.Is(err, k.e) {
			want, class = append(want, k.code), class+k.name+" "
		}
	}
	return
}

func judgeCode(desc string, code uint32, space, log string, err error) *Fail {
	want, class := codeOf(err)
	desc = fmt.Sprintf("%s\n  answered with code %d, codespace %q, log %q", desc, code, space, trunc(log, 200))
	switch {
	case code == 0:
		return failf("success", "%s", desc)
	case want == nil && (code == 400 || code == 404 || code == 409 || code == 412):
		return failf("wrong-class", "%s\n  the cause is of no class", desc)
	case want != nil && !containsCode(want, code):
		return failf("code", "%s\n  the cause is of the class %sand its code %v", desc, class, want)
	case space != "runtime":
		return failf("codespace", "%s", desc)
	}
	return nil
}

func containsCode(l []uint32, c uint32) bool {
	for _, x := range l {
		if x == c {
			return true
		}
	}
	return false
}

// codeStage is a place at which the processing of a transaction can fail.
type codeStage struct {
	name string
	tx   func(kind int) func(w world) txSpec
	// check: CheckTx fails too; admission: the failure is a refused request
	check, admission bool
}

func c36(c *Ctx) {
	c.Rule = "every stage at which a transaction can fail (transaction and message admission of two modules, post-authentication, authorization, execution before and after writes, nested execution, post-execution, the store's own refusals) with every kind of error, at every position among up to 3 (in part: 66) messages, checked and delivered, on fresh and used states; every wrapping of the errors up to a depth."
	for i := 0; i < 6; i++ {
		key(i)
	}
	A, B := key(0).addr, key(1).addr
	msg := func(mk func(kind int) msgSpec) func(kind int) func(w world) txSpec {
		return func(kind int) func(w world) txSpec { return mkSimple([]int{0}, mk(kind)) }
	}
	put := func(mode string) func(kind int) func(w world) txSpec {
		return msg(func(k int) msgSpec { return putMsg("n1", "x", fmt.Sprint(mode, "~", k)) })
	}
	memo := func(m string) func(kind int) func(w world) txSpec {
		return func(k int) func(w world) txSpec {
			return func(w world) txSpec {
				t := mkSimple([]int{0}, putMsg("n1", "x", ""))(w)
				t.Memo = fmt.Sprint(m, "~", k)
				return t
			}
		}
	}
	stages := []codeStage{
		{"transaction admission", memo("refuse-m1"), true, true},
		{"transaction admission of the last module", memo("refuse-m2"), true, true},
		{"message admission", put("refuse1"), true, true},
		{"second message admission", put("refuse2"), true, true},
		{"message admission of another module", put("refuse-m2"), true, true},
		{"post-authentication", memo("p1:fail"), false, true},
		{"last post-authentication", memo("p2:fail"), false, true},
		{"execution before writes", put("early"), false, false},
		{"execution after writes", put("fail"), false, false},
		{"post-execution", put("post"), false, false},
		{"nested execution", msg(func(k int) msgSpec { return nestMsg("n1", "x", "n2", fmt.Sprint("fail~", k)) }), false, false},
		{"nested execution before writes", msg(func(k int) msgSpec { return nestMsg("n1", "x", "n2", fmt.Sprint("early~", k)) }), false, false},
	}
	hm := func(w *Worker) *appEntry {
		return getApp(w, "c36", 5, func() appCfg {
			var h *harnessModule
			return appCfg{Accounts: withCollector(stdAccounts()), HM: &h,
				Extra: []module.Module{admModule{"m1", &h}, admModule{"m2", &h}, postAuthModule{"p1"}, postAuthModule{"p2"}}}
		})
	}
	type kindCase struct {
		Stage, Kind, Pos int
		Checked          bool // checked before it is delivered
		Fee              int
	}
	Explore(c, "stages", func(emit func(kindCase) bool) {
		for s := range stages {
			for k := range refusals {
				for pos := 0; pos < 3; pos++ {
					for f := 0; f < 2; f++ {
						if !emit(kindCase{s, k, pos, false, f}) || !emit(kindCase{s, k, pos, true, f}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, cs kindCase) *Fail {
		e := hm(w)
		restore(e.a.dbs, e.g)
		st := stages[cs.Stage]
		t := st.tx(cs.Kind)(e.w)
		good := []msgSpec{putMsg("n3", "y", ""), sendMsg(A, B, cn{"test", "1"})}
		t.Msgs = append(good[:cs.Pos:cs.Pos], append(append([]msgSpec{}, t.Msgs...), good[cs.Pos:]...)...)
		t.Fee = []cn{{"test", fmt.Sprint(cs.Fee)}}
		cause := refusal(cs.Kind, "text")
		if st.admission {
			cause = fmt.Errorf("%w", rterr.ErrBadRequest)
		}
		desc := fmt.Sprintf("%s fails with %q (%T, %s): %s", st.name, refusal(cs.Kind, "text"), refusal(cs.Kind, "text"), refusals[cs.Kind].name, t)
		raw := t.bytes()
		addN(&c.Traces, 1)
		if cs.Checked {
			addN(&c.Transitions, 1)
			r := e.a.check(raw)
			if st.check {
				if f := judgeCode("CheckTx: "+desc, r.Code, r.Codespace, r.Log, cause); f != nil {
					return f
				}
			} else if r.Code != 0 {
				return failf("checked", "CheckTx: %s\n  answered with code %d %s", desc, r.Code, r.Log)
			}
		}
		r := e.a.deliver(raw)
		addN(&c.Transitions, 1)
		c.Outcome(fmt.Sprint(st.name, r.Code))
		return judgeCode("DeliverTx: "+desc, r.Code, r.Codespace, r.Log, cause)
	})

	// the same at every place among many messages
	type placeCase struct{ Stage, Kind, N, At int }
	Explore(c, "many messages", func(emit func(placeCase) bool) {
		for _, n := range sizesTo(most(c, 66, 129)) {
			if !c.Thorough && n > 4 && n < 20 && n%4 > 1 {
				continue
			}
			for _, at := range placesIn(n) {
				for s := range stages {
					for k := 0; k < 2; k++ {
						if (!c.Thorough || n > 20) && (s+at+n+k)%3 != 0 {
							continue
						}
						if !emit(placeCase{s, (s*5 + at*3 + n + k*7) % len(refusals), n, at}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, cs placeCase) *Fail {
		e := hm(w)
		restore(e.a.dbs, e.g)
		st := stages[cs.Stage]
		t := st.tx(cs.Kind)(e.w)
		bad := t.Msgs
		t.Msgs = nil
		for i := 0; i < cs.N; i++ {
			if i == cs.At {
				t.Msgs = append(t.Msgs, bad...)
			} else {
				t.Msgs = append(t.Msgs, putMsg(fmt.Sprint("o", i), "y", ""))
			}
		}
		cause := refusal(cs.Kind, "text")
		if st.admission {
			cause = fmt.Errorf("%w", rterr.ErrBadRequest)
		}
		desc := fmt.Sprintf("%s fails with %q (%s) at message %d of %d", st.name, refusal(cs.Kind, "text"), refusals[cs.Kind].name, cs.At, cs.N)
		addN(&c.Traces, 1)
		addN(&c.Transitions, 1)
		r := e.a.deliver(t.bytes())
		return judgeCode("DeliverTx: "+desc, r.Code, r.Codespace, r.Log, cause)
	})

	// what the modules of the repository themselves refuse
	type ownCase struct {
		name       string
		mk         func(w world) txSpec
		cause      error
		check, not bool // CheckTx refuses too; no class is expected
	}
	plain := errors.New("")
	sp := func(f func(t *txSpec), ks ...int) func(w world) txSpec {
		return func(w world) txSpec {
			t := mkSimple(ks, putMsg("n1", "x", ""))(w)
			f(&t)
			return t
		}
	}
	own := []ownCase{
		{"a note that does not exist is deleted", mkSimple([]int{0}, putMsg("n9", "", "delete")), rterr.ErrNotFound, false, false},
		{"a note that does not exist is updated", mkSimple([]int{0}, putMsg("n9", "", "update")), rterr.ErrNotFound, false, false},
		{"a note that exists is created", mkSimple([]int{0}, putMsg("n9", "", "create"), putMsg("n9", "x", "create")), rterr.ErrAlreadyExists, false, false},
		{"a nested step updates a note that does not exist", mkSimple([]int{0}, nestMsg("n1", "x", "n9", "update")), rterr.ErrNotFound, false, false},
		{"a nested step deletes a note that does not exist", mkSimple([]int{0}, nestMsg("n1", "x", "n9", "delete")), rterr.ErrNotFound, false, false},
		{"a nested step creates the note that exists", mkSimple([]int{0}, nestMsg("n1", "x", "n1", "create")), rterr.ErrAlreadyExists, false, false},
		{"an account without balance sends", mkSimple([]int{2}, sendMsg(key(2).addr, A, cn{"zzz", "1"})), nil, false, false},
		{"more than the balance is sent", mkSimple([]int{0}, sendMsg(A, B, cn{"test", "1000"})), plain, false, false},
		{"somebody else's coins are sent", mkSimple([]int{0}, sendMsg(B, A, cn{"test", "1"})), rterr.ErrBadRequest, true, false},
		{"an internal transition", mkSimple([]int{0}, hiddenMsg("n", "x")), plain, false, false},
		{"an internal transition refused by its admission", mkSimple([]int{0}, msgSpec{URL: "/tmos.x.authn.v1alpha1.MsgCreateAccount", Kind: "create"}), rterr.ErrBadRequest, true, false},
		{"a stale sequence", sp(func(t *txSpec) { t.Signers[0].Seq += 1 }, 0), rterr.ErrBadRequest, true, false},
		{"a wrong account number", sp(func(t *txSpec) { t.Signers[0].Num += 1 }, 0), rterr.ErrBadRequest, true, false},
		{"another chain", sp(func(t *txSpec) { t.Chain = "other" }, 0), rterr.ErrBadRequest, true, false},
		{"an expired timeout", sp(func(t *txSpec) { t.Timeout = 4 }, 0), rterr.ErrBadRequest, true, false},
		{"an unknown signer", sp(func(t *txSpec) {}, 5), rterr.ErrBadRequest, true, false},
		{"a fee that is not covered", sp(func(t *txSpec) { t.Fee = []cn{{"test", "1000"}} }, 0), rterr.ErrBadRequest, true, false},
		{"a fee in an unknown denomination", sp(func(t *txSpec) { t.Fee = []cn{{"nope", "1"}} }, 0), rterr.ErrBadRequest, true, false},
		{"a payer who does not sign", sp(func(t *txSpec) { t.Payer = B }, 0), nil, true, false},
		{"a handler panics", mkSimple([]int{0}, putMsg("n1", "x", "panic")), plain, false, false},
	}
	type ownIx struct{ I, Pos int }
	Explore(c, "own refusals", func(emit func(ownIx) bool) {
		for i := range own {
			for pos := 0; pos < 3; pos++ {
				if !emit(ownIx{i, pos}) {
					return
				}
			}
		}
	}, func(w *Worker, ix ownIx) *Fail {
		e := hm(w)
		restore(e.a.dbs, e.g)
		cs := own[ix.I]
		t := cs.mk(e.w)
		if len(t.Signers) == 1 && t.Signers[0].Key == 0 {
			good := []msgSpec{putMsg("n3", "y", ""), sendMsg(A, B, cn{"test", "1"})}
			t.Msgs = append(good[:ix.Pos:ix.Pos], append(append([]msgSpec{}, t.Msgs...), good[ix.Pos:]...)...)
		}
		addN(&c.Traces, 1)
		addN(&c.Transitions, 2)
		raw := t.bytes()
		ck := e.a.check(raw)
		r := e.a.deliver(raw)
		desc := cs.name + ": " + t.String()
		if cs.cause == nil {
			// which class it is of is not stated
			if r.Code == 0 || r.Codespace != "runtime" {
				return failf("success", "DeliverTx: %s\n  answered with code %d, codespace %q", desc, r.Code, r.Codespace)
			}
			return nil
		}
		if cs.check {
			if f := judgeCode("CheckTx: "+desc, ck.Code, ck.Codespace, ck.Log, cs.cause); f != nil {
				return f
			}
		}
		return judgeCode("DeliverTx: "+desc, r.Code, r.Codespace, r.Log, cs.cause)
	})

	// undecodable transactions are of no class, or bad requests
	type rawCase struct{ Base, Cut int }
	Explore(c, "undecodable", func(emit func(rawCase) bool) {
		for b := 0; b < 2; b++ {
			for cut := 0; cut < 400; cut++ {
				if !emit(rawCase{b, cut}) {
					return
				}
			}
		}
	}, func(w *Worker, cs rawCase) *Fail {
		e := hm(w)
		restore(e.a.dbs, e.g)
		raw := mkSimple([]int{0}, []msgSpec{putMsg("n1", "x", ""), {URL: "/no.Such", Kind: "x"}}[cs.Base])(e.w).bytes()
		if cs.Cut >= len(raw)+cs.Base {
			return nil
		}
		if cs.Cut < len(raw) {
			raw = raw[:cs.Cut]
		}
		addN(&c.Traces, 1)
		addN(&c.Transitions, 2)
		ck, r := e.a.check(raw), e.a.deliver(raw)
		for _, x := range []struct {
			n, s string
			c    uint32
		}{{"CheckTx", ck.Codespace, ck.Code}, {"DeliverTx", r.Codespace, r.Code}} {
			if x.c == 0 || x.c != 1 && x.c != 400 || x.s != "runtime" {
				return failf("undecodable", "%s of the undecodable %x: code %d, codespace %q", x.n, raw, x.c, x.s)
			}
		}
		return nil
	})

	// every wrapping of every kind of error
	type wrapCase struct{ Kinds, Wraps []int }
	wraps := []struct {
		name string
		f    func(err error) error
	}{
		{"%w", func(err error) error { return fmt.Errorf("wrapped: %w", err) }},
		{"%v", func(err error) error { return fmt.Errorf("hidden: %v", err) }},
		{"%w: %s", func(err error) error { return fmt.Errorf("%w: %s", err, "with text") }},
		{"joined", func(err error) error { return errors.Join(errors.New("other"), err) }},
		{"unauthorized", func(err error) error { return fmt.Errorf("%w: %s", rterr.ErrUnauthorized, err) }},
	}
	Explore(c, "wrappings", func(emit func(wrapCase) bool) {
		n := 4
		if c.Thorough {
			n = 6
		}
		for k := range refusals {
			for l := 0; l <= n; l++ {
				if !wordsLen(len(wraps), l, func(ix []int) bool { return emit(wrapCase{[]int{k}, append([]int{}, ix...)}) }) {
					return
				}
			}
		}
	}, func(w *Worker, cs wrapCase) *Fail {
		err := refusal(cs.Kinds[0], "text")
		var ns []string
		for _, x := range cs.Wraps {
			err = wraps[x].f(err)
			ns = append(ns, wraps[x].name)
		}
		addN(&c.Traces, 1)
		r := rterr.ToABCIResponse(0, 0, err)
		c.Outcome(fmt.Sprint(r.Code))
		desc := fmt.Sprintf("the error %q (%s, wrapped by %s)", err, refusals[cs.Kinds[0]].name, strings.Join(ns, ", "))
		if r.Log != err.Error() {
			return failf("log", "%s is logged as %q", desc, r.Log)
		}
		return judgeCode(desc, r.Code, r.Codespace, r.Log, err)
	})
}
