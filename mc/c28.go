package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/runtime/authentication/user"
)

func init() { register("C28", c28) }

// namedUser is a user of the harness, told apart from others of the same name by tag.
type namedUser struct{ name, tag string }

func (u namedUser) GetName() string               { return u.name }
func (u namedUser) GetExtra() map[string][]string { return map[string][]string{"tag": {u.tag}} }
func (u namedUser) String() string                { return u.name }

// listedUsers is a set of users implemented outside the repository.
type listedUsers []user.User

func (l listedUsers) List() []user.User { return append([]user.User{}, l...) }
func (l listedUsers) String() string    { return fmt.Sprint([]user.User(l)) }
func (l listedUsers) Has(names ...string) bool {
	for _, n := range names {
		ok := false
		for _, u := range l {
			ok = ok || u.GetName() == n
		}
		if !ok {
			return false
		}
	}
	return true
}

func c28(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "all lists of up to 4 names with duplicates and empty names through every constructor; all unions of up to 3 groups of every form, absent groups included; every construction history over a pool of sets, where each earlier set is compared again after each step; every list of up to 3 (4) names asked of every set; sets of up to 130 (1001) names in every form, with one duplicated, and asked for with one absent name at every place"
	names := []string{"a", "b", "", "ab"}
	ask := append(append([]string{}, names...), "A", "c", "a b", "[a]")
	maxAsk := 3
	if c.Thorough {
		maxAsk = 4
	}
	judge := func(u user.Users, want map[string]bool, given []namedUser, what string) *Fail {
		if u == nil {
			return failf("no-set", "%s: no set", what)
		}
		for rep := 0; rep < 2; rep++ {
			var got []string
			l := u.List()
			for _, x := range l {
				got = append(got, x.GetName())
				if given != nil {
					ok := false
					for _, g := range given {
						ok = ok || g.name == x.GetName() && fmt.Sprint(g.GetExtra()) == fmt.Sprint(x.GetExtra())
					}
					if !ok {
						return failf("user-changed", "%s: lists %q with extra %v, which was not given", what, x.GetName(), x.GetExtra())
					}
				}
			}
			sort.Strings(got)
			if strings.Join(got, "\x00") != strings.Join(sortedKeys(want), "\x00") || len(got) != len(want) {
				return failf("list", "%s: lists %q, must be %q", what, got, sortedKeys(want))
			}
			for i := range l { // the list is the caller's own
				l[i] = namedUser{"zz", ""}
			}
			var f *Fail
			words(len(ask), maxAsk-1+rep*0, func(ix []int) bool {
				ns := make([]string, len(ix))
				exp := true
				for i, x := range ix {
					ns[i] = ask[x]
					exp = exp && want[ask[x]]
				}
				if u.Has(ns...) != exp {
					f = failf("has", "%s: Has(%q) is %v, must be %v", what, ns, !exp, exp)
				}
				return f == nil
			})
			if f != nil {
				return f
			}
		}
		return nil
	}
	type group struct {
		Form  int   `json:"form"` // 0 names, 1 users, 2 own implementation, 3 absent, 4 union of the names one by one, 5 default users
		Names []int `json:"names"`
	}
	build := func(g group, tag string) (user.Users, map[string]bool, []namedUser, func()) {
		want := map[string]bool{}
		var ns []string
		var us []user.User
		var given []namedUser
		for i, n := range g.Names {
			want[names[n]] = true
			ns = append(ns, names[n])
			nu := namedUser{names[n], fmt.Sprint(tag, i)}
			us = append(us, nu)
			given = append(given, nu)
		}
		spoil := func() {
			for i := range ns {
				ns[i] = "spoilt"
			}
			for i := range us {
				us[i] = namedUser{"spoilt", ""}
			}
		}
		plain := func() []namedUser { return nil }
		switch g.Form {
		case 0:
			return user.NewUsersFromString(ns...), want, plain(), spoil
		case 1:
			return user.NewUsers(us...), want, given, spoil
		case 2:
			return append(listedUsers{}, us...), want, given, spoil
		case 3:
			return nil, map[string]bool{}, plain(), spoil
		case 4:
			var gs []user.Users
			for _, u := range us {
				gs = append(gs, user.NewUsers(u))
			}
			return user.NewUsersUnion(gs...), want, given, func() {
				spoil()
				for i := range gs {
					gs[i] = nil
				}
			}
		default:
			var ds []user.User
			for _, n := range ns {
				ds = append(ds, user.DefaultUser(n))
			}
			return user.NewUsers(ds...), want, plain(), func() {
				spoil()
				for i := range ds {
					ds[i] = namedUser{"spoilt", ""}
				}
			}
		}
	}

	Explore(c, "constructors", func(emit func(group) bool) {
		for _, form := range []int{0, 1, 4, 5} {
			if !words(len(names), 4, func(ix []int) bool { return emit(group{form, ix}) }) {
				return
			}
		}
	}, func(w *Worker, g group) *Fail {
		u, want, given, spoil := build(g, "t")
		spoil()
		c.Outcome(fmt.Sprint(sortedKeys(want)))
		addN(&c.Transitions, 1)
		return judge(u, want, given, fmt.Sprintf("form %d of %v", g.Form, g.Names))
	})

	// unions
	var groups []group
	words(3, 2, func(ix []int) bool { groups = append(groups, group{0, ix}); return true })
	words(3, 1, func(ix []int) bool {
		for _, f := range []int{1, 2, 4} {
			groups = append(groups, group{f, ix})
		}
		return true
	})
	groups = append(groups, group{3, nil}, group{2, []int{0, 0}}, group{2, []int{2, 1}}, group{1, []int{3, 0, 3}})
	type unionCase struct{ G []int }
	Explore(c, "unions", func(emit func(unionCase) bool) {
		words(len(groups), 3, func(ix []int) bool { return emit(unionCase{ix}) })
	}, func(w *Worker, uc unionCase) *Fail {
		var gs []user.Users
		var wants []map[string]bool
		var givens [][]namedUser
		all := map[string]bool{}
		var allGiven []namedUser
		own := true
		for i, x := range uc.G {
			u, want, given, _ := build(groups[x], fmt.Sprint("g", i, "."))
			gs = append(gs, u)
			wants = append(wants, want)
			givens = append(givens, given)
			for n := range want {
				all[n] = true
			}
			allGiven = append(allGiven, given...)
			own = own && given != nil
		}
		orig := append([]user.Users{}, gs...)
		un := user.NewUsersUnion(gs...)
		if !own {
			allGiven = nil
		}
		for i := range gs {
			gs[i] = nil
		}
		what := fmt.Sprintf("union of %v", uc.G)
		if f := judge(un, all, allGiven, what); f != nil {
			return f
		}
		for i, g := range orig {
			if g == nil || groups[uc.G[i]].Form == 2 {
				continue
			}
			if f := judge(g, wants[i], givens[i], fmt.Sprintf("group %d after the %s", i, what)); f != nil {
				return f
			}
		}
		addN(&c.Transitions, 1)
		c.Outcome(fmt.Sprint(sortedKeys(all)))
		return nil
	})

	// many names: duplicated, missing and asked for at every place
	type manyNames struct{ N, At, Form, Skip int }
	Explore(c, "many names", func(emit func(manyNames) bool) {
		for _, n := range sizesTo(most(c, 130, 1001)) {
			for _, p := range placesIn(n) {
				for form := 0; form < 7; form++ {
					for skip := 0; skip < 2; skip++ {
						if n > 40 && !c.Thorough && (n+p+form)%2 != skip {
							continue
						}
						if !emit(manyNames{n, p, form, skip}) {
							return
						}
					}
				}
			}
		}
	}, func(w *Worker, cs manyNames) *Fail {
		name := func(i int) string { return fmt.Sprintf("n%03d", i) }
		var ns []string
		var us []user.User
		var gs []user.Users
		want := map[string]bool{}
		for i := 0; i < cs.N; i++ {
			x := name(i)
			if i == cs.At {
				if cs.Skip == 1 {
					x = name((i + 1) % cs.N) // twice, and its own missing
				} else if cs.N%2 == 0 {
					x = ""
				}
			}
			want[x] = true
			ns = append(ns, x)
			us = append(us, user.DefaultUser(x))
			gs = append(gs, user.NewUsersFromString(x))
		}
		var u user.Users
		switch cs.Form {
		case 0:
			u = user.NewUsersFromString(ns...)
		case 1:
			u = user.NewUsers(us...)
		case 2:
			u = user.NewUsersUnion(gs...)
		case 3:
			u = user.NewUsersUnion(user.NewUsers(us[:cs.At]...), nil, user.NewUsersFromString(ns[cs.At:]...))
		case 4: // one by one, each joined to what came before
			u = user.NewUsersUnion()
			for _, g := range gs {
				u = user.NewUsersUnion(u, g)
			}
		case 5:
			u = user.NewUsersUnion(listedUsers(us))
		case 6:
			u = user.NewUsersUnion(user.NewUsersFromString(ns...), user.NewUsers(us...), listedUsers(us[cs.At:]))
		}
		what := fmt.Sprintf("%+v", cs)
		addN(&c.Transitions, 1)
		var got []string
		for _, x := range u.List() {
			got = append(got, x.GetName())
		}
		sort.Strings(got)
		if strings.Join(got, " ") != strings.Join(sortedKeys(want), " ") {
			return failf("list", "%s: lists %q, must be %q", what, got, sortedKeys(want))
		}
		all := sortedKeys(want)
		for i := -1; i <= cs.N; i++ {
			if u.Has(name(i)) != want[name(i)] {
				return failf("has", "%s: Has(%q) is %v", what, name(i), !want[name(i)])
			}
		}
		if !u.Has(all...) {
			return failf("has", "%s: Has of all its names is false", what)
		}
		for _, p := range placesIn(len(all) + 1) {
			for _, no := range []string{"absent", name(cs.N), name(cs.At) + "x"} {
				q := append(append(append([]string{}, all[:p]...), no), all[p:]...)
				if u.Has(q...) {
					return failf("has", "%s: Has of all its names and of %q, at %d, is true", what, no, p)
				}
			}
		}
		return nil
	})

	// histories: sets built from earlier sets, all of them compared after each step
	type histCase struct{ Steps []int }
	depth := 3
	if c.Thorough {
		depth = 4
	}
	nsteps := 12
	Explore(c, "histories", func(emit func(histCase) bool) {
		words(nsteps, depth, func(ix []int) bool { return emit(histCase{ix}) })
	}, func(w *Worker, hc histCase) *Fail {
		type set struct {
			u    user.Users
			want map[string]bool
		}
		pool := []set{{user.NewUsersFromString("a"), map[string]bool{"a": true}}, {user.NewUsersFromString(), map[string]bool{}}}
		merge := func(ms ...map[string]bool) map[string]bool {
			r := map[string]bool{}
			for _, m := range ms {
				for k := range m {
					r[k] = true
				}
			}
			return r
		}
		for i, op := range hc.Steps {
			last, first := pool[len(pool)-1], pool[0]
			var n set
			switch op {
			case 0:
				n = set{user.NewUsersFromString("b"), map[string]bool{"b": true}}
			case 1:
				n = set{user.NewUsers(namedUser{"", "x"}, user.DefaultUser("ab")), map[string]bool{"": true, "ab": true}}
			case 2:
				n = set{user.NewUsersUnion(last.u), merge(last.want)}
			case 3:
				n = set{user.NewUsersUnion(first.u, last.u), merge(first.want, last.want)}
			case 4:
				n = set{user.NewUsersUnion(last.u, first.u), merge(first.want, last.want)}
			case 5:
				n = set{user.NewUsersUnion(last.u, user.NewUsersFromString("c")), merge(last.want, map[string]bool{"c": true})}
			case 6:
				n = set{user.NewUsersUnion(user.NewUsersFromString("A"), last.u, nil), merge(last.want, map[string]bool{"A": true})}
			case 7:
				n = set{user.NewUsers(last.u.List()...), merge(last.want)}
			case 8:
				var us []user.Users
				m := map[string]bool{}
				for _, p := range pool {
					us = append(us, p.u)
					m = merge(m, p.want)
				}
				n = set{user.NewUsersUnion(us...), m}
			case 9:
				n = set{user.NewUsersUnion(nil, last.u, last.u), merge(last.want)}
			case 10:
				n = set{user.NewUsersUnion(), map[string]bool{}}
			case 11:
				n = set{user.NewUsersUnion(first.u), merge(first.want)}
			}
			pool = append(pool, n)
			for j, p := range pool {
				if f := judge(p.u, p.want, nil, fmt.Sprintf("set %d after step %d of %v", j, i, hc.Steps)); f != nil {
					return f
				}
			}
			addN(&c.Transitions, 1)
			c.State(fmt.Sprint(sortedKeys(n.want), len(pool)))
		}
		c.Outcome(fmt.Sprint(sortedKeys(pool[len(pool)-1].want)))
		return nil
	})
}
