package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	coin "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func init() { register("C29", c29) }

type coinCase struct {
	A, B []cn
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func pow2s(n uint, d int64) string { return new(big.Int).Add(pow2(n), big.NewInt(d)).String() }

func coinMap(cs []cn) map[string]*big.Int {
	m := map[string]*big.Int{}
	for _, c := range cs {
		m[c.D] = bi(c.A)
	}
	return m
}

func cnText(cs []cn) string {
	var s []string
	for _, c := range cs {
		s = append(s, fmt.Sprintf("%s of %q", trunc(c.A, 90), trunc(c.D, 40)))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// coinJudge runs both operations on a pair of lists and compares them with integer
// arithmetic per denomination.
func coinJudge(c *Ctx, cs coinCase) *Fail {
	for _, sub := range []bool{false, true} {
		name := "SafeAdd"
		if sub {
			name = "SafeSub"
		}
		a, b := toCoins(cs.A), toCoins(cs.B)
		var res []*coin.Coin
		var err error
		if p := try(func() {
			if sub {
				res, err = coin.SafeSub(a, b)
			} else {
				res, err = coin.SafeAdd(a, b)
			}
		}); p != "" {
			return failf("panics", "%s(%s, %s) panics: %s", name, cnText(cs.A), cnText(cs.B), p)
		}
		for i, x := range [][]*coin.Coin{a, b} {
			want := toCoins([][]cn{cs.A, cs.B}[i])
			for j := range x {
				if !proto.Equal(x[j], want[j]) {
					return failf("input-modified", "%s(%s, %s) changed its input to %v", name, cnText(cs.A), cnText(cs.B), x)
				}
			}
		}
		valid := validCoins(cs.A) && validCoins(cs.B)
		want := map[string]*big.Int{}
		negative, over := false, false
		if valid {
			for d, x := range coinMap(cs.A) {
				want[d] = new(big.Int).Set(x)
			}
			for d, x := range coinMap(cs.B) {
				if want[d] == nil {
					want[d] = new(big.Int)
				}
				if sub {
					want[d].Sub(want[d], x)
				} else {
					want[d].Add(want[d], x)
				}
			}
			for d, x := range want {
				if x.Sign() < 0 {
					negative = true
				}
				if x.BitLen() > 255 {
					over = true
				}
				if x.Sign() == 0 {
					delete(want, d)
				}
			}
		}
		refuse := !valid || negative || over
		c.Outcome(fmt.Sprint(name, valid, negative, over, len(want)))
		loose := false // amounts with leading zeros may be refused
		for _, x := range append(append([]cn{}, cs.A...), cs.B...) {
			loose = loose || len(x.A) > 1 && x.A[0] == '0'
		}
		if loose && err != nil && valid {
			continue
		}
		if refuse != (err != nil) {
			switch {
			case !valid:
				return failf("invalid-accepted", "%s(%s, %s) accepts an invalid coin list and returns %v", name, cnText(cs.A), cnText(cs.B), res)
			case refuse:
				return failf("overdraw-accepted", "%s(%s, %s) returns %v although the result is negative or too large", name, cnText(cs.A), cnText(cs.B), res)
			default:
				return failf("valid-refused", "%s(%s, %s) fails: %v", name, cnText(cs.A), cnText(cs.B), err)
			}
		}
		if err != nil {
			continue
		}
		var got []string
		var ds []string
		for d := range want {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for i, x := range res {
			got = append(got, x.GetAmount()+x.GetDenom())
			if i >= len(ds) || x.GetDenom() != ds[i] || x.GetAmount() != want[ds[i]].String() {
				return failf("wrong-result", "%s(%s, %s) = %v, expected %v", name, cnText(cs.A), cnText(cs.B), res, want)
			}
		}
		if len(got) != len(ds) {
			return failf("wrong-result", "%s(%s, %s) = %v, expected %v", name, cnText(cs.A), cnText(cs.B), res, want)
		}
	}
	return nil
}

func c29(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "every pair of coin lists up to a length over denominations and amounts at the 0, 1, 2^63, 2^64, 2^128 and 2^255 boundaries, in every order, with duplicates, long lists with one odd coin at every place, and every malformed amount and denomination in every list position; addition and subtraction compared with integer arithmetic per denomination. An amount with leading zeros may be refused, or is read in base ten."
	run := func(w *Worker, cs coinCase) *Fail { return coinJudge(c, cs) }
	max := pow2s(255, -1)

	// all pairs of valid lists of distinct denominations in every order
	lists := func(denoms, amounts []string, maxLen int) [][]cn {
		var out [][]cn
		var rec func(cur []cn)
		rec = func(cur []cn) {
			out = append(out, append([]cn{}, cur...))
			if len(cur) == maxLen {
				return
			}
			for _, d := range denoms {
				for _, a := range amounts {
					rec(append(cur, cn{d, a}))
				}
			}
		}
		rec(nil)
		return out
	}
	distinct := func(ls [][]cn) [][]cn {
		var out [][]cn
		for _, l := range ls {
			seen := map[string]bool{}
			ok := true
			for _, x := range l {
				if seen[x.D] {
					ok = false
				}
				seen[x.D] = true
			}
			if ok {
				out = append(out, l)
			}
		}
		return out
	}
	pairs := func(as, bs [][]cn) func(emit func(coinCase) bool) {
		return func(emit func(coinCase) bool) {
			for _, a := range as {
				for _, b := range bs {
					if !emit(coinCase{a, b}) {
						return
					}
				}
			}
		}
	}
	amts := []string{"0", "1", "2", "10", pow2s(63, -1), pow2s(63, 0), pow2s(64, -1), pow2s(64, 0), pow2s(64, 1), pow2s(128, 0), pow2s(254, 0), max}
	one := lists([]string{"foo", "bar"}, amts, 1)
	two := distinct(lists([]string{"foo", "bar"}, amts, 2))
	Explore(c, "amounts", pairs(two, two), run)
	small := distinct(lists([]string{"foo", "bar", "baz", "Foo"}, []string{"0", "1", "3"}, 3))
	rev := distinct(lists([]string{"foo", "bar", "baz", "Foo"}, []string{"1", "2"}, 3))
	if !c.Thorough {
		small = distinct(lists([]string{"foo", "bar", "Foo"}, []string{"0", "1", "3"}, 3))
		rev = distinct(lists([]string{"foo", "bar", "baz"}, []string{"1", "2"}, 3))
	}
	Explore(c, "denominations", pairs(small, rev), run)
	dup := lists([]string{"foo", "bar"}, []string{"0", "1", "2"}, 3)
	Explore(c, "duplicates", pairs(dup, dup), run)

	// malformed coins in every position of lists of up to three coins
	long := "a" + strings.Repeat("b", 127)
	badD := []string{"", "f", "fo", "1ab", "foo bar", "foo,1bar", " foo", "foo ", "-foo", "foo-", "fo_o", "féo", "foo\x00", "foo\n", "/foo", long + "c", "a" + strings.Repeat("b", 300)}
	okD := []string{"foo", "Foo", "f12", "f/1", "FOO", long, "foo/bar/9"}
	badA := []string{"", "-1", "-0", "+1", "1.0", "1.5", "0.5", ".5", "5.", "1e3", "0x5", "0b1", "0o7", "1_000", " 1", "1 ", "1\n", "\t1", "x", "1x", "1foo", "1foo,2", "5bar,7", "1,000", "１", "٣", "½", "∞", "NaN", "\x00", "1\x00", pow2s(255, 0), pow2s(255, 1), pow2s(256, 0), pow2s(512, 0)}
	okA := []string{"0", "1", "7", pow2s(64, 0), max}
	var coins []cn
	for _, d := range append(append([]string{}, badD...), okD...) {
		for _, a := range append(append([]string{}, badA...), okA...) {
			coins = append(coins, cn{d, a})
		}
	}
	// coins whose text becomes a valid one when joined with a neighbour
	coins = append(coins, cn{"", ""}, cn{"test", "5test,"}, cn{"1test", "5"}, cn{",5foo", "1bar"}, cn{"bar,", "1"})
	with := [][]cn{nil, {{"foo", "9"}}, {{"foo", "9"}, {"bar", "9"}}, {{"bar", "1"}}}
	Explore(c, "malformed", func(emit func(coinCase) bool) {
		for _, x := range coins {
			for _, l := range with {
				for pos := 0; pos <= len(l); pos++ {
					m := append(append(append([]cn{}, l[:pos]...), x), l[pos:]...)
					for _, o := range with {
						if !emit(coinCase{m, o}) || !emit(coinCase{o, m}) {
							return
						}
					}
				}
			}
		}
	}, run)
	_ = one
	// long lists: each side in several orders, with an odd coin at every place of either
	type longCase struct {
		manyCase
		Order, Other int
		Right        bool
	}
	Explore(c, "long lists", func(emit func(longCase) bool) {
		manyGen(sizesTo(most(c, 130, 513)), coinKinds, manyThin(c, coinKinds, 20), func(cs manyCase) bool {
			for o := 0; o < 3; o++ {
				for other := 0; other < 5; other++ {
					for _, r := range []bool{false, true} {
						if !c.Thorough && cs.N > 10 && (cs.N+cs.At+o)%5 != other {
							continue
						}
						if !emit(longCase{cs, o, other, r}) {
							return false
						}
					}
				}
			}
			return true
		})
	}, func(w *Worker, cs longCase) *Fail {
		l := manyCoins(cs.manyCase, cs.Order)
		var o []cn
		switch cs.Other {
		case 0: // as long
			o = manyCoins(manyCase{cs.N, -1, 0}, (cs.Order+1)%3)
		case 1: // longer, and of more than enough
			o = manyBalance(cs.N+7, 1)
		case 2: // of every other denomination
			o = manyBalance(cs.N, 2)
		case 3:
			o = manyBalance(cs.N, cs.N)
		}
		if cs.Right {
			l, o = o, l
		}
		return coinJudge(c, coinCase{l, o})
	})
	zeros := []string{"00", "01", "07", "08", "09", "010", "017", "0100", "00010", "0010", strings.Repeat("0", 70) + "12", "0" + max, "1"}
	zl := distinct(lists([]string{"foo", "bar"}, zeros, 2))
	Explore(c, "leading-zeros", pairs(zl, distinct(lists([]string{"foo", "bar"}, []string{"0", "1", "9"}, 2))), run)
	Explore(c, "leading-zeros-right", pairs(distinct(lists([]string{"foo", "bar"}, []string{"100", max}, 2)), zl), run)
	// every integer near zero on both sides
	n := 130
	if c.Thorough {
		n = 700
	}
	Explore(c, "integers", func(emit func(coinCase) bool) {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if !emit(coinCase{[]cn{{"foo", fmt.Sprint(a)}}, []cn{{"foo", fmt.Sprint(b)}}}) {
					return
				}
			}
		}
	}, run)
}
