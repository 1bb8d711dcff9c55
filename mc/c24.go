package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"

	"github.com/btcsuite/btcd/btcec"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	xcrypto "github.com/fdymylja/tmos/x/authn/crypto"
	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	"golang.org/x/crypto/ripemd160"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func init() { register("C24", c24) }

// ---- the scheme, written from its definition over the curve's group operations ----

var (
	curve  = btcec.S256()
	halfN  = new(big.Int).Rsh(curve.N, 1)
	bigOne = big.NewInt(1)
)

func scalar32(d *big.Int) []byte { return d.FillBytes(make([]byte, 32)) }

func refPub(d *big.Int) []byte {
	x, y := curve.ScalarBaseMult(scalar32(d))
	return append([]byte{2 + byte(y.Bit(0))}, scalar32(x)...)
}

func refAddr(pk []byte) []byte {
	h := sha256.Sum256(pk)
	r := ripemd160.New()
	r.Write(h[:])
	return r.Sum(nil)
}

// refVerify decides whether sig is the canonical signature of msg under the compressed key.
func refVerify(pk, msg, sig []byte) bool {
	if len(pk) != 33 || pk[0] != 2 && pk[0] != 3 || len(sig) != 64 {
		return false
	}
	x := new(big.Int).SetBytes(pk[1:])
	if x.Cmp(curve.P) >= 0 {
		return false
	}
	y2 := new(big.Int).Exp(x, big.NewInt(3), curve.P)
	y2.Add(y2, curve.B).Mod(y2, curve.P)
	y := new(big.Int).ModSqrt(y2, curve.P)
	if y == nil {
		return false
	}
	if byte(y.Bit(0)) != pk[0]-2 {
		y.Sub(curve.P, y)
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(curve.N) >= 0 || s.Cmp(halfN) > 0 {
		return false
	}
	h := sha256.Sum256(msg)
	e := new(big.Int).SetBytes(h[:])
	w := new(big.Int).ModInverse(s, curve.N)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, curve.N)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, curve.N)
	x2, y2b := curve.ScalarMult(x, y, scalar32(u2))
	if u1.Sign() != 0 {
		x1, y1 := curve.ScalarBaseMult(scalar32(u1))
		x2, y2b = curve.Add(x1, y1, x2, y2b)
	}
	if x2.Sign() == 0 && y2b.Sign() == 0 {
		return false
	}
	return new(big.Int).Mod(x2, curve.N).Cmp(r) == 0
}

type keyCase24 struct {
	name string
	d    *big.Int
}

func keys24() []keyCase24 {
	n := curve.N
	sub := func(k int64) *big.Int { return new(big.Int).Sub(n, big.NewInt(k)) }
	h := sha256.Sum256([]byte("key"))
	ks := []keyCase24{
		{"1", big.NewInt(1)}, {"2", big.NewInt(2)}, {"3", big.NewInt(3)}, {"n-1", sub(1)}, {"n-2", sub(2)},
		{"2^128", new(big.Int).Lsh(bigOne, 128)}, {"2^255", new(big.Int).Lsh(bigOne, 255)}, {"256", big.NewInt(256)},
		{"n/2", new(big.Int).Set(halfN)}, {"n/2+1", new(big.Int).Add(halfN, bigOne)},
		{"hash", new(big.Int).Mod(new(big.Int).SetBytes(h[:]), n)},
		{"byte order", new(big.Int).SetBytes(append([]byte{0, 1}, make([]byte, 30)...))},
	}
	ks = append(ks, keyCase24{"n-hash", new(big.Int).Sub(n, ks[10].d)})
	// keys whose public x coordinate starts with zero bytes
	found := 0
	for i := int64(4); found < 3; i++ {
		if pk := refPub(big.NewInt(i)); pk[1] == 0 {
			ks = append(ks, keyCase24{fmt.Sprintf("%d, whose point starts with a zero byte", i), big.NewInt(i)})
			found++
		}
	}
	return ks
}

func msgs24() [][]byte {
	h := sha256.Sum256([]byte("a"))
	return [][]byte{{}, {0}, []byte("a"), []byte("b"), []byte("aa"), h[:], h[:31], append(h[:], 0), bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{0xff}, 64), []byte(strings.Repeat("long ", 300)), append([]byte{0}, 'a')}
}

func priv24(d *big.Int) *secp256k1.PrivKey { return &secp256k1.PrivKey{Key: scalar32(d)} }

func c24(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "every pair of a private key and a message signed, and verified under every pair of a key and a message; every bit flip, truncation, extension and equivalent form of the signatures and of the public keys, each compared with the scheme computed from its definition; all scalars and counters up to a bound for padded forms; all secrets up to a bound; all pairs of keys compared for equality"
	ks, ms := keys24(), msgs24()

	// every pair signed, verified under every pair
	type pair struct{ K, M int }
	Explore(c, "pairs", func(emit func(pair) bool) {
		for i := range ks {
			for j := range ms {
				if !emit(pair{i, j}) {
					return
				}
			}
		}
	}, func(w *Worker, p pair) *Fail {
		priv := priv24(ks[p.K].d)
		msg := append([]byte{}, ms[p.M]...)
		sig, err := priv.Sign(msg)
		if err != nil {
			return failf("sign", "key %s, message %d: %v", ks[p.K].name, p.M, err)
		}
		if !bytes.Equal(msg, ms[p.M]) || !bytes.Equal(priv.Key, scalar32(ks[p.K].d)) {
			return failf("sign-changes", "key %s, message %d: signing changed its input", ks[p.K].name, p.M)
		}
		if !refVerify(refPub(ks[p.K].d), msg, sig) {
			return failf("sign-wrong", "key %s, message %d: the signature %x is not a canonical one of this message", ks[p.K].name, p.M, sig)
		}
		c.Outcome(fmt.Sprintf("%x", sig))
		for k := range ks {
			pub := priv24(ks[k].d).PubKey()
			for m := range ms {
				want := k == p.K && m == p.M
				if got := pub.VerifySignature(ms[m], sig); got != want {
					return failf("verify", "signature of message %d by %s: verification under key %s for message %d is %v", p.M, ks[p.K].name, ks[k].name, m, got)
				}
				addN(&c.Transitions, 1)
			}
		}
		return nil
	})

	// every alteration of a signature and of a key
	type altCase struct {
		K, M int
		Part string
	}
	Explore(c, "alterations", func(emit func(altCase) bool) {
		for i := range ks {
			for j := range ms {
				if !c.Thorough && (i+j)%4 != 0 {
					continue
				}
				for _, p := range []string{"bits", "length", "forms", "key-bits", "key-forms"} {
					if !emit(altCase{i, j, p}) {
						return
					}
				}
			}
		}
	}, func(w *Worker, ac altCase) *Fail {
		d := ks[ac.K].d
		msg := ms[ac.M]
		sig, err := priv24(d).Sign(msg)
		if err != nil {
			return failf("sign", "key %s, message %d: %v", ks[ac.K].name, ac.M, err)
		}
		pk := refPub(d)
		try := func(key, sg []byte, what string) *Fail {
			addN(&c.Transitions, 1)
			pub := &secp256k1.PubKey{Key: key}
			got := pub.VerifySignature(msg, sg)
			if got != refVerify(key, msg, sg) {
				return failf("altered", "key %s, message %d, %s: verification is %v (key %x, signature %x)", ks[ac.K].name, ac.M, what, got, key, sg)
			}
			return nil
		}
		r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
		rs := func(r, s *big.Int) []byte { return append(scalar32(r), scalar32(s)...) }
		flip := func(b []byte, i int) []byte {
			x := append([]byte{}, b...)
			x[i/8] ^= 1 << (i % 8)
			return x
		}
		if f := try(pk, sig, "as made"); f != nil {
			return f
		}
		switch ac.Part {
		case "bits":
			for i := 0; i < 512; i++ {
				if f := try(pk, flip(sig, i), fmt.Sprintf("bit %d flipped", i)); f != nil {
					return f
				}
			}
		case "length":
			for l := 0; l < 64; l++ {
				if f := try(pk, sig[:l], fmt.Sprintf("%d bytes", l)); f != nil {
					return f
				}
				if f := try(pk, sig[64-l:], fmt.Sprintf("last %d bytes", l)); f != nil {
					return f
				}
			}
			for l := 1; l <= 66; l++ {
				if f := try(pk, append(append([]byte{}, sig...), make([]byte, l)...), fmt.Sprintf("%d zero bytes behind", l)); f != nil {
					return f
				}
				if f := try(pk, append(make([]byte, l), sig...), fmt.Sprintf("%d zero bytes before", l)); f != nil {
					return f
				}
				if f := try(pk, append(append([]byte{}, sig...), bytes.Repeat(sig, 2)[:l]...), fmt.Sprintf("%d bytes of itself behind", l)); f != nil {
					return f
				}
			}
			if f := try(pk, nil, "absent"); f != nil {
				return f
			}
		case "forms":
			max := new(big.Int).Sub(new(big.Int).Lsh(bigOne, 256), bigOne)
			zero := new(big.Int)
			vals := []*big.Int{zero, bigOne, curve.N, new(big.Int).Sub(curve.N, bigOne), new(big.Int).Add(curve.N, bigOne), halfN, new(big.Int).Add(halfN, bigOne), curve.P, max, r, s, new(big.Int).Sub(curve.N, s), new(big.Int).Sub(curve.N, r)}
			for i, a := range vals {
				for j, b := range vals {
					if f := try(pk, rs(a, b), fmt.Sprintf("form %d,%d", i, j)); f != nil {
						return f
					}
				}
			}
			for _, o := range []struct {
				n string
				b []byte
			}{
				{"byte order reversed", func() []byte {
					x := append([]byte{}, sig...)
					for i := 0; i < 16; i++ {
						x[i], x[31-i] = x[31-i], x[i]
						x[32+i], x[63-i] = x[63-i], x[32+i]
					}
					return x
				}()},
				{"DER", (&btcec.Signature{R: r, S: s}).Serialize()},
				{"with recovery id 0", append(append([]byte{}, sig...), 0)},
				{"with recovery id 27 before", append([]byte{27}, sig...)},
			} {
				if f := try(pk, o.b, o.n); f != nil {
					return f
				}
			}
		case "key-bits":
			for i := 0; i < 264; i++ {
				if f := try(flip(pk, i), sig, fmt.Sprintf("key bit %d flipped", i)); f != nil {
					return f
				}
			}
			for b := 0; b < 256; b++ {
				x := append([]byte{byte(b)}, pk[1:]...)
				if f := try(x, sig, fmt.Sprintf("key prefix %d", b)); f != nil {
					return f
				}
			}
		case "key-forms":
			X, Y := curve.ScalarBaseMult(scalar32(d))
			xy := append(scalar32(X), scalar32(Y)...)
			for l := 0; l <= 33; l++ {
				if f := try(pk[:l], sig, fmt.Sprintf("key of %d bytes", l)); f != nil && l < 33 {
					return f
				}
				if f := try(pk[33-l:], sig, fmt.Sprintf("last %d bytes of the key", l)); f != nil {
					return f
				}
				if f := try(append(append([]byte{}, pk...), make([]byte, l)...), sig, fmt.Sprintf("key with %d zero bytes behind", l)); f != nil {
					return f
				}
			}
			for b := 0; b < 256; b++ {
				if f := try(append([]byte{byte(b)}, xy...), sig, fmt.Sprintf("65 byte key of prefix %d", b)); f != nil {
					return f
				}
			}
			for _, k := range [][]byte{nil, xy, bytes.Repeat([]byte{0}, 33), bytes.Repeat([]byte{2}, 33), append([]byte{2}, bytes.Repeat([]byte{0xff}, 32)...), append([]byte{3}, make([]byte, 32)...), append([]byte{2}, scalar32(curve.P)...), append([]byte{3}, scalar32(curve.N)...), append([]byte{2}, scalar32(d)...), scalar32(d)} {
				if f := try(k, sig, "replaced key"); f != nil {
					return f
				}
			}
		}
		return nil
	})

	// keys: public keys, addresses and equality
	bound := int64(600)
	if c.Thorough {
		bound = 20000
	}
	type scalarCase struct{ From, To int64 }
	Explore(c, "public-keys", func(emit func(scalarCase) bool) {
		for i := int64(1); i < bound; i += 50 {
			if !emit(scalarCase{i, i + 50}) {
				return
			}
		}
	}, func(w *Worker, sc scalarCase) *Fail {
		res := xcrypto.NewDefaultPubKeyResolver([]xcrypto.PubKey{&secp256k1.PubKey{}})
		for i := sc.From; i < sc.To; i++ {
			for _, d := range []*big.Int{big.NewInt(i), new(big.Int).Sub(curve.N, big.NewInt(i))} {
				addN(&c.Transitions, 1)
				priv := priv24(d)
				want := refPub(d)
				for rep := 0; rep < 2; rep++ {
					pub := priv.PubKey()
					if !bytes.Equal(pub.Bytes(), want) {
						return failf("public-key", "private key %x: public key %x, must be %x", priv.Key, pub.Bytes(), want)
					}
					if !bytes.Equal(pub.Address(), refAddr(want)) {
						return failf("address", "public key %x: address %x, must be %x", want, pub.Address(), refAddr(want))
					}
				}
				if !bytes.Equal(priv.Bytes(), scalar32(d)) {
					return failf("private-key", "private key %x gives bytes %x", scalar32(d), priv.Bytes())
				}
				b, err := proto.Marshal(&secp256k1.PubKey{Key: want})
				must(err)
				exp, err := bech32.ConvertAndEncode("cosmos", refAddr(want))
				must(err)
				for _, u := range []string{"/tmos.x.authn.crypto.v1alpha1.PubKey", "/cosmos.crypto.secp256k1.PubKey"} {
					a := &anypb.Any{TypeUrl: u, Value: b}
					got, err := res.Address("cosmos", a)
					if err != nil || got != exp {
						return failf("resolved-address", "%s key %x: address %q, error %v, must be %q", u, want, got, err, exp)
					}
					pk, err := res.New(a)
					if err != nil || !pk.Equals(&secp256k1.PubKey{Key: want}) {
						return failf("resolved-key", "%s key %x: resolved as %v, error %v", u, want, pk, err)
					}
				}
			}
		}
		c.Outcome(fmt.Sprint(sc))
		return nil
	})
	type eqCase struct{ A int }
	var pubs [][]byte
	var privs [][]byte
	for _, k := range ks {
		pubs = append(pubs, refPub(k.d))
		privs = append(privs, scalar32(k.d))
	}
	base := pubs[0]
	for i := 0; i < 264; i += 3 {
		x := append([]byte{}, base...)
		x[i/8] ^= 1 << (i % 8)
		pubs = append(pubs, x)
		if i < 256 {
			y := append([]byte{}, privs[10]...)
			y[i/8] ^= 1 << (i % 8)
			privs = append(privs, y)
		}
	}
	pubs = append(pubs, base[:32], append(append([]byte{}, base...), 0), nil)
	privs = append(privs, privs[10][:31], append([]byte{0}, privs[10]...), nil)
	Explore(c, "equality", func(emit func(eqCase) bool) {
		for i := range pubs {
			if !emit(eqCase{i}) {
				return
			}
		}
	}, func(w *Worker, ec eqCase) *Fail {
		for j := range pubs {
			a, b := &secp256k1.PubKey{Key: pubs[ec.A]}, &secp256k1.PubKey{Key: append([]byte{}, pubs[j]...)}
			if a.Equals(b) != bytes.Equal(pubs[ec.A], pubs[j]) {
				return failf("equal-public", "public keys %x and %x: equal is %v", a.Key, b.Key, a.Equals(b))
			}
			addN(&c.Transitions, 1)
		}
		if ec.A < len(privs) {
			for j := range privs {
				a, b := &secp256k1.PrivKey{Key: privs[ec.A]}, &secp256k1.PrivKey{Key: append([]byte{}, privs[j]...)}
				if a.Equals(b) != bytes.Equal(privs[ec.A], privs[j]) {
					return failf("equal-private", "private keys %x and %x: equal is %v", a.Key, b.Key, a.Equals(b))
				}
				addN(&c.Transitions, 1)
			}
		}
		c.Outcome(fmt.Sprintf("%x", pubs[ec.A]))
		return nil
	})

	// many messages: signatures whose parts are shorter than 32 bytes
	type counterCase struct{ K, From int }
	nmsg := 400
	if c.Thorough {
		nmsg = 10000
	}
	Explore(c, "counters", func(emit func(counterCase) bool) {
		for k := range ks {
			for f := 0; f < nmsg; f += 50 {
				if !emit(counterCase{k, f}) {
					return
				}
			}
		}
	}, func(w *Worker, cc counterCase) *Fail {
		priv := priv24(ks[cc.K].d)
		pk := refPub(ks[cc.K].d)
		pub := &secp256k1.PubKey{Key: pk}
		for i := cc.From; i < cc.From+50; i++ {
			msg := []byte(fmt.Sprint("message ", i))
			sig, err := priv.Sign(msg)
			if err != nil {
				return failf("sign", "key %s: %v", ks[cc.K].name, err)
			}
			short := len(sig) != 64 || sig[0] == 0 || sig[32] == 0
			if !pub.VerifySignature(msg, sig) {
				return failf("verify", "key %s, message %q: the signature %x made by the key is refused", ks[cc.K].name, msg, sig)
			}
			if (short || i%16 == 0) && !refVerify(pk, msg, sig) {
				return failf("sign-wrong", "key %s, message %q: signature %x", ks[cc.K].name, msg, sig)
			}
			if short {
				c.Add("signatures_with_padded_parts", 1)
			}
			addN(&c.Transitions, 1)
		}
		return nil
	})

	// keys from secrets, and generated ones
	type secretCase struct{ From int }
	nsec := 4000
	if c.Thorough {
		nsec = 200000
	}
	Explore(c, "secrets", func(emit func(secretCase) bool) {
		for f := -1; f < nsec; f += 200 {
			if !emit(secretCase{f}) {
				return
			}
		}
	}, func(w *Worker, sc secretCase) *Fail {
		valid := func(k []byte, what string) *Fail {
			d := new(big.Int).SetBytes(k)
			if len(k) != 32 || d.Sign() == 0 || d.Cmp(curve.N) >= 0 {
				return failf("derived-invalid", "%s: key %x is not valid", what, k)
			}
			return nil
		}
		if sc.From < 0 {
			seen := map[string]bool{}
			for i := 0; i < 200; i++ {
				k := secp256k1.GenPrivKey()
				if f := valid(k.Key, "generated key"); f != nil {
					return f
				}
				if seen[string(k.Key)] {
					return failf("generated-twice", "key %x was generated twice", k.Key)
				}
				seen[string(k.Key)] = true
			}
		}
		secrets := [][]byte{nil, {}, {0}, bytes.Repeat([]byte{0xff}, 32), make([]byte, 32), make([]byte, 33), bytes.Repeat([]byte("x"), 1000)}
		for i := sc.From + 1; i < sc.From+201; i++ {
			secrets = append(secrets, []byte(fmt.Sprint("secret ", i)))
		}
		if sc.From >= 0 {
			secrets = secrets[7:]
		}
		for _, s := range secrets {
			in := append([]byte{}, s...)
			a, b := secp256k1.GenPrivKeyFromSecret(in), secp256k1.GenPrivKeyFromSecret(s)
			if f := valid(a.Key, fmt.Sprintf("secret %q", trunc(string(s), 40))); f != nil {
				return f
			}
			h := sha256.Sum256(s)
			d := new(big.Int).SetBytes(h[:])
			d.Mod(d, new(big.Int).Sub(curve.N, bigOne)).Add(d, bigOne)
			if !a.Equals(b) || !bytes.Equal(a.Key, scalar32(d)) || !bytes.Equal(in, s) {
				return failf("derived", "secret %q: keys %x and %x, must be %x", trunc(string(s), 40), a.Key, b.Key, scalar32(d))
			}
			if a.Key[0] == 0 {
				c.Add("derived_keys_with_leading_zero", 1)
			}
			addN(&c.Transitions, 1)
		}
		c.Outcome(fmt.Sprint(sc))
		return nil
	})
}
