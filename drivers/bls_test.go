package bls_test

// Replay driver: runs the public API on concrete inputs against an oracle written
// directly on the pairing library. Used to turn a failed obligation into a failing input.

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/OneOfOne/xxhash"
	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"golang.org/x/crypto/sha3"
)

type vf struct {
	t *testing.T
	n int
	r *mrand.Rand
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s))}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

var order = func() *big.Int {
	return bn256.Order
}()

func h(b []byte) *big.Int {
	x := sha3.Sum256(b)
	return new(big.Int).SetBytes(x[:])
}

func H0(m []byte) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(h(m)) }

var g2 = new(bn256.G2).ScalarBaseMult(big.NewInt(1))

func eqGT(a, b *bn256.GT) bool { return bytes.Equal(a.Marshal(), b.Marshal()) }

func g1of(b []byte) *bn256.G1 {
	g := new(bn256.G1)
	if _, err := g.Unmarshal(b); err != nil {
		panic(err)
	}
	return g
}

func g2of(b []byte) *bn256.G2 {
	g := new(bn256.G2)
	if _, err := g.Unmarshal(b); err != nil {
		panic(err)
	}
	return g
}

func add1(a, b *bn256.G1) *bn256.G1          { return new(bn256.G1).Add(a, b) }
func mul1(a *bn256.G1, k *big.Int) *bn256.G1 { return new(bn256.G1).ScalarMult(a, k) }
func mul2(a *bn256.G2, k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarMult(a, k) }

type pair struct {
	pk *bls.PublicKey
	sk *bls.SecretKey
}

func (v *vf) key() pair {
	pk, sk, err := bls.GenKeyPair(v.r)
	v.check(err == nil, "GenKeyPair: %v", err)
	return pair{pk, sk}
}

func (v *vf) msgs() [][]byte {
	out := [][]byte{nil, {}, {0}, {1}, {0, 0}, []byte("message")}
	for _, n := range []int{31, 32, 33, 64, 135, 136, 137, 200, 272, 1000} {
		out = append(out, v.bytes(n))
	}
	for _, n := range verifSizes(1 << 21) {
		if n > 300 || n%5 == 0 {
			out = append(out, v.bytes(n), make([]byte, n))
		}
	}
	z := make([]byte, 300)
	out = append(out, z)
	return out
}

func sigOf(v *vf, g *bn256.G1) *bls.Signature {
	s := new(bls.Signature)
	err := s.Unmarshal(g.Marshal())
	v.check(err == nil, "Unmarshal of a valid signature: %v", err)
	return s
}

func usigOf(v *vf, g *bn256.G1) *bls.UnsafeSignature {
	s := new(bls.UnsafeSignature)
	err := s.Unmarshal(g.Marshal())
	v.check(err == nil, "Unmarshal of a valid unsafe signature: %v", err)
	return s
}

func pkOf(v *vf, g *bn256.G2) *bls.PublicKey {
	p, err := bls.UnmarshalPk(g.Marshal())
	v.check(err == nil, "UnmarshalPk of a valid key: %v", err)
	return p
}

func apkOf(v *vf, g *bn256.G2) *bls.Apk {
	p, err := bls.UnmarshalApk(g.Marshal())
	v.check(err == nil, "UnmarshalApk of a valid key: %v", err)
	return p
}

type failing struct{ n int }

func (f *failing) Read(p []byte) (int, error) {
	if f.n < len(p) {
		return 0, errors.New("no entropy")
	}
	f.n -= len(p)
	for i := range p {
		p[i] = 7
	}
	return len(p), nil
}

// reach collects the addresses of everything reachable through pointers and slices
func reach(x reflect.Value, seen map[uintptr]bool) {
	switch x.Kind() {
	case reflect.Ptr:
		if !x.IsNil() && !seen[x.Pointer()] {
			seen[x.Pointer()] = true
			reach(x.Elem(), seen)
		}
	case reflect.Slice:
		if x.Len() > 0 && !seen[x.Pointer()] {
			seen[x.Pointer()] = true
			for i := 0; i < x.Len(); i++ {
				reach(x.Index(i), seen)
			}
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			reach(x.Field(i), seen)
		}
	case reflect.Interface:
		if !x.IsNil() {
			reach(x.Elem(), seen)
		}
	}
}

func TestVerifC01(t *testing.T) {
	v := start(t)
	// the given source decides the key
	k1, s1, err := bls.GenKeyPair(mrand.New(mrand.NewSource(5)))
	v.check(err == nil, "GenKeyPair %v", err)
	x, gx, _ := bn256.RandomG2(mrand.New(mrand.NewSource(5)))
	v.check(bytes.Equal(k1.Marshal(), gx.Marshal()), "GenKeyPair does not use the given source")
	us, err := bls.UnsafeSign(s1, []byte("m"))
	v.check(err == nil && bytes.Equal(us.Marshal(), mul1(H0([]byte("m")), x).Marshal()), "UnsafeSign != x*H(m)")
	_, _, err = bls.GenKeyPair(&failing{0})
	v.check(err != nil, "GenKeyPair succeeds without entropy")
	ka, _, err := bls.GenKeyPair(nil)
	v.check(err == nil, "GenKeyPair(nil) %v", err)
	kb, _, _ := bls.GenKeyPair(nil)
	v.check(!bytes.Equal(ka.Marshal(), kb.Marshal()), "GenKeyPair(nil) repeats a key")

	ms := v.msgs()
	for i, m := range ms {
		src := v.r.Int63()
		x, gx, _ := bn256.RandomG2(mrand.New(mrand.NewSource(src)))
		pk, sk, _ := bls.GenKeyPair(mrand.New(mrand.NewSource(src)))
		before := append([]byte{}, m...)
		t1 := h(gx.Marshal())
		us, err := bls.UnsafeSign(sk, m)
		v.check(err == nil, "UnsafeSign: %v", err)
		v.check(bytes.Equal(us.Marshal(), mul1(H0(m), x).Marshal()), "UnsafeSign != x*H(m) for message %x", m)
		s, err := bls.Sign(sk, pk, m)
		v.check(err == nil, "Sign: %v", err)
		want := mul1(mul1(H0(m), x), t1)
		v.check(bytes.Equal(s.Marshal(), want.Marshal()), "Sign != x*H(pk)*H(m) for message %x", m)
		apk := bls.NewApk(pk)
		v.check(bls.VerifyUnsafe(pk, m, us) == nil, "honest unsafe signature rejected, message %x", m)
		v.check(bls.Verify(apk, m, s) == nil, "honest signature rejected, message %x", m)
		v.check(bytes.Equal(before, m), "message changed")
		// other messages, keys and signatures: exactly the equation
		for j, m2 := range ms {
			if (j+i)%4 != 0 && j != i {
				continue
			}
			ok := eqGT(bn256.Pair(want, g2), bn256.Pair(H0(m2), mul2(gx, t1)))
			v.check((bls.Verify(apk, m2, s) == nil) == ok, "Verify differs from the equation: signed %x, verified %x", m, m2)
			v.check((bls.VerifyUnsafe(pk, m2, us) == nil) == bytes.Equal(m, m2), "VerifyUnsafe: signed %x, verified %x", m, m2)
		}
		neg := new(bn256.G1).Neg(want)
		v.check(bls.Verify(apk, m, sigOf(v, neg)) != nil, "negated signature accepted, message %x", m)
		nus := new(bn256.G1).Neg(g1of(us.Marshal()))
		v.check(bls.VerifyUnsafe(pk, m, usigOf(v, nus)) != nil, "negated unsafe signature accepted, message %x", m)
		v.check(bls.Verify(apk, m, sigOf(v, add1(want, H0([]byte("x"))))) != nil, "shifted signature accepted")
		v.check(bls.Verify(apk, m, sigOf(v, mul1(H0(m), x))) != nil, "unwrapped signature accepted by Verify")
		o := v.key()
		v.check(bls.Verify(bls.NewApk(o.pk), m, s) != nil, "signature accepted under another key")
		v.check(bls.VerifyUnsafe(o.pk, m, us) != nil, "unsafe signature accepted under another key")
		apkraw := apkOf(v, gx)
		v.check(bls.Verify(apkraw, m, sigOf(v, mul1(H0(m), x))) == nil, "equation holds but Verify rejects (raw key)")
	}
	// degenerate but well-defined group elements
	zero := new(bn256.G1).ScalarBaseMult(big.NewInt(0))
	for _, m := range ms[:4] {
		k := v.key()
		v.check(bls.VerifyUnsafe(k.pk, m, usigOf(v, zero)) != nil, "identity signature accepted")
		v.check(bls.Verify(bls.NewApk(k.pk), m, sigOf(v, zero)) != nil, "identity signature accepted")
	}
	// a message whose signature shares a prefix: flip single bits
	k := v.key()
	base := v.bytes(40)
	s, _ := bls.Sign(k.sk, k.pk, base)
	us2, _ := bls.UnsafeSign(k.sk, base)
	apk := bls.NewApk(k.pk)
	for i := 0; i < len(base); i++ {
		m := append([]byte{}, base...)
		m[i] ^= 1 << uint(i%8)
		if i%4 == 0 || i > 30 {
			v.check(bls.Verify(apk, m, s) != nil, "signature accepted for a message with byte %d changed", i)
			v.check(bls.VerifyUnsafe(k.pk, m, us2) != nil, "unsafe signature accepted for a message with byte %d changed", i)
		}
	}
	v.check(bls.Verify(apk, base[:39], s) != nil, "signature accepted for a prefix")
	for _, n := range verifSizes(1 << 21) { // every byte counts, however long the message
		m := v.bytes(n)
		s, _ := bls.Sign(k.sk, k.pk, m)
		u, _ := bls.UnsafeSign(k.sk, m)
		for _, i := range []int{0, n / 2, n - 1} {
			m[i] ^= 0x10
			v.check(bls.Verify(apk, m, s) != nil, "signature accepted for a message of %d bytes with byte %d changed", n, i)
			v.check(bls.VerifyUnsafe(k.pk, m, u) != nil, "unsafe signature accepted for a message of %d bytes with byte %d changed", n, i)
			m[i] ^= 0x10
		}
		v.check(bls.Verify(apk, m[:n-1], s) != nil, "signature of %d bytes accepted for a prefix", n)
		v.check(bls.Verify(apk, m[1:], s) != nil, "signature of %d bytes accepted for a suffix", n)
	}
	// the identity as a key: only the identity signature satisfies the equation
	idk := new(bn256.G2).ScalarBaseMult(big.NewInt(0))
	for _, m := range ms[:4] {
		ok := eqGT(bn256.Pair(H0([]byte("z")), g2), bn256.Pair(H0(m), idk))
		v.check((bls.VerifyUnsafe(pkOf(v, idk), m, usigOf(v, H0([]byte("z")))) == nil) == ok, "identity key: VerifyUnsafe differs from the equation")
		v.check((bls.Verify(apkOf(v, idk), m, sigOf(v, H0([]byte("z")))) == nil) == ok, "identity key: Verify differs from the equation")
	}
	// small secrets and keys related to the message hash: the equation decides
	for _, m := range ms[:4] {
		for _, x := range []int64{1, 2, 3} {
			key := new(bn256.G2).ScalarBaseMult(big.NewInt(x))
			v.check(bls.VerifyUnsafe(pkOf(v, key), m, usigOf(v, mul1(H0(m), big.NewInt(x)))) == nil, "equation holds but VerifyUnsafe rejects")
			v.check(bls.VerifyUnsafe(pkOf(v, key), m, usigOf(v, mul1(H0(m), big.NewInt(x+1)))) != nil, "equation fails but VerifyUnsafe accepts")
		}
	}
	v.check(bls.Verify(apk, append(append([]byte{}, base...), 0), s) != nil, "signature accepted for an extension")
	verifTogether(t, 8, func(g int) string {
		w := v.at(g)
		k, m := w.key(), w.bytes(10+40*g)
		s, e1 := bls.Sign(k.sk, k.pk, m)
		u, e2 := bls.UnsafeSign(k.sk, m)
		if e1 != nil || e2 != nil {
			return fmt.Sprint(e1, e2)
		}
		apk := bls.NewApk(k.pk)
		return fmt.Sprintf("%x %x %v %v %v %v", s.Marshal(), u.Marshal(), bls.Verify(apk, m, s), bls.VerifyUnsafe(k.pk, m, u),
			bls.Verify(apk, m[1:], s) != nil, bls.VerifyUnsafe(k.pk, m[1:], u) != nil)
	})
	v.end()
}

func apkSum(ks []pair) *bn256.G2 {
	var sum *bn256.G2
	for _, k := range ks {
		g := g2of(k.pk.Marshal())
		p := mul2(g, h(k.pk.Marshal()))
		if sum == nil {
			sum = p
		} else {
			sum = new(bn256.G2).Add(sum, p)
		}
	}
	return sum
}

func TestVerifC02(t *testing.T) {
	v := start(t)
	for _, n := range []int{1, 2, 3, 4, 5, 8, 11} {
		var ks []pair
		var pks []*bls.PublicKey
		var raw [][]byte
		for i := 0; i < n; i++ {
			ks = append(ks, v.key())
			pks = append(pks, ks[i].pk)
			raw = append(raw, ks[i].pk.Marshal())
		}
		rep := n == 5 || n == 2 || n == 8
		if n == 5 { // a repeated key
			ks[4], pks[4], raw[4] = ks[1], ks[1].pk, raw[1]
		}
		if n == 2 || n == 8 { // the same key twice in a row
			ks[1], raw[1] = ks[0], raw[0]
			pks[1], _ = bls.UnmarshalPk(raw[0])
			if n == 8 {
				pks[1] = pks[0]
			}
		}
		want := apkSum(ks).Marshal()
		a1, err := bls.AggregateApk(pks)
		v.check(err == nil && bytes.Equal(a1.Marshal(), want), "AggregateApk of %d keys is not the sum of H(pk)*pk (%v)", n, err)
		a2, a3 := bls.NewApk(pks[0]), bls.NewApk(pks[0])
		for i := 1; i < n; i++ {
			keep := append([]byte{}, raw[i]...)
			v.check(a2.Aggregate(pks[i]) == nil, "Aggregate")
			v.check(a3.AggregateBytes(raw[i]) == nil, "AggregateBytes")
			v.check(bytes.Equal(keep, raw[i]), "AggregateBytes changed its input")
		}
		v.check(bytes.Equal(a2.Marshal(), want), "Aggregate one by one of %d keys is not the sum", n)
		v.check(bytes.Equal(a3.Marshal(), want), "AggregateBytes one by one of %d keys is not the sum", n)
		for i := range pks {
			v.check(bytes.Equal(pks[i].Marshal(), raw[i]), "aggregation of %d keys changed key %d", n, i)
		}
		v.check(a3.AggregateBytes(raw[0][:20]) != nil, "AggregateBytes accepts a short key")
		v.check(bytes.Equal(a3.Marshal(), want), "failed AggregateBytes changed the key")

		m := v.bytes(n * 7)
		var sum *bn256.G1
		var usum *bn256.G1
		var s1, s2, s3, s4 *bls.Signature
		var us []*bls.UnsafeSignature
		var plain *bls.PublicKey
		for i := 0; i < n; i++ {
			u, err := bls.UnsafeSign(ks[i].sk, m)
			v.check(err == nil, "UnsafeSign")
			s, err := bls.Sign(ks[i].sk, ks[i].pk, m)
			v.check(err == nil, "Sign")
			us = append(us, u)
			ub := u.Marshal()
			sb := s.Marshal()
			g := mul1(g1of(ub), h(raw[i]))
			v.check(bytes.Equal(g.Marshal(), sb), "Sign is not UnsafeSign times H(pk)")
			if i == 0 {
				sum, usum = g, g1of(ub)
				s1, s2, s3, s4 = s.Copy(), s.Copy(), s.Copy(), s.Copy()
				plain = pks[0]
				continue
			}
			sum, usum = add1(sum, g), add1(usum, g1of(ub))
			r := s1.Aggregate(s)
			v.check(bytes.Equal(r.Marshal(), sum.Marshal()), "Signature.Aggregate returns something else than the sum")
			v.check(s2.Add(ks[i].pk, u) == nil, "Add")
			v.check(s3.AggregateBytes(sb) == nil, "AggregateBytes")
			v.check(s4.AggregateBytes(s.Compress()) == nil, "AggregateBytes (compressed)")
			v.check(bytes.Equal(sb, s.Marshal()), "aggregation changed the added signature %d", i)
			v.check(bytes.Equal(ub, u.Marshal()), "aggregation changed the added unsafe signature %d", i)
			pb := plain.Marshal()
			next := plain.Aggregate(pks[i])
			v.check(bytes.Equal(next.Marshal(), new(bn256.G2).Add(g2of(pb), g2of(raw[i])).Marshal()), "PublicKey.Aggregate is not the sum")
			v.check(bytes.Equal(pb, plain.Marshal()) && bytes.Equal(raw[i], pks[i].Marshal()), "PublicKey.Aggregate changed an operand")
			plain = next
		}
		for k, s := range []*bls.Signature{s1, s2, s3, s4} {
			v.check(bytes.Equal(s.Marshal(), sum.Marshal()), "aggregation path %d of %d signatures is not the sum", k, n)
			v.check(bls.Verify(a1, m, s) == nil, "aggregated signature of %d signers rejected", n)
		}
		v.check(s3.AggregateBytes(make([]byte, 10)) != nil, "AggregateBytes accepts garbage")
		v.check(bytes.Equal(s3.Marshal(), sum.Marshal()), "failed AggregateBytes changed the signature")
		if n > 1 && !rep {
			fewer, _ := bls.AggregateApk(pks[1:])
			v.check(bls.Verify(fewer, m, s1) != nil, "aggregated signature accepted without the first signer's key")
			fewer, _ = bls.AggregateApk(pks[:n-1])
			v.check(bls.Verify(fewer, m, s1) != nil, "aggregated signature accepted without the last signer's key")
		}
		var ubs [][]byte
		for _, u := range us {
			ubs = append(ubs, u.Marshal())
		}
		b, err := bls.UnsafeBatch(us...)
		v.check(err == nil && bytes.Equal(b.Marshal(), usum.Marshal()), "UnsafeBatch of %d is not the sum", n)
		if n > 1 {
			u := bls.UnsafeAggregate(us[0], us[1])
			v.check(bytes.Equal(u.Marshal(), add1(g1of(ubs[0]), g1of(ubs[1])).Marshal()), "UnsafeAggregate is not the sum")
		}
		for i, u := range us {
			v.check(bytes.Equal(u.Marshal(), ubs[i]), "UnsafeBatch/UnsafeAggregate changed operand %d", i)
		}
		v.check(bls.VerifyUnsafe(plain, m, b) == nil, "sum of unsafe signatures rejected under the sum of keys")
	}
	{ // operands that are the same object
		k := v.key()
		m := v.bytes(40)
		s, _ := bls.Sign(k.sk, k.pk, m)
		g := g1of(s.Marshal())
		want := add1(g, g1of(s.Marshal())).Marshal()
		s2 := s.Copy()
		v.check(bytes.Equal(s2.Aggregate(s2).Marshal(), want) && bytes.Equal(s2.Marshal(), want), "a signature aggregated with itself is not its double")
		u, _ := bls.UnsafeSign(k.sk, m)
		ub := g1of(u.Marshal())
		uw := add1(ub, g1of(u.Marshal())).Marshal()
		v.check(bytes.Equal(bls.UnsafeAggregate(u, u).Marshal(), uw), "an unsafe signature aggregated with itself is not its double")
		b, err := bls.UnsafeBatch(u, u)
		v.check(err == nil && bytes.Equal(b.Marshal(), uw), "UnsafeBatch of the same signature twice is not its double")
		v.check(bytes.Equal(u.Marshal(), ub.Marshal()), "aggregating an unsafe signature with itself changed it")
		pg := g2of(k.pk.Marshal())
		v.check(bytes.Equal(k.pk.Aggregate(k.pk).Marshal(), new(bn256.G2).Add(pg, g2of(k.pk.Marshal())).Marshal()), "a key aggregated with itself is not its double")
		a := bls.NewApk(k.pk)
		ag := g2of(a.Marshal())
		aw := new(bn256.G2).Add(ag, mul2(ag, h(a.Marshal()))).Marshal()
		v.check(a.Aggregate(a.PublicKey) == nil && bytes.Equal(a.Marshal(), aw), "an aggregated key aggregated with its own key is not the sum")
	}
	for _, n := range verifSizes(1100) { // many signers
		if n < 12 {
			continue
		}
		var ks []pair
		var pks []*bls.PublicKey
		var us []*bls.UnsafeSignature
		m := []byte("many signers")
		var usum *bn256.G1
		var sig *bls.Signature
		for i := 0; i < n; i++ {
			k := v.key()
			ks, pks = append(ks, k), append(pks, k.pk)
			u, _ := bls.UnsafeSign(k.sk, m)
			us = append(us, u)
			s, _ := bls.Sign(k.sk, k.pk, m)
			if i == 0 {
				usum, sig = g1of(u.Marshal()), s
			} else {
				usum = add1(usum, g1of(u.Marshal()))
				sig.Aggregate(s)
			}
		}
		want := apkSum(ks).Marshal()
		apk, err := bls.AggregateApk(pks)
		v.check(err == nil && bytes.Equal(apk.Marshal(), want), "AggregateApk of %d keys is not the sum of H(pk)*pk (%v)", n, err)
		v.check(bls.Verify(apk, m, sig) == nil, "aggregated signature of %d signers rejected", n)
		ub, err := bls.UnsafeBatch(us...)
		v.check(err == nil && bytes.Equal(ub.Marshal(), usum.Marshal()), "UnsafeBatch of %d is not the sum", n)
	}
	verifTogether(t, 5, func(g int) string {
		w := v.at(g)
		ks, m := []pair{w.key(), w.key(), w.key()}, w.bytes(32)
		apk := bls.NewApk(ks[0].pk)
		s, err := bls.Sign(ks[0].sk, ks[0].pk, m)
		for _, k := range ks[1:] {
			if err != nil || apk.Aggregate(k.pk) != nil {
				return "an error"
			}
			var o *bls.Signature
			o, err = bls.Sign(k.sk, k.pk, m)
			s.Aggregate(o)
		}
		all, err := bls.AggregateApk([]*bls.PublicKey{ks[0].pk, ks[1].pk, ks[2].pk})
		if err != nil {
			return err.Error()
		}
		other := bls.NewApk(ks[1].pk)
		return fmt.Sprintf("%x %x %x %v %v %v", apk.Marshal(), all.Marshal(), s.Marshal(), bls.Verify(apk, m, s), bls.Verify(all, m, s), bls.Verify(other, m, s) != nil)
	})
	v.end()
}

func TestVerifC03(t *testing.T) {
	v := start(t)
	for _, n := range []int{1, 2, 3, 4, 6} {
		var ks []pair
		var pks []*bls.PublicKey
		var apks []*bls.Apk
		var g2s, ag2s []*bn256.G2
		var ms [][]byte
		var us []*bls.UnsafeSignature
		var ss []*bls.Signature
		for i := 0; i < n; i++ {
			k := v.key()
			ks, pks = append(ks, k), append(pks, k.pk)
			apks = append(apks, bls.NewApk(k.pk))
			g2s = append(g2s, g2of(k.pk.Marshal()))
			ag2s = append(ag2s, g2of(bls.NewApk(k.pk).Marshal()))
			m := v.bytes(5 + 30*i)
			if i == 1 && n > 2 {
				m = []byte{}
			}
			if i > 2 { // same start, different end
				m = append(append([]byte{}, ms[2]...), byte(i))
			}
			ms = append(ms, m)
			u, _ := bls.UnsafeSign(k.sk, m)
			s, _ := bls.Sign(k.sk, k.pk, m)
			us, ss = append(us, u), append(ss, s)
		}
		ub, err := bls.UnsafeBatch(us...)
		v.check(err == nil, "UnsafeBatch")
		sb := ss[0].Copy()
		for _, s := range ss[1:] {
			sb.Aggregate(s)
		}
		v.check(bls.VerifyUnsafeBatch(pks, ms, ub) == nil, "honest unsafe batch of %d rejected", n)
		v.check(bls.VerifyBatch(apks, ms, sb) == nil, "honest batch of %d rejected", n)
		v.check(bls.VerifyCompressed(g2s, ms, ub.Compress(), false) == nil, "honest compressed batch of %d rejected", n)
		v.check(bls.VerifyCompressed(ag2s, ms, sb.Compress(), true) == nil, "honest compressed batch of %d rejected (repetition allowed)", n)
		all := func(p []*bls.PublicKey, a []*bls.Apk, g []*bn256.G2, m [][]byte, u *bls.UnsafeSignature, s *bls.Signature, what string) {
			defer func() {
				if r := recover(); r != nil {
					v.check(false, "panic in batch verification, %s of %d: %v", what, n, r)
				}
			}()
			v.check(bls.VerifyUnsafeBatch(p, m, u) != nil, "unsafe batch of %d accepted: %s", n, what)
			v.check(bls.VerifyBatch(a, m, s) != nil, "batch of %d accepted: %s", n, what)
			v.check(bls.VerifyCompressed(g, m, u.Compress(), false) != nil, "compressed batch of %d accepted: %s", n, what)
			if what != "repeated message" {
				v.check(bls.VerifyCompressed(g, m, u.Compress(), true) != nil, "compressed batch of %d accepted (repetition allowed): %s", n, what)
			}
		}
		for i := 0; i < n; i++ {
			m2 := append([][]byte{}, ms...)
			m2[i] = append(append([]byte{}, ms[i]...), 9)
			all(pks, apks, g2s, m2, ub, sb, fmt.Sprintf("message %d altered", i))
			k := v.key()
			p2 := append([]*bls.PublicKey{}, pks...)
			p2[i] = k.pk
			a2 := append([]*bls.Apk{}, apks...)
			a2[i] = bls.NewApk(k.pk)
			h2 := append([]*bn256.G2{}, g2s...)
			h2[i] = g2of(k.pk.Marshal())
			all(p2, a2, h2, ms, ub, sb, fmt.Sprintf("key %d altered", i))
		}
		all(pks, apks, g2s, ms[:n-1], ub, sb, "one message less")
		all(pks[:n-1], apks[:n-1], g2s[:n-1], ms, ub, sb, "one key less")
		all(pks, apks, g2s, append(append([][]byte{}, ms...), []byte("extra")), ub, sb, "one message more")
		all(nil, nil, nil, nil, ub, sb, "empty lists")
		all(pks, apks, g2s, nil, ub, sb, "no messages")
		all(nil, nil, nil, ms, ub, sb, "no keys")
		all(pks, apks, g2s, ms, bls.UnsafeAggregate(ub, us[0]), sb.Copy().Aggregate(ss[0]), "signature shifted")
		if n > 1 {
			m2 := append([][]byte{}, ms...)
			m2[0], m2[n-1] = m2[n-1], m2[0]
			all(pks, apks, g2s, m2, ub, sb, "messages swapped")
			// repeated messages with a correct product must still be refused, wherever the repetition is
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					m3 := append([][]byte{}, ms...)
					m3[i] = append([]byte{}, ms[j]...)
					u3 := append([]*bls.UnsafeSignature{}, us...)
					u3[i], _ = bls.UnsafeSign(ks[i].sk, m3[i])
					s3 := append([]*bls.Signature{}, ss...)
					s3[i], _ = bls.Sign(ks[i].sk, ks[i].pk, m3[i])
					ub3, _ := bls.UnsafeBatch(u3...)
					sb3 := s3[0].Copy()
					for _, s := range s3[1:] {
						sb3.Aggregate(s)
					}
					v.check(bls.VerifyUnsafeBatch(pks, m3, ub3) != nil, "unsafe batch of %d accepted with message %d = message %d", n, i, j)
					v.check(bls.VerifyBatch(apks, m3, sb3) != nil, "batch of %d accepted with message %d = message %d", n, i, j)
					v.check(bls.VerifyCompressed(g2s, m3, ub3.Compress(), false) != nil, "compressed batch of %d accepted with message %d = message %d", n, i, j)
					v.check(bls.VerifyCompressed(g2s, m3, ub3.Compress(), true) == nil, "compressed batch of %d rejected though repetition is allowed and the product holds", n)
				}
			}
		}
		// a valid signature of all but the last key, with the last key left in the list
		if n > 1 {
			un, _ := bls.UnsafeBatch(us[:n-1]...)
			sn := ss[0].Copy()
			for _, s := range ss[1 : n-1] {
				sn.Aggregate(s)
			}
			all(pks, apks, g2s, ms[:n-1], un, sn, "surplus key at the end")
			all(pks[:n-1], apks[:n-1], g2s[:n-1], ms, un, sn, "surplus message at the end")
			m4 := append(append([][]byte{}, ms[:n-1]...), nil)
			all(pks, apks, g2s, m4, un, sn, "key of the last, empty, message not signed")
		}
		for _, l := range []int{0, 1, 32, 34, 64} {
			v.check(bls.VerifyCompressed(g2s, ms, make([]byte, l), false) != nil, "compressed batch accepted with a signature of %d zero bytes", l)
		}
	}
	for _, n := range verifSizes(1 << 16) { // long messages that differ in a single place
		k1, k2 := v.key(), v.key()
		for _, at := range []int{0, n / 2, n - 1} {
			m1 := v.bytes(n)
			m2 := append([]byte{}, m1...)
			m2[at] ^= 1
			u1, _ := bls.UnsafeSign(k1.sk, m1)
			u2, _ := bls.UnsafeSign(k2.sk, m2)
			v.check(bls.VerifyUnsafeBatch([]*bls.PublicKey{k1.pk, k2.pk}, [][]byte{m1, m2}, bls.UnsafeAggregate(u1, u2)) == nil, "batch of two messages of %d bytes differing in byte %d rejected", n, at)
		}
		m1 := v.bytes(n)
		m2 := append([]byte{}, m1[:n-1]...)
		u1, _ := bls.UnsafeSign(k1.sk, m1)
		u2, _ := bls.UnsafeSign(k2.sk, m2)
		v.check(bls.VerifyUnsafeBatch([]*bls.PublicKey{k1.pk, k2.pk}, [][]byte{m1, m2}, bls.UnsafeAggregate(u1, u2)) == nil, "batch of a message of %d bytes and its prefix rejected", n)
	}
	// different messages that a short digest or a padding would confuse
	sums := map[uint32][]byte{}
	var twins [][2][]byte
	for i := 0; i < 400000 && len(twins) < 2; i++ {
		m := []byte(fmt.Sprintf("msg %d", i))
		c := uint32(xxhash.Checksum64(m) >> 32)
		if o, ok := sums[c]; ok {
			twins = append(twins, [2][]byte{o, m})
		}
		sums[c] = m
	}
	for _, l := range []int{0, 1, 8, 16, 31, 32, 63, 64} {
		m := v.bytes(l)
		for _, z := range []byte{0, 0x20, 0x80} {
			twins = append(twins, [2][]byte{m, append(append([]byte{}, m...), z)}, [2][]byte{m, append([]byte{z}, m...)})
		}
		if l > 0 {
			d, d2 := sha3.Sum256(m), sha3.Sum512(m)
			twins = append(twins, [2][]byte{m, d[:]}, [2][]byte{m, d2[:]}, [2][]byte{m, bytes.ToUpper([]byte(fmt.Sprintf("%x", m)))}, [2][]byte{m, []byte(fmt.Sprintf("%x", m))})
		}
	}
	k1, k2 := v.key(), v.key()
	for _, tw := range twins {
		if bytes.Equal(tw[0], tw[1]) {
			continue
		}
		u1, _ := bls.UnsafeSign(k1.sk, tw[0])
		u2, _ := bls.UnsafeSign(k2.sk, tw[1])
		v.check(bls.VerifyUnsafeBatch([]*bls.PublicKey{k1.pk, k2.pk}, [][]byte{tw[0], tw[1]}, bls.UnsafeAggregate(u1, u2)) == nil, "batch of the different messages %x and %x rejected", tw[0], tw[1])
		v.check(bls.VerifyUnsafe(k1.pk, tw[1], u1) != nil, "signature on %x accepted for %x", tw[0], tw[1])
	}
	large := map[int]bool{}
	for _, n := range verifSizes(1100) {
		large[n], large[n+2] = n >= 7, n >= 7
	}
	for _, share := range [][]int{{0, 0}, {0, 0, 0}, {0, 1, 1}, {0, 1, 0}, {0, 1, 2, 2}, {0, 1, 1, 3}, {0, 1, 2, 1}, {0, 1, 0, 1}} { // keys that occur more than once
		var pks []*bls.PublicKey
		var apks []*bls.Apk
		var g2s []*bn256.G2
		var ks []pair
		var ms [][]byte
		var us []*bls.UnsafeSignature
		var ss []*bls.Signature
		for i, j := range share {
			k := v.key()
			pk, apk, g := k.pk, bls.NewApk(k.pk), g2of(k.pk.Marshal())
			if j < i {
				k, pk, apk, g = ks[j], pks[j], apks[j], g2s[j]
			}
			ks, pks, apks, g2s = append(ks, k), append(pks, pk), append(apks, apk), append(g2s, g)
			ms = append(ms, []byte(fmt.Sprintf("message %d", i)))
			u, _ := bls.UnsafeSign(k.sk, ms[i])
			s, _ := bls.Sign(k.sk, k.pk, ms[i])
			us, ss = append(us, u), append(ss, s)
		}
		ub, _ := bls.UnsafeBatch(us...)
		sb := ss[0].Copy()
		for _, s := range ss[1:] {
			sb.Aggregate(s)
		}
		v.check(bls.VerifyUnsafeBatch(pks, ms, ub) == nil, "honest unsafe batch with keys %v rejected", share)
		v.check(bls.VerifyBatch(apks, ms, sb) == nil, "honest batch with keys %v rejected", share)
		v.check(bls.VerifyCompressed(g2s, ms, ub.Compress(), false) == nil, "honest compressed batch with keys %v rejected", share)
		for i := range ms {
			m2 := append([][]byte{}, ms...)
			m2[i] = []byte("altered")
			v.check(bls.VerifyUnsafeBatch(pks, m2, ub) != nil, "unsafe batch with keys %v accepted, message %d altered", share, i)
			v.check(bls.VerifyBatch(apks, m2, sb) != nil, "batch with keys %v accepted, message %d altered", share, i)
		}
	}
	for n, ok := range large { // large batches
		if !ok {
			continue
		}
		var ks []pair
		var pks []*bls.PublicKey
		var apks []*bls.Apk
		var g2s []*bn256.G2
		var ms [][]byte
		var us []*bls.UnsafeSignature
		var ss []*bls.Signature
		for i := 0; i < n; i++ {
			k := v.key()
			ks, pks = append(ks, k), append(pks, k.pk)
			apks = append(apks, bls.NewApk(k.pk))
			g2s = append(g2s, g2of(k.pk.Marshal()))
			m := []byte(fmt.Sprintf("message %d", i))
			ms = append(ms, m)
			u, _ := bls.UnsafeSign(k.sk, m)
			s, _ := bls.Sign(k.sk, k.pk, m)
			us, ss = append(us, u), append(ss, s)
		}
		run := func(want bool, what string, p []*bls.PublicKey, a []*bls.Apk, g []*bn256.G2, m [][]byte, us []*bls.UnsafeSignature, ss []*bls.Signature) {
			ub, _ := bls.UnsafeBatch(us...)
			sb := ss[0].Copy()
			for _, s := range ss[1:] {
				sb.Aggregate(s)
			}
			v.check((bls.VerifyUnsafeBatch(p, m, ub) == nil) == want, "unsafe batch of %d: accepted is not %v: %s", n, want, what)
			v.check((bls.VerifyBatch(a, m, sb) == nil) == want, "batch of %d: accepted is not %v: %s", n, want, what)
			v.check((bls.VerifyCompressed(g, m, ub.Compress(), false) == nil) == want, "compressed batch of %d: accepted is not %v: %s", n, want, what)
		}
		run(true, "honest", pks, apks, g2s, ms, us, ss)
		for _, i := range []int{0, n / 2, n - 2, n - 1} {
			m2 := append([][]byte{}, ms...)
			m2[i] = []byte("altered")
			run(false, fmt.Sprintf("message %d altered", i), pks, apks, g2s, m2, us, ss)
			j := (i + n - 1) % n
			m2[i] = ms[j]
			u3, s3 := append([]*bls.UnsafeSignature{}, us...), append([]*bls.Signature{}, ss...)
			u3[i], _ = bls.UnsafeSign(ks[i].sk, m2[i])
			s3[i], _ = bls.Sign(ks[i].sk, ks[i].pk, m2[i])
			run(false, fmt.Sprintf("message %d = message %d", i, j), pks, apks, g2s, m2, u3, s3)
			run(false, fmt.Sprintf("signature %d missing", i), pks, apks, g2s, ms, append(append([]*bls.UnsafeSignature{}, us[:i]...), us[i+1:]...), append(append([]*bls.Signature{}, ss[:i]...), ss[i+1:]...))
		}
		run(false, "surplus key", pks, apks, g2s, ms[:n-1], us[:n-1], ss[:n-1])
		run(false, "surplus message", pks[:n-1], apks[:n-1], g2s[:n-1], ms, us[:n-1], ss[:n-1])
	}
	verifTogether(t, 5, func(g int) string {
		w := v.at(g)
		ks := []pair{w.key(), w.key()}
		ms := [][]byte{w.bytes(20), w.bytes(30)}
		u, err := bls.UnsafeSign(ks[0].sk, ms[0])
		x, err2 := bls.UnsafeSign(ks[1].sk, ms[1])
		if err != nil || err2 != nil {
			return "an error"
		}
		b, err := bls.UnsafeBatch(u, x)
		if err != nil {
			return err.Error()
		}
		pks := []*bls.PublicKey{ks[0].pk, ks[1].pk}
		s, _ := bls.Sign(ks[0].sk, ks[0].pk, ms[0])
		o, _ := bls.Sign(ks[1].sk, ks[1].pk, ms[1])
		s.Aggregate(o)
		apks := []*bls.Apk{bls.NewApk(ks[0].pk), bls.NewApk(ks[1].pk)}
		return fmt.Sprintf("%x %v %v %v %v %v", b.Marshal(), bls.VerifyUnsafeBatch(pks, ms, b), bls.VerifyUnsafeBatch(pks, [][]byte{ms[1], ms[0]}, b) != nil,
			bls.VerifyUnsafeBatch(pks, [][]byte{ms[0], ms[0]}, b) != nil, bls.VerifyBatch(apks, ms, s), bls.VerifyBatch(apks, [][]byte{ms[1], ms[0]}, s) != nil)
	})
	many := make([]pair, 8)
	for g := range many {
		many[g] = v.at(g).key()
	}
	verifTogether(t, 400, func(g int) string { // repeated messages are refused before any pairing
		w := v.at(g)
		var pks []*bls.PublicKey
		var ms [][]byte
		for i := 0; i < 30; i++ {
			pks, ms = append(pks, many[g].pk), append(ms, w.bytes(8+g))
		}
		ms[29] = ms[g]
		return fmt.Sprint(bls.VerifyUnsafeBatch(pks, ms, new(bls.UnsafeSignature)) != nil)
	})
	v.end()
}

func TestVerifC04(t *testing.T) {
	v := start(t)
	{ // many encodings kept side by side
		type enc struct {
			pk             *bls.PublicKey
			s              *bls.Signature
			u              *bls.UnsafeSignature
			pb, tb         []byte
			sb, sc, ub, uc []byte
		}
		var es []enc
		for i := 0; i < 5; i++ {
			k := v.key()
			s, _ := bls.Sign(k.sk, k.pk, []byte{byte(i)})
			u, _ := bls.UnsafeSign(k.sk, []byte{byte(i)})
			txt, err := k.pk.MarshalText()
			v.check(err == nil, "MarshalText: %v", err)
			es = append(es, enc{k.pk, s, u, k.pk.Marshal(), txt, s.Marshal(), s.Compress(), u.Marshal(), u.Compress()})
		}
		for i, e := range es {
			var pk bls.PublicKey
			v.check(pk.UnmarshalText(e.tb) == nil && bytes.Equal(pk.Marshal(), e.pk.Marshal()), "text of key %d is not that key after other keys were encoded", i)
			v.check(pk.Unmarshal(e.pb) == nil && bytes.Equal(pk.Marshal(), e.pk.Marshal()), "encoding of key %d is not that key after other keys were encoded", i)
			for _, b := range [][]byte{e.sb, e.sc} {
				var s bls.Signature
				v.check(s.Unmarshal(b) == nil && bytes.Equal(s.Marshal(), e.s.Marshal()), "encoding of signature %d is not that signature after others were encoded", i)
			}
			var u bls.UnsafeSignature
			v.check(u.Unmarshal(e.ub) == nil && bytes.Equal(u.Marshal(), e.u.Marshal()), "encoding of unsafe signature %d is not that signature after others were encoded", i)
			v.check(u.Decompress(e.uc) == nil && bytes.Equal(u.Marshal(), e.u.Marshal()), "compressed unsafe signature %d is not that signature after others were encoded", i)
		}
	}
	for i := 0; i < 6; i++ {
		k := v.key()
		m := v.bytes(i * 20)
		pb := k.pk.Marshal()
		g := g2of(pb)
		v.check(bytes.Equal(g.Marshal(), pb), "Marshal")
		back, err := bls.UnmarshalPk(pb)
		v.check(err == nil && bytes.Equal(back.Marshal(), pb), "UnmarshalPk(Marshal(pk)) != pk")
		o := v.key()
		keep := append([]byte{}, pb...)
		v.check(o.pk.Unmarshal(pb) == nil && bytes.Equal(o.pk.Marshal(), pb), "Unmarshal(Marshal(pk)) != pk")
		pb[5] ^= 1
		v.check(bytes.Equal(o.pk.Marshal(), keep), "the key shares memory with the bytes it was read from")
		pb = keep
		txt, err := k.pk.MarshalText()
		v.check(err == nil, "MarshalText %v", err)
		dec, err := base64.RawURLEncoding.DecodeString(string(txt))
		v.check(err == nil && bytes.Equal(dec, pb), "MarshalText is not the raw URL base64 of the key")
		o = v.key()
		v.check(o.pk.UnmarshalText(txt) == nil && bytes.Equal(o.pk.Marshal(), pb), "UnmarshalText(MarshalText(pk)) != pk")
		apk := bls.NewApk(k.pk)
		ab := apk.Marshal()
		a2, err := bls.UnmarshalApk(ab)
		v.check(err == nil && bytes.Equal(a2.Marshal(), ab), "UnmarshalApk(Marshal(apk)) != apk")
		c := apk.Copy()
		v.check(bytes.Equal(c.Marshal(), ab), "Apk.Copy differs")
		v.check(c.Aggregate(o.pk) == nil, "Aggregate")
		v.check(bytes.Equal(apk.Marshal(), ab), "changing a copy of an apk changed the original")
		c = apk.Copy()
		cb := c.Marshal()
		_ = apk.Aggregate(o.pk)
		v.check(bytes.Equal(c.Marshal(), cb), "changing an apk changed its copy")

		s, _ := bls.Sign(k.sk, k.pk, m)
		u, _ := bls.UnsafeSign(k.sk, m)
		sb, ub := s.Marshal(), u.Marshal()
		v.check(len(sb) == 64 && len(ub) == 64, "signature encoding length")
		s2, err := bls.UnmarshalSignature(sb)
		v.check(err == nil && bytes.Equal(s2.Marshal(), sb), "UnmarshalSignature(Marshal) differs")
		s2, err = bls.UnmarshalSignature(s.Compress())
		v.check(err == nil && bytes.Equal(s2.Marshal(), sb), "UnmarshalSignature(Compress) differs")
		s3 := s.Copy()
		v.check(bytes.Equal(s3.Marshal(), sb), "Signature.Copy differs")
		s3.Aggregate(s2)
		v.check(bytes.Equal(s.Marshal(), sb), "changing a copy of a signature changed the original")
		s3 = s.Copy()
		s.Aggregate(s2)
		v.check(bytes.Equal(s3.Marshal(), sb), "changing a signature changed its copy")
		s = s3
		var d bls.Signature
		v.check(d.Decompress(s.Compress()) == nil && bytes.Equal(d.Marshal(), sb), "Decompress(Compress) differs")
		var du bls.UnsafeSignature
		v.check(du.Decompress(u.Compress()) == nil && bytes.Equal(du.Marshal(), ub), "Decompress(Compress) differs (unsafe)")
		v.check(du.Unmarshal(ub) == nil && bytes.Equal(du.Marshal(), ub), "Unmarshal(Marshal) differs (unsafe)")
		nb := new(bn256.G1).Neg(g1of(sb))
		v.check(d.Decompress(nb.Compress()) == nil && bytes.Equal(d.Marshal(), nb.Marshal()), "Decompress of the negated point differs")
		v.check(!bytes.Equal(nb.Compress(), s.Compress()), "compression loses the sign")

		// malformed input
		bad := func(what string, f func() error) {
			defer func() {
				if r := recover(); r != nil {
					v.check(false, "panic: %s: %v", what, r)
				}
			}()
			v.check(f() != nil, "accepted: %s", what)
		}
		for l := 0; l < 64; l++ {
			x := append([]byte{}, sb[:l]...)
			if l != 33 {
				bad(fmt.Sprintf("signature of %d bytes", l), func() error { return new(bls.Signature).Unmarshal(x) })
				bad(fmt.Sprintf("signature of %d bytes", l), func() error { _, e := bls.UnmarshalSignature(x); return e })
				bad(fmt.Sprintf("compressed signature of %d bytes", l), func() error { return new(bls.Signature).Decompress(x) })
				bad(fmt.Sprintf("compressed unsafe signature of %d bytes", l), func() error { return new(bls.UnsafeSignature).Decompress(x) })
			}
			bad(fmt.Sprintf("unsafe signature of %d bytes", l), func() error { return new(bls.UnsafeSignature).Unmarshal(x) })
			z := make([]byte, l, 200)
			bad(fmt.Sprintf("unsafe signature of %d zero bytes", l), func() error { return new(bls.UnsafeSignature).Unmarshal(z) })
			if l != 33 {
				bad(fmt.Sprintf("signature of %d zero bytes", l), func() error { return new(bls.Signature).Unmarshal(z) })
				bad(fmt.Sprintf("compressed signature of %d zero bytes", l), func() error { return new(bls.Signature).Decompress(z) })
				bad(fmt.Sprintf("compressed unsafe signature of %d zero bytes", l), func() error { return new(bls.UnsafeSignature).Decompress(z) })
			}
		}
		for _, l := range []int{0, 2, 64, 128} {
			x := append([]byte{}, pb...)[:l]
			bad(fmt.Sprintf("public key of %d bytes", l), func() error { _, e := bls.UnmarshalPk(x); return e })
			bad(fmt.Sprintf("apk of %d bytes", l), func() error { _, e := bls.UnmarshalApk(x); return e })
			bad(fmt.Sprintf("public key of %d bytes", l), func() error { return new(bls.PublicKey).Unmarshal(x) })
			tx := []byte(base64.RawURLEncoding.EncodeToString(x))
			bad(fmt.Sprintf("text key of %d bytes", l), func() error { return new(bls.PublicKey).UnmarshalText(tx) })
		}
		off := append([]byte{}, sb...)
		off[63] ^= 1
		bad("signature off the curve", func() error { return new(bls.Signature).Unmarshal(off) })
		bad("unsafe signature off the curve", func() error { return new(bls.UnsafeSignature).Unmarshal(off) })
		offk := append([]byte{}, pb...)
		offk[len(offk)-1] ^= 1
		bad("key off the curve", func() error { _, e := bls.UnmarshalPk(offk); return e })
		bad("apk off the curve", func() error { _, e := bls.UnmarshalApk(offk); return e })
		bad("key off the curve as text", func() error {
			return new(bls.PublicKey).UnmarshalText([]byte(base64.RawURLEncoding.EncodeToString(offk)))
		})
		bt := append([]byte{}, txt...)
		bt[len(bt)/2] = '!'
		bad("text with an invalid character", func() error { return new(bls.PublicKey).UnmarshalText(bt) })
		bt = append([]byte{}, txt...)
		bt[len(bt)-1] = '='
		bad("text with padding", func() error { return new(bls.PublicKey).UnmarshalText(bt) })
		// line breaks are skipped by the decoder: such text denotes the same key
		for _, at := range []int{0, 7, 60, len(txt)} {
			nl := append(append(append([]byte{}, txt[:at]...), '\n'), txt[at:]...)
			var p bls.PublicKey
			if p.UnmarshalText(nl) == nil {
				v.check(bytes.Equal(p.Marshal(), pb), "text with a line break at %d gives another key", at)
			}
			short := append(append([]byte{}, txt[:len(txt)-8]...), bytes.Repeat([]byte{'\n'}, 8)...)
			bad("text of a truncated key filled up with line breaks", func() error { return new(bls.PublicKey).UnmarshalText(short) })
		}
		// the valid text of a key followed by something that is not text
		for _, tail := range []string{"!", "=", " ", "A!!!", "====", "\x00"} {
			long := append(append([]byte{}, txt...), tail...)
			bad(fmt.Sprintf("text with %q appended", tail), func() error { return new(bls.PublicKey).UnmarshalText(long) })
		}
		for l := 0; l < len(txt); l += 9 {
			cut := append([]byte{}, txt[:l]...)
			bad(fmt.Sprintf("text cut to %d characters", l), func() error { return new(bls.PublicKey).UnmarshalText(cut) })
		}
		// a copy survives whatever is done to the original, and the other way round
		for j := 0; j < 3; j++ {
			c1, c2 := s.Copy(), apk.Copy()
			b1, b2 := c1.Marshal(), c2.Marshal()
			_ = s.Copy().Aggregate(s)
			v.check(s.Unmarshal(g1of(ub).Marshal()) == nil, "Unmarshal")
			_ = apk.PublicKey.Unmarshal(o.pk.Marshal())
			v.check(bytes.Equal(c1.Marshal(), b1) && bytes.Equal(c2.Marshal(), b2), "reading into the original changed its copy")
			v.check(c1.Unmarshal(b1) == nil && s.Unmarshal(b1) == nil && apk.PublicKey.Unmarshal(b2) == nil, "Unmarshal")
			x, y := s.Marshal(), apk.Marshal()
			v.check(c1.Decompress(u.Compress()) == nil && c2.PublicKey.Unmarshal(o.pk.Marshal()) == nil, "Unmarshal")
			v.check(bytes.Equal(s.Marshal(), x) && bytes.Equal(apk.Marshal(), y), "reading into a copy changed the original")
		}
		big := bytes.Repeat([]byte{0xff}, 64)
		bad("coordinates above the modulus", func() error { return new(bls.Signature).Unmarshal(big) })
		for j := 0; j < 20; j++ {
			x := v.bytes(33)
			_, e := bn256.Decompress(x)
			e2 := new(bls.Signature).Decompress(x)
			v.check((e == nil) == (e2 == nil), "Decompress of %x: %v, library: %v", x, e2, e)
			e3 := new(bls.Signature).Unmarshal(x)
			v.check((e == nil) == (e3 == nil), "Unmarshal of 33 bytes %x: %v, library: %v", x, e3, e)
		}
	}
	// copies share no memory with the original, at any depth
	k := v.key()
	sg, _ := bls.Sign(k.sk, k.pk, []byte("m"))
	for _, x := range []struct {
		what string
		a, b interface{}
	}{{"Signature", sg, sg.Copy()}, {"Apk", bls.NewApk(k.pk), nil}} {
		b := x.b
		if b == nil {
			b = x.a.(*bls.Apk).Copy()
		}
		ra, rb := map[uintptr]bool{}, map[uintptr]bool{}
		reach(reflect.ValueOf(x.a), ra)
		reach(reflect.ValueOf(b), rb)
		for p := range ra {
			v.check(!rb[p], "a copy of a %s shares memory with the original", x.what)
		}
	}
	// a key whose encoding ends in a zero byte: without it the text is too short
	for i := 0; i < 2000; i++ {
		k := v.key()
		pb := k.pk.Marshal()
		if pb[len(pb)-1] != 0 {
			continue
		}
		for fill := 1; fill <= 8; fill++ {
			short := append([]byte(base64.RawURLEncoding.EncodeToString(pb[:len(pb)-1])), bytes.Repeat([]byte{'\n'}, fill)...)
			v.check(new(bls.PublicKey).UnmarshalText(short) != nil, "text of a truncated key (a last zero byte missing, %d line breaks) accepted", fill)
		}
		v.check(new(bls.PublicKey).Unmarshal(pb[:len(pb)-1]) != nil, "truncated key accepted")
		break
	}
	_ = io.EOF
	_ = order
	verifTogether(t, 8, func(g int) string {
		w := v.at(g)
		k, m := w.key(), w.bytes(10)
		s, _ := bls.Sign(k.sk, k.pk, m)
		u, _ := bls.UnsafeSign(k.sk, m)
		apk := bls.NewApk(k.pk)
		c := s.Compress()
		var s1, s2 bls.Signature
		var u1 bls.UnsafeSignature
		e1, e2, e3 := s1.Decompress(c), s2.Unmarshal(s.Marshal()), u1.Unmarshal(u.Marshal())
		pk, e4 := bls.UnmarshalPk(k.pk.Marshal())
		ap, e5 := bls.UnmarshalApk(apk.Marshal())
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil {
			return fmt.Sprint(e1, e2, e3, e4, e5)
		}
		txt, e6 := pk.MarshalText()
		return fmt.Sprintf("%x %x %x %x %x %x %s %v", c, s1.Marshal(), s2.Marshal(), u1.Marshal(), pk.Marshal(), ap.Marshal(), txt, e6)
	})
	v.end()
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1)))} }
