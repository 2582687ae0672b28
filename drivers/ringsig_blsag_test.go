package blsag_test

import (
	"fmt"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

type vf struct {
	t *testing.T
	n int
	r *mrand.Rand
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s))}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

func (v *vf) sc() ristretto.Scalar {
	var s ristretto.Scalar
	s.Derive(v.bytes(32))
	return s
}

func (v *vf) pt() ristretto.Point {
	var p ristretto.Point
	p.Derive(v.bytes(32))
	return p
}

func base(s ristretto.Scalar) ristretto.Point {
	var p ristretto.Point
	p.ScalarMultBase(&s)
	return p
}

func mul(p ristretto.Point, s ristretto.Scalar) ristretto.Point {
	var q ristretto.Point
	q.ScalarMult(&p, &s)
	return q
}

func add(p, q ristretto.Point) ristretto.Point {
	var r ristretto.Point
	r.Add(&p, &q)
	return r
}

func hp(p ristretto.Point) ristretto.Point {
	var q ristretto.Point
	q.Derive(p.Bytes())
	return q
}

func next(m []byte, I, pk ristretto.Point, s, c ristretto.Scalar) ristretto.Scalar {
	L := add(base(s), mul(pk, c))
	R := add(mul(hp(pk), s), mul(I, c))
	b := append([]byte{}, m...)
	b = append(b, L.Bytes()...)
	b = append(b, R.Bytes()...)
	var x ristretto.Scalar
	x.Derive(b)
	return x
}

// oracle
func valid(m []byte, s blsag.RingSignature) bool {
	if len(s.PubKeys) == 0 || len(s.S) != len(s.PubKeys) {
		return false
	}
	c := s.C
	for i := range s.PubKeys {
		c = next(m, s.I, s.PubKeys[i], s.S[i], c)
	}
	return c.Equals(&s.C)
}

func cp(s blsag.RingSignature) blsag.RingSignature {
	s.S = append([]ristretto.Scalar{}, s.S...)
	s.PubKeys = append([]ristretto.Point{}, s.PubKeys...)
	return s
}

func same(a, b blsag.RingSignature) bool {
	if !a.I.Equals(&b.I) || !a.C.Equals(&b.C) || len(a.S) != len(b.S) || len(a.PubKeys) != len(b.PubKeys) {
		return false
	}
	for i := range a.S {
		if !a.S[i].Equals(&b.S[i]) {
			return false
		}
	}
	for i := range a.PubKeys {
		if !a.PubKeys[i].Equals(&b.PubKeys[i]) {
			return false
		}
	}
	return true
}

var sizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 20, 33}

func (v *vf) msgs() [][]byte {
	r := [][]byte{nil, {}, {0}, v.bytes(31), v.bytes(32), v.bytes(63), v.bytes(64), v.bytes(65), v.bytes(200), v.bytes(5000)}
	for _, n := range verifSizes(1 << 22) {
		r = append(r, v.bytes(n))
	}
	return r
}

func TestVerifC08(t *testing.T) {
	v := start(t)
	ms := v.msgs()
	var one, minus, two ristretto.Scalar
	one.SetOne()
	minus.Neg(&one)
	two.Add(&one, &one)
	for _, n := range append(append([]int{257, 1000}, sizes...), verifSizes(1100)...) {
		reps := 12
		if n > 8 {
			reps = 8
		}
		if n > 40 {
			reps = 2
		}
		if n == 1000 {
			reps = 4
		}
		pos := map[int]bool{}
		x := v.sc()
		switch n {
		case 2:
			x = one
		case 3:
			x = minus
		case 4:
			x = two
		}
		pk := base(x)
		img := mul(hp(pk), x)
		seen := map[string]bool{}
		for k := 0; k < reps; k++ {
			m := ms[(k+n)%len(ms)]
			mm := append([]byte{}, m...)
			backing := make([]ristretto.Point, n+3)
			for i := range backing {
				backing[i] = v.pt()
			}
			if k == 5 && n > 1 {
				backing[1] = backing[0] // repeated decoy
			}
			if k == 6 && n > 0 {
				backing[0] = pk // the signer's own key among the decoys
			}
			keep := append([]ristretto.Point{}, backing...)
			sig := blsag.Sign(m, backing[:n], x)
			for i := range backing {
				v.check(backing[i].Equals(&keep[i]), "Sign changed decoy %d of %d (or memory behind them)", i, n)
			}
			v.check(string(m) == string(mm), "Sign changed the message")
			v.check(len(sig.PubKeys) == n+1 && len(sig.S) == n+1, "ring of %d keys, %d responses for %d decoys", len(sig.PubKeys), len(sig.S), n)
			v.check(sig.I.Equals(&img), "key image is not x*Hp(xG) (ring %d, message %d bytes)", n+1, len(m))
			// multiset of keys
			cnt := map[string]int{}
			cnt[string(pk.Bytes())]++
			for i := 0; i < n; i++ {
				cnt[string(keep[i].Bytes())]++
			}
			for i := range sig.PubKeys {
				cnt[string(sig.PubKeys[i].Bytes())]--
				if sig.PubKeys[i].Equals(&pk) && k != 6 {
					pos[i] = true
				}
			}
			for _, c := range cnt {
				v.check(c == 0, "ring is not the decoys plus the signer (%d decoys)", n)
			}
			v.check(valid(m, sig), "signature over %d decoys does not satisfy the ring equation (message of %d bytes)", n, len(m))
			v.check(blsag.Verify(m, sig), "signature over %d decoys does not verify (message of %d bytes)", n, len(m))
			v.check(!blsag.Verify(append(append([]byte{}, m...), 1), sig), "signature verifies for another message")
			if k != 6 {
				// the nonce behind the signer's response occurs nowhere else
				c := sig.C
				for i := range sig.PubKeys {
					if sig.PubKeys[i].Equals(&pk) {
						var a ristretto.Scalar
						a.Mul(&c, &x)
						a.Add(&a, &sig.S[i])
						b := string(a.Bytes())
						v.check(!seen[b], "the signer's nonce was used before (ring %d)", n+1)
						seen[b] = true
					}
					c = next(m, sig.I, sig.PubKeys[i], sig.S[i], c)
				}
			}
			for i := range sig.S {
				b := string(sig.S[i].Bytes())
				v.check(!seen[b], "response %d repeats a random value (ring %d)", i, n+1)
				seen[b] = true
			}
			// altering the result does not reach the caller's keys
			for i := range sig.PubKeys {
				sig.PubKeys[i].SetBase()
			}
			for i := range backing {
				v.check(backing[i].Equals(&keep[i]), "the ring shares memory with the caller's decoys")
			}
		}
	}
	var once verifOnce
	verifTogether(t, 10, func(g int) string {
		w := v.at(g)
		x, m := w.sc(), w.bytes(20)
		var mix []ristretto.Point
		for i := 0; i < 1+g; i++ {
			mix = append(mix, w.pt())
		}
		s := blsag.Sign(m, mix, x)
		img := mul(hp(base(x)), x)
		for i := range s.S {
			if !once.first(s.S[i].Bytes()) {
				return "a response that occurred before"
			}
		}
		return fmt.Sprint(blsag.Verify(m, s), valid(m, s), len(s.PubKeys), s.I.Equals(&img))
	})
	v.end()
}

func TestVerifC09(t *testing.T) {
	v := start(t)
	ms := v.msgs()
	for _, n := range append(append([]int{}, sizes...), verifSizes(1100)...) {
		x := v.sc()
		mix := make([]ristretto.Point, n)
		for i := range mix {
			mix[i] = v.pt()
		}
		m := ms[n%len(ms)]
		// a signature made by the oracle: signer at every position
		step := 1
		if n > 8 {
			step = n / 2
		}
		if n > 40 {
			step = n
		}
		for j := 0; j <= n; j += step {
			pk := base(x)
			keys := append(append(append([]ristretto.Point{}, mix[:j]...), pk), mix[j:]...)
			ss := make([]ristretto.Scalar, n+1)
			a := v.sc()
			I := mul(hp(pk), x)
			b := append([]byte{}, m...)
			la, ra := base(a), mul(hp(pk), a)
			b = append(append(b, la.Bytes()...), ra.Bytes()...)
			var c, c0 ristretto.Scalar
			c.Derive(b)
			if (j+1)%(n+1) == 0 {
				c0 = c
			}
			for i := j + 1; i%(n+1) != j; i++ {
				l := i % (n + 1)
				ss[l] = v.sc()
				c = next(m, I, keys[l], ss[l], c)
				if (l+1)%(n+1) == 0 {
					c0 = c
				}
			}
			var cx ristretto.Scalar
			cx.Mul(&c, &x)
			ss[j].Sub(&a, &cx)
			sig := blsag.RingSignature{I: I, C: c0, S: ss, PubKeys: keys}
			if !valid(m, sig) {
				t.Fatalf("driver: bad oracle")
			}
			before := cp(sig)
			v.check(blsag.Verify(m, sig), "valid ring of %d with the signer at %d rejected", n+1, j)
			v.check(same(before, sig), "Verify changed the signature")
			try := func(what string, s blsag.RingSignature, mm []byte) {
				defer func() {
					if r := recover(); r != nil {
						v.check(false, "panic: %s, ring of %d: %v", what, n+1, r)
					}
				}()
				v.check(blsag.Verify(mm, s) == valid(mm, s), "Verify answers %v: %s, ring of %d", !valid(mm, s), what, n+1)
			}
			for i := 0; i <= n; i++ {
				if n > 5 && i != j && i != 0 && i != n && i != (j+1)%(n+1) && i != n/2 {
					continue
				}
				s := cp(sig)
				s.PubKeys[i] = v.pt()
				try(fmt.Sprintf("key %d replaced", i), s, m)
				s = cp(sig)
				s.S[i] = v.sc()
				try(fmt.Sprintf("response %d replaced", i), s, m)
				s = cp(sig)
				s.S[i].Neg(&s.S[i])
				try(fmt.Sprintf("response %d negated", i), s, m)
				s = cp(sig)
				s.PubKeys[i].Neg(&s.PubKeys[i])
				try(fmt.Sprintf("key %d negated", i), s, m)
				s = cp(sig)
				s.PubKeys = append(s.PubKeys[:i:i], s.PubKeys[i+1:]...)
				try(fmt.Sprintf("key %d removed", i), s, m)
				s = cp(sig)
				s.S = append(s.S[:i:i], s.S[i+1:]...)
				try(fmt.Sprintf("response %d removed", i), s, m)
				s.PubKeys = append(s.PubKeys[:i:i], s.PubKeys[i+1:]...)
				try(fmt.Sprintf("member %d removed", i), s, m)
				if i > 0 {
					s = cp(sig)
					s.S[0], s.S[i] = s.S[i], s.S[0]
					try("responses swapped", s, m)
					s = cp(sig)
					s.PubKeys[0], s.PubKeys[i] = s.PubKeys[i], s.PubKeys[0]
					try("keys swapped", s, m)
				}
			}
			s := cp(sig)
			s.I = v.pt()
			try("key image replaced", s, m)
			s = cp(sig)
			s.I.Neg(&s.I)
			try("key image negated", s, m)
			s = cp(sig)
			s.I.SetZero()
			try("key image zero", s, m)
			s = cp(sig)
			s.C = v.sc()
			try("challenge replaced", s, m)
			s = cp(sig)
			s.C.SetZero()
			try("challenge zero", s, m)
			s = cp(sig)
			s.S = append(s.S, v.sc())
			try("surplus response", s, m)
			s = cp(sig)
			s.PubKeys = append(s.PubKeys, v.pt())
			try("surplus key", s, m)
			s.S = append(s.S, v.sc())
			try("surplus member", s, m)
			s = cp(sig)
			s.PubKeys = nil
			try("no keys", s, m)
			s.S = nil
			try("empty ring", s, m)
			s = cp(sig)
			s.S = nil
			try("no responses", s, m)
			try("other message", sig, append(append([]byte{}, m...), 0))
			if len(m) > 0 {
				try("shorter message", sig, m[:len(m)-1])
				mm := append([]byte{}, m...)
				mm[len(mm)/2] ^= 1
				try("altered message", sig, mm)
			}
			// rotated ring: still closed when the challenge is rotated as well
			if n > 0 {
				s = cp(sig)
				s.C = next(m, s.I, s.PubKeys[0], s.S[0], s.C)
				s.S = append(s.S[1:len(s.S):len(s.S)], s.S[0])
				s.PubKeys = append(s.PubKeys[1:len(s.PubKeys):len(s.PubKeys)], s.PubKeys[0])
				try("rotated ring", s, m)
			}
		}
	}
	// every message length, altered at the ends and in the middle
	for _, m := range ms {
		x := v.sc()
		pk := base(x)
		sig := blsag.RingSignature{I: mul(hp(pk), x), S: make([]ristretto.Scalar, 1), PubKeys: []ristretto.Point{pk}}
		a := v.sc()
		la, ra := base(a), mul(hp(pk), a)
		b := append(append(append([]byte{}, m...), la.Bytes()...), ra.Bytes()...)
		sig.C.Derive(b)
		sig.S[0].Mul(&sig.C, &x)
		sig.S[0].Sub(&a, &sig.S[0])
		v.check(blsag.Verify(m, sig), "valid ring of one rejected (message of %d bytes)", len(m))
		v.check(!blsag.Verify(append(append([]byte{}, m...), 0), sig), "accepted with a zero byte added to a message of %d bytes", len(m))
		for _, k := range []int{0, len(m) / 2, len(m) - 1} {
			if k >= 0 && k < len(m) {
				mm := append([]byte{}, m...)
				mm[k] ^= 0x40
				v.check(!blsag.Verify(mm, sig), "accepted with byte %d of %d of the message altered", k, len(m))
				v.check(!blsag.Verify(m[:k], sig), "accepted for the first %d bytes of a message of %d", k, len(m))
			}
		}
	}
	verifTogether(t, 10, func(g int) string {
		w := v.at(g)
		x, m := w.sc(), w.bytes(20)
		var mix []ristretto.Point
		for i := 0; i < 1+g; i++ {
			mix = append(mix, w.pt())
		}
		s := blsag.Sign(m, mix, x)
		a, b := blsag.Verify(m, s) == valid(m, s), blsag.Verify(m[1:], s)
		s.S[g%len(s.S)] = w.sc()
		return fmt.Sprint(a, b, blsag.Verify(m, s))
	})
	v.end()
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1)))} }
