package rangeproof_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"runtime"
	"strconv"
	"testing"
	"testing/iotest"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

type vf struct {
	t    *testing.T
	n    int
	r    *mrand.Rand
	deep bool
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s)), os.Getenv("VERIF_TIER") == "thorough"}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

type S = ristretto.Scalar
type P = ristretto.Point

func (v *vf) sc() S {
	var s S
	s.Derive(v.bytes(32))
	return s
}

func (v *vf) pt() P {
	var p P
	p.Derive(v.bytes(32))
	return p
}

func num(b *big.Int) S {
	var s S
	s.SetBigInt(b)
	return s
}

func u64(x uint64) S { return num(new(big.Int).SetUint64(x)) }
func add(a, b S) (r S) {
	r.Add(&a, &b)
	return
}
func sub(a, b S) (r S) {
	r.Sub(&a, &b)
	return
}
func mul(a, b S) (r S) {
	r.Mul(&a, &b)
	return
}
func inv(a S) (r S) {
	r.Inverse(&a)
	return
}
func padd(a, b P) (r P) {
	r.Add(&a, &b)
	return
}
func psub(a, b P) (r P) {
	r.Sub(&a, &b)
	return
}
func pmul(p P, s S) (r P) {
	r.ScalarMult(&p, &s)
	return
}
func hs(b []byte) (s S) {
	s.Derive(b)
	return
}
func zeroP() (p P) {
	p.SetZero()
	return
}
func one() (s S) {
	s.SetOne()
	return
}

var chains = map[string][]P{}

func chain(seed string, n int) []P {
	c := chains[seed]
	for len(c) < n {
		var p P
		if len(c) == 0 {
			p.Derive([]byte(seed))
		} else {
			p.Derive(c[len(c)-1].Bytes())
		}
		c = append(c, p)
	}
	chains[seed] = c
	return c[:n]
}

const seedG = "dusk.BulletProof.vec1"
const seedH = "dusk.BulletProof.vec1\x01"

func baseV() (p P) {
	p.Derive([]byte("blindPoint"))
	return
}
func baseB() (p P) {
	p.SetBase()
	return
}

// a proof as its components
type raw struct {
	V          []P
	A, S, X, Y P
	taux, mu   S
	t, a, b    S
	L, R       []P
}

func (r *raw) enc(commits bool) []byte {
	var o []byte
	if commits {
		o = make([]byte, 4)
		binary.BigEndian.PutUint32(o, uint32(len(r.V)))
		for i := range r.V {
			o = append(o, r.V[i].Bytes()...)
		}
	}
	for _, p := range []P{r.A, r.S, r.X, r.Y} {
		o = append(o, p.Bytes()...)
	}
	for _, s := range []S{r.taux, r.mu, r.t, r.a, r.b} {
		o = append(o, s.Bytes()...)
	}
	for i := range r.L {
		o = append(o, r.L[i].Bytes()...)
		o = append(o, r.R[i].Bytes()...)
	}
	return o
}

func arr(b []byte) *[32]byte {
	var x [32]byte
	copy(x[:], b)
	return &x
}

// parse is the documented layout; nil if malformed
func parse(b []byte, commits bool) *raw {
	r := &raw{}
	take := func() []byte {
		if len(b) < 32 {
			return nil
		}
		x := b[:32]
		b = b[32:]
		return x
	}
	point := func(p *P) bool {
		x := take()
		return x != nil && p.SetBytes(arr(x))
	}
	scal := func(s *S) bool {
		x := take()
		if x == nil {
			return false
		}
		s.SetBytes(arr(x))
		return true
	}
	if commits {
		if len(b) < 4 {
			return nil
		}
		n := binary.BigEndian.Uint32(b)
		b = b[4:]
		for i := uint32(0); i < n; i++ {
			var p P
			if !point(&p) {
				return nil
			}
			r.V = append(r.V, p)
		}
	}
	for _, p := range []*P{&r.A, &r.S, &r.X, &r.Y} {
		if !point(p) {
			return nil
		}
	}
	for _, s := range []*S{&r.taux, &r.mu, &r.t, &r.a, &r.b} {
		if !scal(s) {
			return nil
		}
	}
	if len(b)%64 != 0 {
		return nil
	}
	for len(b) > 0 {
		var p, q P
		if !point(&p) || !point(&q) {
			return nil
		}
		r.L = append(r.L, p)
		r.R = append(r.R, q)
	}
	return r
}

func (v *vf) raw(p *rangeproof.Proof) *raw {
	var b bytes.Buffer
	v.check(p.Encode(&b, true) == nil, "encoding a proof fails")
	r := parse(b.Bytes(), true)
	v.check(r != nil, "an encoded proof does not have the documented layout")
	return r
}

// build a proof object without the codec under test where possible
func (v *vf) build(r *raw) rangeproof.Proof {
	var p rangeproof.Proof
	v.check(p.Decode(bytes.NewReader(r.enc(true)), true) == nil, "decoding a well-formed proof fails")
	return p
}

func (r *raw) challenges() (x, y, z, w S) {
	var tr []byte
	for i := range r.V {
		tr = append(tr, r.V[i].Bytes()...)
	}
	tr = append(tr, r.A.Bytes()...)
	tr = append(tr, r.S.Bytes()...)
	y = hs(tr)
	z = hs(y.Bytes())
	tr = append(tr, z.Bytes()...)
	tr = append(tr, r.X.Bytes()...)
	tr = append(tr, r.Y.Bytes()...)
	x = hs(tr)
	tr = append(tr, x.Bytes()...)
	tr = append(tr, r.taux.Bytes()...)
	tr = append(tr, r.mu.Bytes()...)
	tr = append(tr, r.t.Bytes()...)
	w = hs(tr)
	return
}

func pow(x S, n int) []S {
	o := make([]S, n)
	c := one()
	for i := range o {
		o[i] = c
		c = mul(c, x)
	}
	return o
}

// valid is the oracle: the two Bulletproof equations
func (r *raw) valid() bool {
	m := len(r.V)
	if m < 1 || m > 16 || m&(m-1) != 0 || len(r.L) != len(r.R) || len(r.L) > 20 || 1<<uint(len(r.L)) != 64*m {
		return false
	}
	n := 64 * m
	x, y, z, w := r.challenges()
	zp, yp, yi, two := pow(z, m+3), pow(y, n), pow(inv(y), n), pow(u64(2), 64)
	// t*V + taux*B = sum z^(j+2) Vj + delta*V + x T1 + x^2 T2
	var sy, s2 S
	sy.SetZero()
	s2.SetZero()
	for i := range yp {
		sy = add(sy, yp[i])
	}
	for i := range two {
		s2 = add(s2, two[i])
	}
	delta := mul(sub(z, mul(z, z)), sy)
	for j := 0; j < m; j++ {
		delta = sub(delta, mul(zp[j+3], s2))
	}
	lhs := padd(pmul(baseV(), r.t), pmul(baseB(), r.taux))
	rhs := padd(pmul(baseV(), delta), padd(pmul(r.X, x), pmul(r.Y, mul(x, x))))
	for j := 0; j < m; j++ {
		rhs = padd(rhs, pmul(r.V[j], zp[j+2]))
	}
	if !lhs.Equals(&rhs) {
		return false
	}
	// A + xS - z<1,G> + <z + z^(j+2) 2^i y^-i, H> - mu B + t w V, folded with the rounds
	G, H := append([]P{}, chain(seedG, n)...), append([]P{}, chain(seedH, n)...)
	c := padd(r.A, pmul(r.S, x))
	var negz S
	negz.Neg(&z)
	for i := 0; i < n; i++ {
		c = padd(c, pmul(G[i], negz))
		c = padd(c, pmul(H[i], add(z, mul(yi[i], mul(zp[2+i/64], two[i%64])))))
		H[i] = pmul(H[i], yi[i])
	}
	c = psub(c, pmul(baseB(), r.mu))
	Q := pmul(baseV(), w)
	c = padd(c, pmul(Q, r.t))
	var tr []byte
	for k := range r.L {
		tr = append(tr, r.L[k].Bytes()...)
		tr = append(tr, r.R[k].Bytes()...)
		u := hs(tr)
		ui := inv(u)
		c = padd(c, padd(pmul(r.L[k], mul(u, u)), pmul(r.R[k], mul(ui, ui))))
		h := len(G) / 2
		for i := 0; i < h; i++ {
			G[i] = padd(pmul(G[i], ui), pmul(G[h+i], u))
			H[i] = padd(pmul(H[i], u), pmul(H[h+i], ui))
		}
		G, H = G[:h], H[:h]
	}
	e := padd(padd(pmul(G[0], r.a), pmul(H[0], r.b)), pmul(Q, mul(r.a, r.b)))
	return e.Equals(&c)
}

// forge is a prover of the driver's own. It commits to vals but proves bits; the tweaks make single equations fail
type tweak struct {
	taux, mu, t S
	vShift      int // rotate the commitments by this
}

func noTweak() tweak {
	var k tweak
	k.taux.SetZero()
	k.mu.SetZero()
	k.t.SetZero()
	return k
}

func (v *vf) forge(vals []S, bits []uint64, k tweak) *raw {
	m := len(vals)
	n := 64 * m
	r := &raw{}
	G, H := chain(seedG, n), chain(seedH, n)
	gam := make([]S, m)
	for i := range vals {
		gam[i] = v.sc()
		r.V = append(r.V, padd(pmul(baseV(), vals[i]), pmul(baseB(), gam[i])))
	}
	aL, aR, sL, sR := make([]S, n), make([]S, n), make([]S, n), make([]S, n)
	alpha, rho := v.sc(), v.sc()
	r.A, r.S = pmul(baseB(), alpha), pmul(baseB(), rho)
	for i := 0; i < n; i++ {
		aL[i] = u64(bits[i/64] >> uint(i%64) & 1)
		aR[i] = sub(aL[i], one())
		sL[i], sR[i] = v.sc(), v.sc()
		r.A = padd(r.A, padd(pmul(G[i], aL[i]), pmul(H[i], aR[i])))
		r.S = padd(r.S, padd(pmul(G[i], sL[i]), pmul(H[i], sR[i])))
	}
	_, y, z, _ := r.challenges()
	zp, yp, two := pow(z, m+3), pow(y, n), pow(u64(2), 64)
	l0, r0, r1 := make([]S, n), make([]S, n), make([]S, n)
	var t1, t2 S
	t1.SetZero()
	t2.SetZero()
	for i := 0; i < n; i++ {
		l0[i] = sub(aL[i], z)
		r0[i] = add(mul(yp[i], add(aR[i], z)), mul(zp[2+i/64], two[i%64]))
		r1[i] = mul(yp[i], sR[i])
		t1 = add(t1, add(mul(l0[i], r1[i]), mul(sL[i], r0[i])))
		t2 = add(t2, mul(sL[i], r1[i]))
	}
	b1, b2 := v.sc(), v.sc()
	r.X = padd(pmul(baseV(), t1), pmul(baseB(), b1))
	r.Y = padd(pmul(baseV(), t2), pmul(baseB(), b2))
	x, _, _, _ := r.challenges()
	l, rr := make([]S, n), make([]S, n)
	r.t.SetZero()
	for i := 0; i < n; i++ {
		l[i] = add(l0[i], mul(x, sL[i]))
		rr[i] = add(r0[i], mul(x, r1[i]))
		r.t = add(r.t, mul(l[i], rr[i]))
	}
	r.taux = add(mul(x, b1), mul(mul(x, x), b2))
	for j := range gam {
		r.taux = add(r.taux, mul(zp[j+2], gam[j]))
	}
	r.mu = add(alpha, mul(x, rho))
	r.taux, r.mu, r.t = add(r.taux, k.taux), add(r.mu, k.mu), add(r.t, k.t)
	_, _, _, w := r.challenges()
	Q := pmul(baseV(), w)
	g, h := append([]P{}, G...), append([]P{}, H...)
	yi := pow(inv(y), n)
	for i := range h {
		h[i] = pmul(h[i], yi[i])
	}
	var tr []byte
	for len(g) > 1 {
		q := len(g) / 2
		var cl, cr S
		cl.SetZero()
		cr.SetZero()
		L, R := zeroP(), zeroP()
		for i := 0; i < q; i++ {
			cl = add(cl, mul(l[i], rr[q+i]))
			cr = add(cr, mul(l[q+i], rr[i]))
			L = padd(L, padd(pmul(g[q+i], l[i]), pmul(h[i], rr[q+i])))
			R = padd(R, padd(pmul(g[i], l[q+i]), pmul(h[q+i], rr[i])))
		}
		L, R = padd(L, pmul(Q, cl)), padd(R, pmul(Q, cr))
		r.L, r.R = append(r.L, L), append(r.R, R)
		tr = append(append(tr, L.Bytes()...), R.Bytes()...)
		u := hs(tr)
		ui := inv(u)
		for i := 0; i < q; i++ {
			l[i] = add(mul(l[i], u), mul(l[q+i], ui))
			rr[i] = add(mul(rr[i], ui), mul(rr[q+i], u))
			g[i] = padd(pmul(g[i], ui), pmul(g[q+i], u))
			h[i] = padd(pmul(h[i], u), pmul(h[q+i], ui))
		}
		g, h, l, rr = g[:q], h[:q], l[:q], rr[:q]
	}
	r.a, r.b = l[0], rr[0]
	return r
}

// verify against the oracle; must never panic
func (v *vf) verify(r *raw, what string) {
	v.t.Helper()
	p := v.build(r)
	v.verdict(p, r.valid(), what)
}

func (v *vf) verdict(p rangeproof.Proof, want bool, what string) {
	v.t.Helper()
	for k := 0; k < 2; k++ {
		var ok bool
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					v.check(false, "%s: Verify panics: %v", what, e)
				}
			}()
			ok, err = rangeproof.Verify(p)
		}()
		v.check(ok == want && (err == nil) == want, "%s: Verify gives (%v, %v), the equations say %v (call %d)", what, ok, err, want, k+1)
	}
}

func (v *vf) value(i int) uint64 {
	b := []uint64{0, 1, 2, 3, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0), ^uint64(0) - 1, 1 << 32, 1<<32 - 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 255, 256, 1<<56 + 5}
	if i < len(b) {
		return b[i]
	}
	if i%2 == 0 {
		return 1 << uint(v.r.Intn(64))
	}
	return v.r.Uint64()
}

func nextPow(n int) int {
	m := 1
	for m < n {
		m *= 2
	}
	return m
}

func TestVerifC13(t *testing.T) {
	v := start(t)
	seen := map[string]bool{}
	fresh := func(b []byte, what string) {
		v.check(!seen[string(b)], "%s is used twice", what)
		seen[string(b)] = true
	}
	at := 0
	for _, n := range []int{1, 16, 2, 3, 1, 9, 4, 5, 15, 1, 6, 7, 8, 2, 10, 11, 12, 13, 14, 1, 3} {
		for _, debug := range []bool{false, true} {
			if debug && n > 8 && n != 9 && n != 16 && !v.deep {
				continue
			}
			// spare capacity behind the caller's values
			full := make([]S, n+20)
			vals := make([]uint64, n)
			for i := range full {
				full[i] = v.sc()
			}
			for i := 0; i < n; i++ {
				vals[i] = v.value(at)
				at++
				full[i] = u64(vals[i])
			}
			if n == 4 || n == 7 {
				for i := range vals {
					vals[i] = vals[0]
					full[i] = full[0]
				}
			}
			keep := append([]S{}, full...)
			p, err := rangeproof.Prove(full[:n], debug)
			v.check(err == nil, "proving %v (debug %v) fails: %v", vals, debug, err)
			for i := range full {
				v.check(full[i].Equals(&keep[i]), "proving changes the caller's memory at %d of %d", i, n)
			}
			m := nextPow(n)
			v.check(len(p.V) == m, "%d values give %d commitments", n, len(p.V))
			for i := range p.V {
				var x uint64
				if i < n {
					x = vals[i]
				}
				q := padd(pmul(baseV(), u64(x)), pmul(baseB(), p.V[i].BlindingFactor))
				v.check(q.Equals(&p.V[i].Value), "commitment %d of %v does not open to its value", i, vals)
				fresh(p.V[i].BlindingFactor.Bytes(), "a blinding factor")
			}
			r := v.raw(&p)
			for _, q := range append(append([]P{r.A, r.S, r.X, r.Y}, r.L...), r.R...) {
				fresh(q.Bytes(), "a point of the proof")
			}
			for _, s := range []S{r.taux, r.mu, r.t, r.a, r.b} {
				fresh(s.Bytes(), "a scalar of the proof")
			}
			v.check(r.valid(), "the proof of %v (debug %v) does not satisfy the equations", vals, debug)
			v.verdict(p, true, fmt.Sprintf("proof of %v (debug %v)", vals, debug))
		}
	}
	for _, n := range []int{0, 17, 18, 31, 32, 33, 64, 100} {
		for _, debug := range []bool{false, true} {
			x := make([]S, n)
			for i := range x {
				x[i] = u64(uint64(i))
			}
			_, err := rangeproof.Prove(x, debug)
			v.check(err != nil, "%d values are not refused", n)
		}
	}
	_, err := rangeproof.Prove(nil, false)
	v.check(err != nil, "nil is not refused")
	// values out of range
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	minus := sub(u64(0), one())
	for i, x := range []S{num(two64), add(num(two64), u64(5)), minus, num(new(big.Int).Lsh(big.NewInt(1), 251)), v.sc(), num(new(big.Int).Lsh(big.NewInt(3), 64))} {
		for _, at := range []int{0, 1, 2} {
			vals := []S{u64(7), u64(9), u64(1)}[:at+1]
			vals[at] = x
			p, err := rangeproof.Prove(vals, false)
			if err == nil {
				v.verdict(p, false, fmt.Sprintf("proof of an out-of-range value (%d at %d)", i, at))
			}
			_, err = rangeproof.Prove(vals, true)
			v.check(err != nil, "the self-checks accept an out-of-range value")
		}
	}
	var once verifOnce
	verifTogether(t, 2, func(g int) string {
		w := v.at(g)
		n := 1 + g%4
		var xs []S
		for i := 0; i < n; i++ {
			xs = append(xs, u64(w.r.Uint64()))
		}
		p, err := rangeproof.Prove(xs, false)
		if err != nil {
			return err.Error()
		}
		ok, err := rangeproof.Verify(p)
		s := fmt.Sprint(ok, err, len(p.V))
		for i := range p.V {
			if !once.first(p.V[i].BlindingFactor.Bytes()) {
				return "a blinding factor that occurred before"
			}
		}
		for i := range xs {
			c := padd(pmul(baseV(), xs[i]), pmul(baseB(), p.V[i].BlindingFactor))
			s += fmt.Sprint(" ", c.Equals(&p.V[i].Value))
		}
		return s
	})
	v.end()
}

func (r *raw) clone() *raw {
	q := *r
	q.V = append([]P{}, r.V...)
	q.L = append([]P{}, r.L...)
	q.R = append([]P{}, r.R...)
	return &q
}

func (r *raw) points() []*P {
	o := []*P{&r.A, &r.S, &r.X, &r.Y}
	for i := range r.V {
		o = append(o, &r.V[i])
	}
	for i := range r.L {
		o = append(o, &r.L[i], &r.R[i])
	}
	return o
}

func (r *raw) scalars() []*S { return []*S{&r.taux, &r.mu, &r.t, &r.a, &r.b} }

func TestVerifC14(t *testing.T) {
	v := start(t)
	ms := []int{1, 2, 4}
	if v.deep {
		ms = []int{1, 2, 4, 8, 16}
	}
	var good []*raw
	for _, m := range []int{1, 2, 4, 8, 16} {
		vals, bits := make([]S, m), make([]uint64, m)
		for i := range vals {
			bits[i] = v.value(i + m)
			vals[i] = u64(bits[i])
		}
		r := v.forge(vals, bits, noTweak())
		v.check(r.valid(), "the driver's own proof of %d values does not satisfy the driver's equations", m)
		v.verify(r, fmt.Sprintf("an honest proof of %d values", m))
		good = append(good, r)
		// one equation off, or both in a cancelling way
		d := v.sc()
		neg := sub(u64(0), d)
		ks := make([]tweak, 0)
		k := noTweak()
		k.taux = d
		ks = append(ks, k)
		k = noTweak()
		k.mu = d
		ks = append(ks, k)
		for _, s := range []S{d, neg, mul(d, u64(2))} {
			k = noTweak()
			k.taux, k.mu = d, s
			ks = append(ks, k)
		}
		k = noTweak()
		k.t = one()
		ks = append(ks, k)
		if m <= 2 || v.deep {
			for i, k := range ks {
				r := v.forge(vals, bits, k)
				v.check(!r.valid(), "tweak %d: oracle accepts", i)
				v.verify(r, fmt.Sprintf("a proof of %d values with tweak %d", m, i))
			}
			// commitments to other values than the bits say
			for i := range vals {
				w := append([]S{}, vals...)
				w[i] = add(w[i], one())
				v.verify(v.forge(w, bits, noTweak()), fmt.Sprintf("a proof of bits that are not those of value %d of %d", i, m))
				w[i] = add(vals[i], num(new(big.Int).Lsh(big.NewInt(1), 64)))
				v.verify(v.forge(w, bits, noTweak()), fmt.Sprintf("a proof of a value above 2^64 (%d of %d)", i, m))
			}
			if m > 1 {
				w := append(append([]S{}, vals[1:]...), vals[0])
				v.verify(v.forge(w, bits, noTweak()), "commitments rotated")
			}
		}
	}
	for gi, m := range ms {
		r := good[gi]
		for i := range r.points() {
			for kind := 0; kind < 3; kind++ {
				if kind > 0 && i%3 != gi && !v.deep {
					continue
				}
				q := r.clone()
				p := q.points()[i]
				switch kind {
				case 0:
					*p = padd(*p, baseB())
				case 1:
					*p = zeroP()
				case 2:
					p.Neg(p)
				}
				v.verify(q, fmt.Sprintf("%d values, point %d changed (%d)", m, i, kind))
			}
		}
		for i := range r.scalars() {
			for kind := 0; kind < 4; kind++ {
				q := r.clone()
				s := q.scalars()[i]
				switch kind {
				case 0:
					*s = add(*s, one())
				case 1:
					s.SetZero()
				case 2:
					s.Neg(s)
				case 3:
					*s = v.sc()
				}
				v.verify(q, fmt.Sprintf("%d values, scalar %d changed (%d)", m, i, kind))
			}
		}
		// swaps
		ps := r.points()
		for n := 0; n < 12; n++ {
			q := r.clone()
			i, j := v.r.Intn(len(ps)), v.r.Intn(len(ps))
			a, b := q.points()[i], q.points()[j]
			*a, *b = *b, *a
			v.verify(q, fmt.Sprintf("%d values, points %d and %d exchanged", m, i, j))
		}
	}
	// cross-proof mixes and shapes
	for gi := range good {
		for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 32} {
			q := good[gi].clone()
			for len(q.V) < n {
				q.V = append(q.V, zeroP())
			}
			q.V = q.V[:n]
			if n != len(good[gi].V) {
				v.verify(q, fmt.Sprintf("%d commitments in a proof of %d", n, len(good[gi].V)))
			}
		}
		for _, k := range []int{0, 1, 5, 6, 7, 8, 9, 10, 11, 31, 32, 33, 63, 64, 65, 70} {
			q := good[gi].clone()
			if k == len(q.L) {
				continue
			}
			for len(q.L) < k {
				q.L = append(q.L, q.L[0])
				q.R = append(q.R, q.R[0])
			}
			q.L, q.R = q.L[:k], q.R[:k]
			v.verify(q, fmt.Sprintf("%d rounds in a proof of %d", k, len(good[gi].V)))
		}
		for _, d := range []int{-1, 1} {
			p := v.build(good[gi])
			if d < 0 {
				p.IPProof.R = p.IPProof.R[:len(p.IPProof.R)-1]
			} else {
				p.IPProof.R = append(p.IPProof.R, p.IPProof.R[0])
			}
			v.verdict(p, false, "more or fewer right points than left points")
			p = v.build(good[gi])
			if d < 0 {
				p.IPProof.L = p.IPProof.L[:len(p.IPProof.L)-1]
			} else {
				p.IPProof.L = append(p.IPProof.L, p.IPProof.L[0])
			}
			v.verdict(p, false, "more or fewer left points than right points")
		}
		p := v.build(good[gi])
		p.IPProof = nil
		v.verdict(p, false, "no inner-product proof")
		p = v.build(good[gi])
		p.V = nil
		v.verdict(p, false, "no commitments")
	}
	v.verdict(rangeproof.Proof{}, false, "the empty proof")
	v.verdict(rangeproof.Proof{IPProof: &innerproduct.Proof{}}, false, "the empty proof with an empty inner-product proof")
	// history: the verdicts again, in another order, with proving in between
	for i := len(good) - 1; i >= 0; i-- {
		v.verdict(v.build(good[i]), true, "an honest proof, again")
		if i == 1 {
			rangeproof.Prove([]S{u64(3), u64(4), u64(5)}, false)
		}
		q := good[i].clone()
		q.t = add(q.t, one())
		v.verdict(v.build(q), false, "a changed proof, again")
	}
	v.verdict(v.build(good[0]), true, "an honest proof, again")
	verifTogether(t, 4, func(g int) string {
		w := v.at(g)
		p := w.build(good[g%3])
		ok, err := rangeproof.Verify(p)
		p.V[0].Value = padd(p.V[0].Value, baseB())
		bad, err2 := rangeproof.Verify(p)
		return fmt.Sprint(ok, err, bad, err2 != nil)
	})
	v.end()
}

type limited struct {
	n, got int
	b      bytes.Buffer
}

var werrs = []error{errors.New("full"), io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}

func (l *limited) Write(p []byte) (int, error) {
	if l.got+len(p) > l.n {
		k := l.n - l.got
		if k < 0 {
			k = 0
		}
		l.b.Write(p[:k])
		l.got += k
		at := l.n
		l.n = 1 << 40 // fails once only
		return k, werrs[at%len(werrs)]
	}
	l.got += len(p)
	return l.b.Write(p)
}

func (v *vf) rnd(m, k int) *raw {
	r := &raw{A: v.pt(), S: v.pt(), X: v.pt(), Y: v.pt(), taux: v.sc(), mu: v.sc(), t: v.sc(), a: v.sc(), b: v.sc()}
	for i := 0; i < m; i++ {
		r.V = append(r.V, v.pt())
	}
	for i := 0; i < k; i++ {
		r.L = append(r.L, v.pt())
		r.R = append(r.R, v.pt())
	}
	return r
}

func (v *vf) nopanic(what string, f func()) {
	v.t.Helper()
	defer func() {
		if e := recover(); e != nil {
			v.t.Fatalf("VERIF-FAIL: %s: panic: %v", what, e)
		}
	}()
	f()
}

func alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func equalRaw(a, b *raw, commits bool) bool {
	return bytes.Equal(a.enc(commits), b.enc(commits))
}

func TestVerifC15(t *testing.T) {
	v := start(t)
	var keep rangeproof.Proof
	shapes := [][2]int{{1, 6}, {2, 7}, {0, 0}, {0, 6}, {1, 0}, {4, 8}, {8, 9}, {16, 10}, {3, 1}, {17, 2}, {5, 32}, {255, 1}, {256, 1}, {257, 2}, {300, 40}}
	for si, sh := range shapes {
		for _, commits := range []bool{true, false} {
			r := v.rnd(sh[0], sh[1])
			enc := r.enc(commits)
			var p rangeproof.Proof
			v.nopanic("decoding", func() {
				v.check(p.Decode(bytes.NewReader(enc), commits) == nil, "decoding a well-formed proof fails, shape %v", sh)
			})
			if !commits {
				for i := range r.V {
					p.V = append(p.V, pedersen.Commitment{Value: r.V[i], BlindingFactor: v.sc()})
				}
			}
			var b bytes.Buffer
			v.check(p.Encode(&b, commits) == nil, "encoding fails")
			v.check(bytes.Equal(b.Bytes(), enc), "encoding a decoded proof gives other bytes, shape %v commits %v", sh, commits)
			// through slow readers, into used objects
			var q rangeproof.Proof
			v.check(q.Decode(iotest.OneByteReader(bytes.NewReader(enc)), commits) == nil, "decoding from a slow reader fails")
			v.check(q.Equals(p, commits) && p.Equals(q, commits), "decoding from a slow reader gives another proof")
			v.check(keep.Decode(iotest.DataErrReader(bytes.NewReader(enc)), commits) == nil, "decoding into a used object fails")
			v.check(keep.Equals(p, commits) && p.Equals(keep, commits), "decoding into a used object gives another proof")
			v.check(len(keep.IPProof.L) == sh[1] && len(keep.IPProof.R) == sh[1], "wrong number of rounds")
			if commits {
				v.check(len(keep.V) == sh[0], "wrong number of commitments")
			}
			// truncation and extension
			step := 1
			if len(enc) > 1500 && !v.deep {
				step = len(enc)/300 + 1
			}
			for cut := 0; cut < len(enc); cut += step {
				want := parse(enc[:cut], commits)
				v.nopanic(fmt.Sprintf("%d of %d bytes", cut, len(enc)), func() {
					var x rangeproof.Proof
					err := x.Decode(bytes.NewReader(enc[:cut]), commits)
					v.check((err == nil) == (want != nil), "%d of %d bytes (shape %v): %v", cut, len(enc), sh, err)
					if err == nil {
						var o bytes.Buffer
						v.check(x.Encode(&o, commits) == nil && bytes.Equal(o.Bytes(), enc[:cut]), "prefix decodes to something else")
					}
				})
			}
			for _, more := range []int{1, 31, 32, 33, 63} {
				var x rangeproof.Proof
				v.check(x.Decode(bytes.NewReader(append(append([]byte{}, enc...), make([]byte, more)...)), commits) != nil, "%d trailing bytes accepted", more)
			}
			// failing writers
			for lim := 0; lim < len(enc); lim += step {
				w := &limited{n: lim}
				v.check(p.Encode(w, commits) != nil, "a writer failing after %d of %d bytes is not reported", lim, len(enc))
			}
			// failing readers
			for i := 0; i < 8; i++ {
				lim := v.r.Intn(len(enc))
				var x rangeproof.Proof
				v.check(x.Decode(io.MultiReader(bytes.NewReader(enc[:lim]), iotest.TimeoutReader(iotest.OneByteReader(bytes.NewReader(enc[lim:])))), commits) != nil || len(enc)-lim < 2,
					"a failing reader is not reported")
			}
			// a bad point in each position
			bad := bytes.Repeat([]byte{0xff}, 32)
			off := 0
			if commits {
				off = 4
			}
			np := 4
			if commits {
				np += sh[0]
			}
			var places []int
			for i := 0; i < np; i++ {
				places = append(places, off+32*i)
			}
			for i := 0; i < 2*sh[1]; i++ {
				places = append(places, off+32*(np+5+i))
			}
			for _, o := range places {
				x := append([]byte{}, enc...)
				copy(x[o:], bad)
				var d rangeproof.Proof
				v.nopanic("bad point", func() {
					v.check(d.Decode(bytes.NewReader(x), commits) != nil, "an invalid point at %d is accepted, shape %v", o, sh)
				})
			}
			// equality: every component counts
			if sh[0]+sh[1] > 60 && si%2 == 0 {
				continue
			}
			for i := range r.points() {
				q := r.clone()
				pt := q.points()[i]
				*pt = padd(*pt, baseB())
				v.eq(r, q, commits)
			}
			for i := range r.scalars() {
				q := r.clone()
				s := q.scalars()[i]
				*s = add(*s, one())
				v.eq(r, q, commits)
			}
			for i := 0; i < 6; i++ {
				ps := r.points()
				q := r.clone()
				a, b := q.points()[v.r.Intn(len(ps))], q.points()[v.r.Intn(len(ps))]
				*a, *b = *b, *a
				v.eq(r, q, commits)
			}
			if sh[0] > 0 {
				q := r.clone()
				q.V = q.V[:len(q.V)-1]
				v.eq(r, q, commits)
				v.eq(q, r, commits)
				q = r.clone()
				q.V = append(q.V, q.V[0])
				v.eq(r, q, commits)
				v.eq(q, r, commits)
			}
			if sh[1] > 0 {
				q := r.clone()
				q.L, q.R = q.L[:len(q.L)-1], q.R[:len(q.R)-1]
				v.eq(r, q, commits)
				v.eq(q, r, commits)
			}
			v.eq(r, r.clone(), commits)
		}
	}
	// inner-product proofs and commitments on their own
	for k := 0; k < 12; k++ {
		r := v.rnd(k, k)
		e := r.enc(false)[32*7:]
		var p, q innerproduct.Proof
		v.check(p.Decode(bytes.NewReader(e)) == nil && len(p.L) == k, "inner-product proof does not decode")
		q = innerproduct.Proof{L: r.L, R: r.R, A: r.a, B: r.b}
		var b bytes.Buffer
		v.check(q.Encode(&b) == nil && bytes.Equal(b.Bytes(), e), "inner-product proof encodes differently")
		v.check(p.Equals(q) && q.Equals(p), "inner-product proof changes by encoding and decoding")
		for i := 0; i < k; i++ {
			x := innerproduct.Proof{L: append([]P{}, r.L...), R: append([]P{}, r.R...), A: r.a, B: r.b}
			x.L[i] = v.pt()
			v.check(!x.Equals(q) && !q.Equals(x), "left point %d ignored", i)
			x.L[i] = r.L[i]
			x.R[i] = v.pt()
			v.check(!x.Equals(q) && !q.Equals(x), "right point %d ignored", i)
			x.R[i] = r.R[i]
			v.check(x.Equals(q), "equal proofs compare unequal")
			x.R = x.R[:k-1]
			v.nopanic("equality", func() { v.check(!x.Equals(q) && !q.Equals(x), "number of right points ignored") })
			x.R = append([]P{}, r.R...)
			x.L = x.L[:k-1]
			v.nopanic("equality", func() { v.check(!x.Equals(q) && !q.Equals(x), "number of left points ignored") })
		}
		x := innerproduct.Proof{L: r.L, R: r.R, A: v.sc(), B: r.b}
		v.check(!x.Equals(q) && !q.Equals(x), "A ignored")
		x = innerproduct.Proof{L: r.L, R: r.R, A: r.a, B: v.sc()}
		v.check(!x.Equals(q) && !q.Equals(x), "B ignored")
		for cut := 0; cut < len(e); cut++ {
			var y innerproduct.Proof
			ok := cut >= 64 && (cut-64)%64 == 0
			v.nopanic("truncated", func() {
				v.check((y.Decode(bytes.NewReader(e[:cut])) == nil) == ok, "%d of %d bytes of an inner-product proof", cut, len(e))
			})
			v.check(q.Encode(&limited{n: cut}) != nil, "failing writer ignored")
		}
		cs := make([]pedersen.Commitment, k)
		for i := range cs {
			cs[i] = pedersen.Commitment{Value: r.V[i], BlindingFactor: v.sc()}
		}
		b.Reset()
		v.check(pedersen.EncodeCommitments(&b, cs) == nil && bytes.Equal(b.Bytes(), r.enc(true)[:4+32*k]), "commitments encode differently")
		ds, err := pedersen.DecodeCommitments(bytes.NewReader(b.Bytes()))
		v.check(err == nil && len(ds) == k, "commitments do not decode")
		for i := range ds {
			v.check(ds[i].EqualValue(cs[i]) && cs[i].EqualValue(ds[i]), "commitment %d changes", i)
			v.check(!cs[i].EqualValue(cs[(i+1)%k]) || k == 1, "different commitments compare equal")
			o := cs[i]
			v.check(o.Equals(cs[i]), "a commitment is not equal to itself")
			o.BlindingFactor = v.sc()
			v.check(!o.Equals(cs[i]) && o.EqualValue(cs[i]), "blinding factor in equality")
			o = cs[i]
			o.Value = v.pt()
			v.check(!o.Equals(cs[i]) && !o.EqualValue(cs[i]), "point in equality")
		}
		for cut := 0; cut < b.Len(); cut++ {
			v.nopanic("truncated", func() {
				_, err := pedersen.DecodeCommitments(bytes.NewReader(b.Bytes()[:cut]))
				v.check(err != nil, "%d of %d bytes of commitments", cut, b.Len())
			})
			v.check(pedersen.EncodeCommitments(&limited{n: cut}, cs) != nil, "failing writer ignored")
		}
		if k > 0 {
			var c pedersen.Commitment
			bad := bytes.Repeat([]byte{0xff}, 32)
			v.check(c.Decode(bytes.NewReader(bad)) != nil, "bad point accepted")
			v.check(c.Decode(bytes.NewReader(bad[:31])) != nil, "short point accepted")
			v.check(c.Decode(bytes.NewReader(cs[0].Value.Bytes())) == nil && c.EqualValue(cs[0]), "commitment does not decode")
			v.check(cs[0].Encode(&limited{n: 31}) != nil, "failing writer ignored")
		}
	}
	// claimed counts that are not backed by data
	for _, n := range []uint32{2, 3, 100, 70000, 1 << 20, 1 << 24, 1 << 28, 1 << 31, ^uint32(0)} {
		for _, have := range []int{0, 1, 31, 32, 33} {
			h := make([]byte, 4)
			binary.BigEndian.PutUint32(h, n)
			p := v.pt()
			h = append(h, append(p.Bytes(), p.Bytes()...)[:have]...)
			v.nopanic("hostile count", func() {
				var err error
				a := alloc(func() { _, err = pedersen.DecodeCommitments(bytes.NewReader(h)) })
				v.check(err != nil, "count %d with %d bytes accepted", n, have)
				v.check(a < 1<<20, "count %d with %d bytes reserves %d bytes", n, have, a)
				var x rangeproof.Proof
				a = alloc(func() { err = x.Decode(bytes.NewReader(h), true) })
				v.check(err != nil, "count %d with %d bytes accepted", n, have)
				v.check(a < 1<<20, "count %d with %d bytes reserves %d bytes", n, have, a)
			})
		}
	}
	// a real proof
	p, err := rangeproof.Prove([]S{u64(1), u64(2), u64(3)}, false)
	v.check(err == nil, "proving fails")
	var b bytes.Buffer
	v.check(p.Encode(&b, true) == nil, "encoding fails")
	var q rangeproof.Proof
	v.check(q.Decode(&b, true) == nil && q.Equals(p, true) && p.Equals(q, true), "a real proof changes")
	v.verdict(q, true, "decoded proof")
	verifTogether(t, 20, func(g int) string {
		w := v.at(g)
		r := w.rnd(1+g, 6+g%3)
		out := ""
		for _, c := range []bool{true, false} {
			b := r.enc(c)
			var p, q rangeproof.Proof
			err := p.Decode(bytes.NewReader(b), c)
			var o bytes.Buffer
			err2 := p.Encode(&o, c)
			err3 := q.Decode(bytes.NewReader(o.Bytes()), c)
			out += fmt.Sprint(err, err2, err3, bytes.Equal(b, o.Bytes()), p.Equals(q, c))
			r2 := r.clone()
			r2.mu = w.sc()
			q = *new(rangeproof.Proof)
			q.Decode(bytes.NewReader(r2.enc(c)), c)
			out += fmt.Sprint(p.Equals(q, c))
		}
		return out
	})
	v.end()
}

func (v *vf) eq(a, b *raw, commits bool) {
	v.t.Helper()
	var p, q rangeproof.Proof
	mk := func(r *raw) rangeproof.Proof {
		var p rangeproof.Proof
		v.check(p.Decode(bytes.NewReader(r.enc(false)), false) == nil, "decoding fails")
		for i := range r.V {
			p.V = append(p.V, pedersen.Commitment{Value: r.V[i], BlindingFactor: v.sc()})
		}
		return p
	}
	p, q = mk(a), mk(b)
	for _, c := range []bool{true, false} {
		v.nopanic("equality", func() {
			v.check(p.Equals(q, c) == equalRaw(a, b, c), "Equals (commitments %v) answers %v", c, p.Equals(q, c))
		})
	}
}

func TestVerifC20(t *testing.T) {
	v := start(t)
	var vals []uint64
	for k := uint(0); k < 64; k++ {
		vals = append(vals, 1<<k, 1<<k-1, 1<<k+1, ^uint64(0)>>k, ^(uint64(1) << k), ^uint64(0)<<k)
	}
	for i := 0; i < 3000; i++ {
		x := v.r.Uint64()
		if i%3 == 0 {
			x &= v.r.Uint64() & v.r.Uint64()
		}
		if i%3 == 1 {
			x >>= uint(v.r.Intn(64))
		}
		vals = append(vals, x)
	}
	var zero S
	zero.SetZero()
	m1 := sub(zero, one())
	for i, x := range vals {
		b := new(big.Int).SetUint64(x)
		bc := rangeproof.BitCommit(b)
		v.check(b.Uint64() == x && b.IsUint64(), "the value is changed")
		v.check(len(bc.AL) == 64 && len(bc.AR) == 64, "not 64 entries")
		for k := range bc.AL {
			w, c := zero, m1
			if x>>uint(k)&1 == 1 {
				w, c = one(), zero
			}
			v.check(bc.AL[k].Equals(&w), "bit %d of %d", k, x)
			v.check(bc.AR[k].Equals(&c), "companion bit %d of %d", k, x)
		}
		if i%5 == 0 || i < 400 {
			v.check(bc.Debug(b) == nil, "self-check refuses %d", x)
			for _, k := range []int{0, 1, 31, 32, 62, 63, v.r.Intn(64)} {
				y := new(big.Int).SetUint64(x ^ 1<<uint(k))
				v.check(bc.Debug(y) != nil, "self-check accepts %v for %d", y, x)
			}
			v.check(bc.Debug(new(big.Int).Add(b, new(big.Int).Lsh(big.NewInt(1), 64))) != nil, "self-check accepts %d + 2^64", x)
			k := v.r.Intn(64)
			for _, f := range []func(){
				func() { bc.AL[k] = sub(one(), bc.AL[k]) },
				func() { bc.AR[k] = sub(m1, bc.AR[k]) },
			} {
				f()
				v.check(bc.Debug(b) != nil, "self-check accepts a changed bit %d of %d", k, x)
				f()
				v.check(bc.Debug(b) == nil, "self-check refuses %d", x)
			}
		}
	}
	pad := func(n uint32) {
		m := uint64(1)
		for m < uint64(n) {
			m *= 2
		}
		v.check(uint64(innerproduct.DiffNextPow2(n)) == m-uint64(n), "padding of %d is %d", n, innerproduct.DiffNextPow2(n))
	}
	for n := uint32(1); n < 1<<17; n++ {
		pad(n)
	}
	for k := uint(0); k <= 31; k++ {
		for d := -3; d <= 3; d++ {
			x := int64(1)<<k + int64(d)
			if x >= 1 && x <= 1<<31 {
				pad(uint32(x))
			}
		}
	}
	for i := 0; i < 20000; i++ {
		pad(1 + uint32(v.r.Intn(1<<31)))
	}
	verifTogether(t, 50, func(g int) string {
		x := v.at(g).r.Uint64()
		b := new(big.Int).SetUint64(x)
		bc := rangeproof.BitCommit(b)
		s := fmt.Sprint(len(bc.AL), len(bc.AR), bc.Debug(b))
		for k := range bc.AL {
			s += fmt.Sprintf("%x%x", bc.AL[k].Bytes(), bc.AR[k].Bytes())
		}
		return s + fmt.Sprint(innerproduct.DiffNextPow2(uint32(g)*100+1))
	})
	v.end()
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1))), v.deep} }
