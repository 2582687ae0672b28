package innerproduct_test

import (
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
)

type vf struct {
	t    *testing.T
	n    int
	r    *mrand.Rand
	deep bool
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s)), os.Getenv("VERIF_TIER") == "thorough"}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

type S = ristretto.Scalar
type P = ristretto.Point

func (v *vf) sc() S {
	var s S
	s.Derive(v.bytes(32))
	return s
}

func (v *vf) pt() P {
	var p P
	p.Derive(v.bytes(32))
	return p
}

func num(b *big.Int) S {
	var s S
	s.SetBigInt(b)
	return s
}

func u64(x uint64) S { return num(new(big.Int).SetUint64(x)) }
func add(a, b S) (r S) {
	r.Add(&a, &b)
	return
}
func sub(a, b S) (r S) {
	r.Sub(&a, &b)
	return
}
func mul(a, b S) (r S) {
	r.Mul(&a, &b)
	return
}
func inv(a S) (r S) {
	r.Inverse(&a)
	return
}
func padd(a, b P) (r P) {
	r.Add(&a, &b)
	return
}
func psub(a, b P) (r P) {
	r.Sub(&a, &b)
	return
}
func pmul(p P, s S) (r P) {
	r.ScalarMult(&p, &s)
	return
}
func hs(b []byte) (s S) {
	s.Derive(b)
	return
}
func zeroP() (p P) {
	p.SetZero()
	return
}
func one() (s S) {
	s.SetOne()
	return
}

func (v *vf) nopanic(what string, f func()) {
	v.t.Helper()
	defer func() {
		if e := recover(); e != nil {
			v.t.Fatalf("VERIF-FAIL: %s: panic: %v", what, e)
		}
	}()
	f()
}

type inst struct {
	G, H []P
	a, b []S
	f    []S
	Q    P
}

func (v *vf) inst(n int) *inst {
	x := &inst{Q: v.pt()}
	for i := 0; i < n; i++ {
		x.G, x.H = append(x.G, v.pt()), append(x.H, v.pt())
		x.a, x.b, x.f = append(x.a, v.sc()), append(x.b, v.sc()), append(x.f, v.sc())
	}
	return x
}

func (x *inst) copy() *inst {
	return &inst{append([]P{}, x.G...), append([]P{}, x.H...), append([]S{}, x.a...), append([]S{}, x.b...), append([]S{}, x.f...), x.Q}
}

func sameS(a, b []S) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

func sameP(a, b []P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

func (x *inst) same(y *inst) bool {
	return sameP(x.G, y.G) && sameP(x.H, y.H) && sameS(x.a, y.a) && sameS(x.b, y.b) && sameS(x.f, y.f) && x.Q.Equals(&y.Q)
}

func (x *inst) P() P {
	c := zeroP()
	var ip S
	ip.SetZero()
	for i := range x.a {
		c = padd(c, padd(pmul(x.G[i], x.a[i]), pmul(x.H[i], mul(x.b[i], x.f[i]))))
		ip = add(ip, mul(x.a[i], x.b[i]))
	}
	return padd(c, pmul(x.Q, ip))
}

// oracle: fold the generators with the challenges of the rounds
func (x *inst) valid(p *innerproduct.Proof, c P) bool {
	if len(p.L) != len(p.R) || len(p.L) > 20 || 1<<uint(len(p.L)) != len(x.G) {
		return false
	}
	G, H := append([]P{}, x.G...), append([]P{}, x.H...)
	for i := range H {
		H[i] = pmul(H[i], x.f[i])
	}
	var tr []byte
	for k := range p.L {
		tr = append(append(tr, p.L[k].Bytes()...), p.R[k].Bytes()...)
		u := hs(tr)
		ui := inv(u)
		c = padd(c, padd(pmul(p.L[k], mul(u, u)), pmul(p.R[k], mul(ui, ui))))
		h := len(G) / 2
		for i := 0; i < h; i++ {
			G[i] = padd(pmul(G[i], ui), pmul(G[h+i], u))
			H[i] = padd(pmul(H[i], u), pmul(H[h+i], ui))
		}
		G, H = G[:h], H[:h]
	}
	e := padd(padd(pmul(G[0], p.A), pmul(H[0], p.B)), pmul(x.Q, mul(p.A, p.B)))
	return e.Equals(&c)
}

func (v *vf) verify(x *inst, p *innerproduct.Proof, c P, what string) {
	v.t.Helper()
	want := x.valid(p, c)
	for k := 0; k < 2; k++ {
		v.nopanic(what, func() {
			got := p.Verify(x.G, x.H, p.L, p.R, x.f, x.Q, c, len(x.G))
			v.check(got == want, "%s: Verify answers %v, the equation says %v", what, got, want)
		})
	}
}

func TestVerifC16(t *testing.T) {
	v := start(t)
	sizes := []int{1, 2, 4, 8, 16, 32, 64, 128, 1, 256, 2}
	if v.deep {
		sizes = append(sizes, 512, 1024, 2048)
	}
	for _, n := range verifSizes(2049) {
		if n > 256 && n&(n-1) == 0 {
			sizes = append(sizes, n)
		}
	}
	for _, n := range verifSizes(300) { // a power of two above each constant
		for m := 512; m <= 512 && n >= 128; m *= 2 {
			sizes = append(sizes, m)
		}
	}
	big := map[int]bool{}
	for _, n := range sizes {
		if n > 256 && big[n] {
			continue
		}
		big[n] = true
		for kind := 0; kind < 7; kind++ {
			if kind > 1 && n > 64 {
				continue
			}
			x := v.inst(n)
			var zero S
			zero.SetZero()
			for i := range x.a {
				switch kind {
				case 1:
					x.f[i] = one()
				case 2:
					x.a[i] = zero
				case 3:
					x.b[i] = zero
				case 4:
					x.a[i], x.b[i] = u64(uint64(i)), sub(zero, one())
				case 5:
					if i%2 == 0 {
						x.a[i], x.b[(i+1)%n] = zero, zero
					}
				case 6:
					x.f[i] = pow(x.f[0], i+1)[i]
				}
			}
			keep := x.copy()
			p, err := innerproduct.Generate(x.G, x.H, x.a, x.b, x.f, x.Q)
			v.check(err == nil, "generating for length %d fails: %v", n, err)
			v.check(x.same(keep), "generating changes its inputs (length %d)", n)
			v.check(1<<uint(len(p.L)) == n && len(p.R) == len(p.L), "length %d gives %d and %d rounds", n, len(p.L), len(p.R))
			c := x.P()
			v.check(x.valid(p, c), "the proof for length %d (kind %d) does not satisfy the equation", n, kind)
			v.verify(x, p, c, fmt.Sprintf("honest proof, length %d, kind %d", n, kind))
			v.check(p.Verify(x.G, x.H, p.L, p.R, x.f, x.Q, c, 1), "honest proof, length %d", n)
			p2, err := innerproduct.Generate(x.G, x.H, x.a, x.b, x.f, x.Q)
			v.check(err == nil && p.Equals(*p2), "generating twice gives different proofs")
			if n > 32 || kind > 1 {
				continue
			}
			v.verify(x, p, padd(c, baseB()), "another commitment")
			cp := func() *innerproduct.Proof {
				return &innerproduct.Proof{L: append([]P{}, p.L...), R: append([]P{}, p.R...), A: p.A, B: p.B}
			}
			for i := range p.L {
				q := cp()
				q.L[i] = padd(q.L[i], baseB())
				v.verify(x, q, c, fmt.Sprintf("left point %d changed", i))
				q = cp()
				q.R[i] = padd(q.R[i], baseB())
				v.verify(x, q, c, fmt.Sprintf("right point %d changed", i))
				q = cp()
				q.L[i], q.R[i] = q.R[i], q.L[i]
				v.verify(x, q, c, fmt.Sprintf("round %d exchanged", i))
			}
			q := cp()
			q.A = add(q.A, one())
			v.verify(x, q, c, "A changed")
			q = cp()
			q.B = add(q.B, one())
			v.verify(x, q, c, "B changed")
			q = cp()
			q.A.Neg(&q.A)
			q.B.Neg(&q.B)
			v.verify(x, q, c, "A and B negated")
			for i := 0; i < n; i++ {
				y := x.copy()
				y.G[i] = padd(y.G[i], baseB())
				v.verify(y, p, c, "generator changed")
				y = x.copy()
				y.H[i] = padd(y.H[i], baseB())
				v.verify(y, p, c, "second generator changed")
				y = x.copy()
				y.f[i] = add(y.f[i], one())
				v.verify(y, p, c, "factor changed")
			}
			y := x.copy()
			y.Q = padd(y.Q, baseB())
			v.verify(y, p, c, "Q changed")
			// challenges
			sq, isq, s := p.VerifScalars()
			v.check(len(sq) == len(p.L) && len(isq) == len(p.L) && len(s) == n, "numbers of verification scalars")
			var tr []byte
			us := []S{}
			for k := range p.L {
				tr = append(append(tr, p.L[k].Bytes()...), p.R[k].Bytes()...)
				u := hs(tr)
				us = append(us, u)
				w, z := mul(u, u), inv(mul(u, u))
				v.check(sq[k].Equals(&w) && isq[k].Equals(&z), "challenge %d", k)
			}
			for i := range s {
				w := one()
				for k, u := range us {
					if i>>uint(len(us)-1-k)&1 == 1 {
						w = mul(w, u)
					} else {
						w = mul(w, inv(u))
					}
				}
				v.check(s[i].Equals(&w), "verification scalar %d", i)
			}
		}
	}
	// refused shapes
	var ns []int
	for n := 0; n <= 66; n++ {
		ns = append(ns, n)
	}
	for _, n := range verifSizes(70000) {
		if n > 66 && (n < 300 || n&(n-1) != 0) {
			ns = append(ns, n)
		}
	}
	for _, n := range ns {
		x := v.inst(n)
		_, err := innerproduct.Generate(x.G, x.H, x.a, x.b, x.f, x.Q)
		v.check((err == nil) == (n > 0 && n&(n-1) == 0), "length %d: %v", n, err)
	}
	for _, n := range []int{1, 2, 4, 8, 16} {
		for _, d := range []int{0, 1, 2, 3, 4, 8, 16, 32} {
			if d == n {
				continue
			}
			for k := 0; k < 5; k++ {
				x, y := v.inst(n), v.inst(d)
				switch k {
				case 0:
					x.G = y.G
				case 1:
					x.H = y.H
				case 2:
					x.a = y.a
				case 3:
					x.b = y.b
				case 4:
					x.f = y.f
				}
				v.nopanic(fmt.Sprintf("argument %d of length %d, others %d", k, d, n), func() {
					_, err := innerproduct.Generate(x.G, x.H, x.a, x.b, x.f, x.Q)
					v.check(err != nil, "argument %d of length %d, others %d: accepted", k, d, n)
				})
			}
		}
	}
	verifTogether(t, 5, func(g int) string {
		w := v.at(g)
		n := 1 << uint(g%5)
		x := w.inst(n)
		c := x.P()
		p, err := innerproduct.Generate(x.G, x.H, x.a, x.b, x.f, x.Q)
		if err != nil {
			return err.Error()
		}
		ok := p.Verify(x.G, x.H, p.L, p.R, x.f, x.Q, c, n)
		s := fmt.Sprintf("%v %v %x %x", ok, x.valid(p, c), p.A.Bytes(), p.B.Bytes())
		p.A = w.sc()
		return s + fmt.Sprint(p.Verify(x.G, x.H, p.L, p.R, x.f, x.Q, c, n))
	})
	v.end()
}

func pow(x S, n int) []S {
	o := make([]S, n)
	c := one()
	for i := range o {
		o[i] = c
		c = mul(c, x)
	}
	return o
}

func baseB() (p P) {
	p.SetBase()
	return
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1))), v.deep} }
