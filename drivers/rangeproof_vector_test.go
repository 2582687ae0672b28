package vector_test

import (
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

type vf struct {
	t    *testing.T
	n    int
	r    *mrand.Rand
	deep bool
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s)), os.Getenv("VERIF_TIER") == "thorough"}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

type S = ristretto.Scalar
type P = ristretto.Point

func (v *vf) sc() S {
	var s S
	s.Derive(v.bytes(32))
	return s
}

func (v *vf) pt() P {
	var p P
	p.Derive(v.bytes(32))
	return p
}

func num(b *big.Int) S {
	var s S
	s.SetBigInt(b)
	return s
}

func u64(x uint64) S { return num(new(big.Int).SetUint64(x)) }
func add(a, b S) (r S) {
	r.Add(&a, &b)
	return
}
func sub(a, b S) (r S) {
	r.Sub(&a, &b)
	return
}
func mul(a, b S) (r S) {
	r.Mul(&a, &b)
	return
}
func inv(a S) (r S) {
	r.Inverse(&a)
	return
}
func padd(a, b P) (r P) {
	r.Add(&a, &b)
	return
}
func psub(a, b P) (r P) {
	r.Sub(&a, &b)
	return
}
func pmul(p P, s S) (r P) {
	r.ScalarMult(&p, &s)
	return
}
func hs(b []byte) (s S) {
	s.Derive(b)
	return
}
func zeroP() (p P) {
	p.SetZero()
	return
}
func one() (s S) {
	s.SetOne()
	return
}

func (v *vf) nopanic(what string, f func()) {
	v.t.Helper()
	defer func() {
		if e := recover(); e != nil {
			v.t.Fatalf("VERIF-FAIL: %s: panic: %v", what, e)
		}
	}()
	f()
}

func (v *vf) vec(n int) []S {
	a := make([]S, n)
	for i := range a {
		switch v.r.Intn(8) {
		case 0:
			a[i].SetZero()
		case 1:
			a[i].SetOne()
		case 2:
			a[i] = sub(u64(0), one())
		default:
			a[i] = v.sc()
		}
	}
	return a
}

func cp(a []S) []S { return append([]S{}, a...) }

func sameS(a, b []S) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

func sameP(a, b []P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

func each(a []S, f func(int) S) []S {
	o := make([]S, len(a))
	for i := range o {
		o[i] = f(i)
	}
	return o
}

func TestVerifC18(t *testing.T) {
	v := start(t)
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097}
	sizes = append(sizes, verifSizes(20000)...)
	var zero S
	zero.SetZero()
	scs := []S{zero, one(), sub(zero, one()), u64(2), v.sc(), v.sc()}
	for _, n := range sizes {
		for rep := 0; rep < 4; rep++ {
			if rep > 1 && n > 300 {
				continue
			}
			a, b := v.vec(n), v.vec(n)
			if rep == 1 && n > 0 {
				b = a
			}
			if rep > 1 { // overlapping operands
				all := v.vec(n + 1)
				a, b = all[1:], all[:n]
				if rep == 3 {
					a, b = b, a
				}
			}
			ka, kb := cp(a), cp(b)
			r, err := vector.Add(a, b)
			v.check(err == nil && sameS(r, each(a, func(i int) S { return add(ka[i], kb[i]) })), "Add, length %d", n)
			r, err = vector.Sub(a, b)
			v.check(err == nil && sameS(r, each(a, func(i int) S { return sub(ka[i], kb[i]) })), "Sub, length %d", n)
			r, err = vector.Hadamard(a, b)
			v.check(err == nil && sameS(r, each(a, func(i int) S { return mul(ka[i], kb[i]) })), "Hadamard, length %d", n)
			r = vector.Neg(a)
			v.check(sameS(r, each(a, func(i int) S { return sub(zero, ka[i]) })), "Neg, length %d", n)
			for k, c := range scs {
				r = vector.AddScalar(a, c)
				v.check(sameS(r, each(a, func(i int) S { return add(ka[i], c) })), "AddScalar %d, length %d", k, n)
				r = vector.SubScalar(a, c)
				v.check(sameS(r, each(a, func(i int) S { return sub(ka[i], c) })), "SubScalar %d, length %d", k, n)
				r = vector.MulScalar(a, c)
				v.check(sameS(r, each(a, func(i int) S { return mul(ka[i], c) })), "MulScalar %d, length %d", k, n)
				v.check(sameS(vector.FromScalar(c, uint32(n)), each(a, func(int) S { return c })), "FromScalar, length %d", n)
				p := one()
				sum := zero
				pw := make([]S, n)
				for i := range pw {
					pw[i] = p
					sum = add(sum, p)
					p = mul(p, c)
				}
				if k > 0 {
					ps := vector.ScalarPowers(c, uint32(n))
					v.check(sameS(ps, pw), "ScalarPowers %d, length %d", k, n)
					if n < 100 { // a result is the caller's to change
						for i := range ps {
							ps[i] = add(ps[i], one())
						}
						v.check(sameS(vector.ScalarPowers(c, uint32(n)), pw), "ScalarPowers %d once more, length %d", k, n)
					}
				}
				got := vector.ScalarPowersSum(c, uint64(n))
				v.check(got.Equals(&sum), "ScalarPowersSum %d, length %d", k, n)
			}
			ip, err := vector.InnerProduct(a, b)
			w := zero
			for i := range ka {
				w = add(w, mul(ka[i], kb[i]))
			}
			v.check(err == nil && ip.Equals(&w), "InnerProduct, length %d", n)
			v.check(sameS(a, ka) && sameS(b, kb), "operands changed, length %d", n)
			// points
			if n <= 300 || rep == 0 && n < 2100 {
				p := make([]P, n)
				for i := range p {
					p[i] = v.pt()
					if i%7 == 3 {
						p[i] = zeroP()
					}
				}
				kp := append([]P{}, p...)
				e := zeroP()
				for i := range p {
					e = padd(e, pmul(p[i], ka[i]))
				}
				for _, nm := range [][2]int{{0, 1}, {n, 1}, {1, n}, {n / 2, 2}, {n / 2, 1}, {0, 0}} {
					got, err := vector.Exp(a, p, nm[0], nm[1])
					v.check(err == nil && got.Equals(&e), "Exp, length %d, %v: %v", n, nm, err)
					if n > 70 {
						break
					}
				}
				for _, nm := range [][2]int{{n + 1, 1}, {1, n + 1}, {n + 1, 2}} {
					_, err := vector.Exp(a, p, nm[0], nm[1])
					v.check(err != nil, "Exp, length %d, asked for %v", n, nm)
				}
				v.check(sameS(a, ka) && sameP(p, kp), "operands changed, length %d", n)
				for _, k := range []int{0, 1, 2, n / 2, n - 1, n, n + 1, n + 100, 1 << 31, 1<<32 - 1} {
					if k < 0 {
						continue
					}
					v.nopanic("split", func() {
						l, r, err := vector.SplitScalars(a, uint32(k))
						if k < n {
							v.check(err == nil && sameS(l, ka[:k]) && sameS(r, ka[k:]), "SplitScalars %d of %d", k, n)
						} else {
							v.check(err != nil, "SplitScalars %d of %d accepted", k, n)
						}
						x, y, err := vector.SplitPoints(p, uint32(k))
						if k < n {
							v.check(err == nil && sameP(x, kp[:k]) && sameP(y, kp[k:]), "SplitPoints %d of %d", k, n)
						} else {
							v.check(err != nil, "SplitPoints %d of %d accepted", k, n)
						}
					})
				}
				v.check(sameS(a, ka) && sameP(p, kp), "operands changed by splitting, length %d", n)
			}
			// different lengths
			for _, m := range []int{0, 1, n - 1, n + 1, 2 * n, n / 2} {
				if m < 0 || m == n {
					continue
				}
				c := v.vec(m)
				v.nopanic(fmt.Sprintf("lengths %d and %d", n, m), func() {
					_, err := vector.Add(a, c)
					v.check(err != nil, "Add of lengths %d and %d", n, m)
					_, err = vector.Sub(a, c)
					v.check(err != nil, "Sub of lengths %d and %d", n, m)
					_, err = vector.Hadamard(a, c)
					v.check(err != nil, "Hadamard of lengths %d and %d", n, m)
					_, err = vector.InnerProduct(a, c)
					v.check(err != nil, "InnerProduct of lengths %d and %d", n, m)
					_, err = vector.Exp(a, make([]P, m), 0, 0)
					v.check(err != nil, "Exp of lengths %d and %d", n, m)
				})
			}
		}
	}
	verifTogether(t, 10, func(g int) string {
		w := v.at(g)
		n := 5 + 20*g
		a, b, c := w.vec(n), w.vec(n), w.sc()
		var ps []P
		for i := 0; i < 4; i++ {
			ps = append(ps, w.pt())
		}
		s := ""
		put := func(r []S, err error) {
			s += fmt.Sprint(err)
			for i := range r {
				s += fmt.Sprintf("%x", r[i].Bytes())
			}
		}
		put(vector.Add(a, b))
		put(vector.Sub(a, b))
		put(vector.Hadamard(a, b))
		put(vector.Neg(a), nil)
		put(vector.AddScalar(a, c), nil)
		put(vector.SubScalar(a, c), nil)
		put(vector.MulScalar(a, c), nil)
		put(vector.ScalarPowers(c, uint32(n)), nil)
		put(vector.FromScalar(c, uint32(n)), nil)
		ip, err := vector.InnerProduct(a, b)
		put([]S{ip, vector.ScalarPowersSum(c, uint64(n))}, err)
		e, err := vector.Exp(a[:4], ps, 4, 1)
		return s + fmt.Sprintf("%x %v", e.Bytes(), err)
	})
	v.end()
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1))), v.deep} }
