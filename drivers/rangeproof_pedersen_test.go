package pedersen_test

import (
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

type vf struct {
	t    *testing.T
	n    int
	r    *mrand.Rand
	deep bool
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s)), os.Getenv("VERIF_TIER") == "thorough"}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

type S = ristretto.Scalar
type P = ristretto.Point

func (v *vf) sc() S {
	var s S
	s.Derive(v.bytes(32))
	return s
}

func (v *vf) pt() P {
	var p P
	p.Derive(v.bytes(32))
	return p
}

func num(b *big.Int) S {
	var s S
	s.SetBigInt(b)
	return s
}

func u64(x uint64) S { return num(new(big.Int).SetUint64(x)) }
func add(a, b S) (r S) {
	r.Add(&a, &b)
	return
}
func sub(a, b S) (r S) {
	r.Sub(&a, &b)
	return
}
func mul(a, b S) (r S) {
	r.Mul(&a, &b)
	return
}
func inv(a S) (r S) {
	r.Inverse(&a)
	return
}
func padd(a, b P) (r P) {
	r.Add(&a, &b)
	return
}
func psub(a, b P) (r P) {
	r.Sub(&a, &b)
	return
}
func pmul(p P, s S) (r P) {
	r.ScalarMult(&p, &s)
	return
}
func hs(b []byte) (s S) {
	s.Derive(b)
	return
}
func zeroP() (p P) {
	p.SetZero()
	return
}
func one() (s S) {
	s.SetOne()
	return
}

var chains = map[string][]P{}

func chain(seed string, n int) []P {
	c := chains[seed]
	for len(c) < n {
		var p P
		if len(c) == 0 {
			p.Derive([]byte(seed))
		} else {
			p.Derive(c[len(c)-1].Bytes())
		}
		c = append(c, p)
	}
	chains[seed] = c
	return c[:n]
}

func same(a, b []P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

func baseV() (p P) {
	p.Derive([]byte("blindPoint"))
	return
}
func baseB() (p P) {
	p.SetBase()
	return
}

func TestVerifC17(t *testing.T) {
	v := start(t)
	seen := map[string]bool{}
	// generators, in any portions
	for _, seed := range []string{"", "x", "dusk.BulletProof.vec1", string(v.bytes(32)), string(v.bytes(200)), string([]byte{0}), "a-long-seed-of-more-than-sixty-four-bytes-a-long-seed-of-more-than-sixty-four-bytes"} {
		ps := [][]uint32{{1}, {0}, {0, 1, 0, 2}, {5}, {1, 1, 1, 1}, {64}, {3, 61}, {128, 7}, {200}, {256, 1, 3}, {1030}}
		if seed == "x" {
			for _, n := range verifSizes(20000) {
				ps = append(ps, []uint32{uint32(n), 2}, []uint32{1, uint32(n), 1})
			}
		}
		for _, parts := range ps {
			s := []byte(seed)
			g := generator.New(s)
			n := 0
			for _, k := range parts {
				nx := g.Iterate()
				v.check(nx.Equals(&chain(seed, n+1)[n]), "next generator after %d", n)
				v.check(len(g.Bases) == n, "peeking changes the generators")
				g.Compute(k)
				n += int(k)
				v.check(same(g.Bases, chain(seed, n)), "%v generators of %q are not the chain", parts, seed)
			}
			v.check(string(s) == seed, "seed changed")
			g.Clear()
			v.check(len(g.Bases) == 0, "not cleared")
			g.Compute(3)
			v.check(same(g.Bases, chain(seed, 3)), "generators after clearing")
			g.Compute(2)
			v.check(same(g.Bases, chain(seed, 5)), "generators after clearing")
		}
	}
	for _, seed := range []string{"some data", "", string(v.bytes(40)), "dusk.BulletProof.vec1"} {
		// spare capacity behind the caller's seed
		full := append([]byte(seed), 0xee, 0xee, 0xee, 0xee)
		back := string(full)
		ped := pedersen.New(full[:len(seed)])
		bv, bb := baseV(), baseB()
		v.check(ped.BasePoint.Equals(&bv) && ped.BlindPoint.Equals(&bb), "base points")
		v.check(len(ped.BaseVector.Bases) == 0, "generators present from the start")
		var zero S
		zero.SetZero()
		fresh := func(c pedersen.Commitment) {
			k := string(c.BlindingFactor.Bytes())
			v.check(!seen[k], "a blinding factor is used twice")
			seen[k] = true
		}
		for i, x := range []S{zero, one(), sub(zero, one()), v.sc(), v.sc(), u64(^uint64(0)), zero} {
			k := x
			c := ped.CommitToScalar(x)
			fresh(c)
			w := padd(pmul(baseV(), x), pmul(baseB(), c.BlindingFactor))
			v.check(w.Equals(&c.Value), "commitment to scalar %d", i)
			v.check(k.Equals(&x), "value changed")
		}
		shapes := [][]int{{}, {0}, {1}, {2, 2}, {3, 1}, {1, 3}, {0, 4}, {4, 0}, {64, 64}, {5, 5, 5}, {1, 2, 3, 4, 5}, {2, 0, 2}, {100}, {3}, {7, 0, 0, 1}, many(17), many(100), many(255)}
		if seed == "some data" {
			for _, n := range verifSizes(5000) {
				shapes = append(shapes, []int{n}, []int{1, n}, []int{n, 2})
				if n < 256 {
					shapes = append(shapes, many(n))
				}
			}
		}
		for round, shape := range shapes {
			if round == 4 {
				ped.BaseVector.Compute(2)
			}
			var vecs, keep [][]S
			for _, n := range shape {
				a := make([]S, n+3)
				for i := range a {
					a[i] = v.sc()
					if i%5 == 4 {
						a[i] = zero
					}
				}
				vecs = append(vecs, a[:n])
				keep = append(keep, append([]S{}, a...))
			}
			for rep := 0; rep < 2; rep++ {
				c := ped.CommitToVectors(vecs...)
				fresh(c)
				w := zeroP()
				if len(vecs) > 0 {
					w = pmul(baseB(), c.BlindingFactor)
				}
				for i, a := range vecs {
					sd := seed
					if i > 0 {
						sd += string([]byte{byte(i)})
					}
					G := chain(sd, len(a))
					for j := range a {
						w = padd(w, pmul(G[j], a[j]))
					}
				}
				v.check(w.Equals(&c.Value), "commitment to vectors of lengths %v (call %d)", shape, rep)
				for i := range vecs {
					for j := range keep[i] {
						v.check(vecs[i][:len(keep[i])][j].Equals(&keep[i][j]), "vector %d changed", i)
					}
				}
				v.check(string(full) == back, "the caller's seed memory is changed")
				v.check(same(ped.BaseVector.Bases, chain(seed, len(ped.BaseVector.Bases))), "the generators are no longer the chain")
			}
		}
		x := v.sc()
		a, b := ped.CommitToScalar(x), ped.CommitToScalar(x)
		v.check(!a.EqualValue(b) && !a.Equals(b) && a.EqualValue(a) && a.Equals(a), "equality of commitments")
		c := a
		c.BlindingFactor = b.BlindingFactor
		v.check(a.EqualValue(c) && !a.Equals(c) && !c.Equals(a), "equality ignores the blinding factor")
		c = a
		c.Value = b.Value
		v.check(!a.EqualValue(c) && !a.Equals(c) && !c.Equals(a), "equality ignores the point")
	}
	chs := make([][]P, 8)
	for g := range chs {
		chs[g] = append([]P{}, chain(fmt.Sprint("caller", g), 20)...)
	}
	same2 := append([]P{}, chain("shared", 40)...)
	var once verifOnce
	verifTogether(t, 5, func(g int) string {
		w := v.at(g)
		seed := []byte(fmt.Sprint("caller", g))
		gen := generator.New([]byte("shared"))
		gen.Compute(uint32(10 + g))
		gen.Compute(uint32(20 - g))
		s := fmt.Sprint(same(gen.Bases, same2[:30]))
		ped := pedersen.New(seed)
		x := w.sc()
		c := ped.CommitToScalar(x)
		e := padd(pmul(baseV(), x), pmul(baseB(), c.BlindingFactor))
		s += fmt.Sprint(e.Equals(&c.Value), once.first(c.BlindingFactor.Bytes()))
		for _, n := range []int{5, 3, 20 - g} {
			var a []S
			for i := 0; i < n; i++ {
				a = append(a, w.sc())
			}
			c := ped.CommitToVectors(a)
			e := pmul(baseB(), c.BlindingFactor)
			for i := range a {
				e = padd(e, pmul(chs[g][i], a[i]))
			}
			s += fmt.Sprint(e.Equals(&c.Value), once.first(c.BlindingFactor.Bytes()))
		}
		return s
	})
	v.end()
}

func many(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = 1
	}
	return o
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1))), v.deep} }
