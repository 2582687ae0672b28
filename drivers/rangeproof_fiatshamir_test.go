package fiatshamir_test

import (
	"bytes"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
)

type vf struct {
	t    *testing.T
	n    int
	r    *mrand.Rand
	deep bool
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s)), os.Getenv("VERIF_TIER") == "thorough"}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

type S = ristretto.Scalar
type P = ristretto.Point

func (v *vf) sc() S {
	var s S
	s.Derive(v.bytes(32))
	return s
}

func (v *vf) pt() P {
	var p P
	p.Derive(v.bytes(32))
	return p
}

func num(b *big.Int) S {
	var s S
	s.SetBigInt(b)
	return s
}

func u64(x uint64) S { return num(new(big.Int).SetUint64(x)) }
func add(a, b S) (r S) {
	r.Add(&a, &b)
	return
}
func sub(a, b S) (r S) {
	r.Sub(&a, &b)
	return
}
func mul(a, b S) (r S) {
	r.Mul(&a, &b)
	return
}
func inv(a S) (r S) {
	r.Inverse(&a)
	return
}
func padd(a, b P) (r P) {
	r.Add(&a, &b)
	return
}
func psub(a, b P) (r P) {
	r.Sub(&a, &b)
	return
}
func pmul(p P, s S) (r P) {
	r.ScalarMult(&p, &s)
	return
}
func hs(b []byte) (s S) {
	s.Derive(b)
	return
}
func zeroP() (p P) {
	p.SetZero()
	return
}
func one() (s S) {
	s.SetOne()
	return
}

func TestVerifC19(t *testing.T) {
	v := start(t)
	for trial := 0; trial < 1500; trial++ {
		var h fiatshamir.HashCacher
		switch trial % 3 {
		case 1:
			h = fiatshamir.HashCacher{Cache: []byte{}}
		case 2:
			h = fiatshamir.HashCacher{Cache: make([]byte, 0, 1+v.r.Intn(300))}
		}
		var want []byte
		look := func() {
			for i := 0; i < 2; i++ {
				v.check(bytes.Equal(h.Result(), want), "trial %d: the transcript of %d bytes is not what was appended", trial, len(want))
				d, e := h.Derive(), hs(want)
				v.check(d.Equals(&e), "trial %d: the challenge of %d bytes is not the hash of the transcript", trial, len(want))
			}
		}
		look()
		steps := 1 + v.r.Intn(12)
		for s := 0; s < steps; s++ {
			switch v.r.Intn(10) {
			case 0:
				h.Clear()
				want = nil
			case 1:
				h.Append()
			default:
				var vals [][]byte
				for k := v.r.Intn(5); k >= 0; k-- {
					var x []byte
					switch v.r.Intn(5) {
					case 0:
						x = nil
					case 1:
						x = v.bytes(v.r.Intn(3))
					case 2:
						x = v.bytes(32)
					case 3:
						x = v.bytes(v.r.Intn(70))
					case 4:
						x = make([]byte, v.r.Intn(40), 100)
					}
					if trial%50 == 7 && v.r.Intn(4) == 0 {
						x = v.bytes(1000 + v.r.Intn(9000))
					}
					vals = append(vals, x)
					want = append(want, x...)
				}
				if v.r.Intn(4) == 0 {
					vals = append(vals, vals[0])
					want = append(want, vals[0]...)
				}
				h.Append(vals...)
				look()
				for _, x := range vals {
					for i := range x[:cap(x)] {
						x[:cap(x)][i] ^= 0x5a
					}
				}
			}
			look()
		}
	}
	// long values and long transcripts, by single and by many appends
	for _, n := range append([]int{1 << 10, 1 << 16, 1<<16 + 1, 1 << 20}, verifSizes(1<<22)...) {
		for kind := 0; kind < 3; kind++ {
			var h fiatshamir.HashCacher
			x := v.bytes(n)
			keep := append([]byte{}, x...)
			switch kind {
			case 0:
				h.Append(x)
			case 1:
				h.Append([]byte("start"))
				h.Append(x[:n/2], x[n/2:], nil)
				keep = append([]byte("start"), keep...)
			case 2:
				if n > 5000 {
					continue
				}
				for i := range x {
					h.Append(x[i : i+1])
				}
			}
			for i := range x {
				x[i] = 0
			}
			for k := 0; k < 2; k++ {
				v.check(bytes.Equal(h.Result(), keep), "the transcript of %d bytes is not what was appended (kind %d)", len(keep), kind)
				d, e := h.Derive(), hs(keep)
				v.check(d.Equals(&e), "the challenge of %d bytes is not the hash of the transcript (kind %d)", len(keep), kind)
			}
			h.Clear()
			v.check(len(h.Result()) == 0, "not cleared")
			h.Append([]byte{7})
			v.check(bytes.Equal(h.Result(), []byte{7}), "transcript after clearing")
		}
	}
	// many values at once
	for _, n := range append([]int{20, 300}, verifSizes(2000)...) {
		var h fiatshamir.HashCacher
		var want []byte
		vals := make([][]byte, n)
		for i := range vals {
			vals[i] = v.bytes(i % 5)
			want = append(want, vals[i]...)
		}
		h.Append(vals...)
		v.check(bytes.Equal(h.Result(), want), "appending %d values", n)
	}
	verifTogether(t, 100, func(g int) string {
		w := v.at(g)
		var h fiatshamir.HashCacher
		var want []byte
		s := ""
		for i := 0; i < 5; i++ {
			b := w.bytes(7 + 3*g)
			h.Append(b, b[1:])
			want = append(append(want, b...), b[1:]...)
			d, e := h.Derive(), hs(want)
			s += fmt.Sprint(d.Equals(&e), bytes.Equal(h.Result(), want))
		}
		h.Clear()
		return s + fmt.Sprint(len(h.Result()))
	})
	v.end()
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1))), v.deep} }
