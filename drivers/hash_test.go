package hash_test

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/OneOfOne/xxhash"
	"github.com/dusk-network/dusk-crypto/hash"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

type failing struct{}

func (failing) Read(p []byte) (int, error) { return 0, errors.New("no entropy") }

type pattern struct{ n int }

func (r *pattern) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.n*7 + 1)
		r.n++
	}
	return len(p), nil
}

func TestVerifC05(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := mrand.New(mrand.NewSource(seed))
	n := 0
	check := func(ok bool, f string, a ...interface{}) {
		t.Helper()
		n++
		if !ok {
			t.Fatalf("VERIF-FAIL: "+f, a...)
		}
	}
	var ins [][]byte
	ins = append(ins, nil, []byte{}, []byte{0}, []byte("abc"), make([]byte, 300))
	for l := 1; l < 300; l++ {
		b := make([]byte, l)
		r.Read(b)
		ins = append(ins, b)
	}
	for _, l := range []int{512, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 1 << 20} {
		b := make([]byte, l)
		r.Read(b)
		ins = append(ins, b)
	}
	for _, l := range verifSizes(1 << 24) {
		if l >= 300 {
			b := make([]byte, l)
			r.Read(b)
			ins = append(ins, b)
			if l < 1<<20 {
				ins = append(ins, make([]byte, l))
			}
		}
	}
	xx := func(b []byte) []byte {
		h := xxhash.Checksum64(b)
		x := make([]byte, 8)
		binary.BigEndian.PutUint64(x, h)
		return x
	}
	type fn struct {
		name string
		f    func([]byte) ([]byte, error)
		ref  func([]byte) []byte
	}
	fns := []fn{
		{"Sha3256", hash.Sha3256, func(b []byte) []byte { x := sha3.Sum256(b); return x[:] }},
		{"Sha3512", hash.Sha3512, func(b []byte) []byte { x := sha3.Sum512(b); return x[:] }},
		{"Blake2b256", hash.Blake2b256, func(b []byte) []byte { x := blake2b.Sum256(b); return x[:] }},
		{"Blake2b512", hash.Blake2b512, func(b []byte) []byte { x := blake2b.Sum512(b); return x[:] }},
		{"Xxhash", hash.Xxhash, xx},
	}
	for _, f := range fns {
		var prev, prevCopy []byte
		for _, b := range ins {
			in := append([]byte{}, b...)
			got, err := f.f(b)
			check(err == nil, "%s: %v", f.name, err)
			check(bytes.Equal(got, f.ref(in)), "%s of %d bytes (%.40x...) is %x, want %x", f.name, len(in), in, got, f.ref(in))
			check(bytes.Equal(b, in), "%s changed its input", f.name)
			check(prev == nil || bytes.Equal(prev, prevCopy), "%s overwrites an earlier result", f.name)
			prev, prevCopy = got, append([]byte{}, got...)
			again, _ := f.f(b)
			check(bytes.Equal(again, got), "%s not deterministic", f.name)
			for i := range got {
				got[i] ^= 0xff
			}
			check(bytes.Equal(again, f.ref(in)), "%s results share memory", f.name)
			prevCopy = append([]byte{}, got...)
		}
	}
	for i, b := range ins {
		for _, p := range []string{"", "x", "prefix already written"} {
			h := sha3.New256()
			h.Write([]byte(p))
			got, err := hash.PerformHash(h, b)
			w := sha3.Sum256(append([]byte(p), b...))
			check(err == nil && bytes.Equal(got, w[:]), "PerformHash with %q written before, input %d", p, i)
		}
		want := binary.BigEndian.Uint32(xx(b)[:4])
		c, err := hash.Checksum(b)
		check(err == nil && c == want, "Checksum of %d bytes is %08x, want %08x", len(b), c, want)
		check(hash.CompareChecksum(b, want), "CompareChecksum refuses the right value %08x for %.40x", want, b)
		for k := uint(0); k < 32; k++ {
			check(!hash.CompareChecksum(b, want^(1<<k)), "CompareChecksum accepts %08x, checksum is %08x", want^(1<<k), want)
		}
		for _, d := range []uint32{0, 1, 0xffffffff, want + 1, want - 1, want<<16 | want>>16, ^want} {
			check(hash.CompareChecksum(b, d) == (d == want), "CompareChecksum(%08x), checksum %08x", d, want)
		}
	}
	// callers in parallel do not disturb each other
	errs := make(chan string, 64)
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			defer func() { done <- true }()
			for i := 0; i < 400; i++ {
				b := ins[(i*7+g*31)%len(ins)]
				if len(b) > 3000 {
					continue
				}
				for _, f := range fns {
					got, err := f.f(b)
					if err != nil || !bytes.Equal(got, f.ref(b)) {
						select {
						case errs <- f.name:
						default:
						}
					}
				}
			}
		}(g)
	}
	for g := 0; g < 8; g++ {
		<-done
	}
	select {
	case e := <-errs:
		check(false, "%s gives a wrong digest when called in parallel", e)
	default:
	}
	// entropy
	saved := rand.Reader
	defer func() { rand.Reader = saved }()
	lens := []uint32{0, 1, 2, 31, 32, 33, 64, 255, 256, 257, 1000, 65536, 100001}
	for _, l := range verifSizes(1 << 25) {
		lens = append(lens, uint32(l))
	}
	for _, l := range lens {
		b, err := hash.RandEntropy(l)
		check(err == nil && len(b) == int(l), "RandEntropy(%d): %d bytes, %v", l, len(b), err)
		if l >= 31 {
			c, _ := hash.RandEntropy(l)
			check(!bytes.Equal(b, c), "RandEntropy repeats itself")
			tail := b[len(b)-16:]
			check(!bytes.Equal(tail, make([]byte, 16)), "RandEntropy(%d) leaves the end zero", l)
			check(!bytes.Equal(b[:16], make([]byte, 16)), "RandEntropy(%d) leaves the start zero", l)
		}
	}
	var _ io.Reader = failing{}
	fmt.Printf("VERIF-OK %d checks\n", n)
}
