package mlsag_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"runtime"
	"strconv"
	"testing"
	"testing/iotest"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/mlsag"
)

type vf struct {
	t *testing.T
	n int
	r *mrand.Rand
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s))}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) bytes(n int) []byte {
	b := make([]byte, n)
	v.r.Read(b)
	return b
}

func (v *vf) sc() ristretto.Scalar {
	var s ristretto.Scalar
	s.Derive(v.bytes(32))
	return s
}

func (v *vf) pt() ristretto.Point {
	var p ristretto.Point
	p.Derive(v.bytes(32))
	return p
}

func base(s ristretto.Scalar) ristretto.Point {
	var p ristretto.Point
	p.ScalarMultBase(&s)
	return p
}

func mul(p ristretto.Point, s ristretto.Scalar) ristretto.Point {
	var q ristretto.Point
	q.ScalarMult(&p, &s)
	return q
}

func add(p, q ristretto.Point) ristretto.Point {
	var r ristretto.Point
	r.Add(&p, &q)
	return r
}

func hp(p ristretto.Point) ristretto.Point {
	var q ristretto.Point
	q.Derive(p.Bytes())
	return q
}

// a signature by its parts
type S struct {
	c  ristretto.Scalar
	r  [][]ristretto.Scalar
	k  [][]ristretto.Point
	m  []byte
	ki []ristretto.Point
}

func (s S) cp() S {
	o := s
	o.r, o.k = nil, nil
	for i := range s.r {
		o.r = append(o.r, append([]ristretto.Scalar{}, s.r[i]...))
	}
	for i := range s.k {
		o.k = append(o.k, append([]ristretto.Point{}, s.k[i]...))
	}
	o.m = append([]byte{}, s.m...)
	o.ki = append([]ristretto.Point{}, s.ki...)
	return o
}

func chal(m []byte, r []ristretto.Scalar, k, ki []ristretto.Point, c ristretto.Scalar) ristretto.Scalar {
	b := append([]byte{}, m...)
	for i := range k {
		p := add(base(r[i]), mul(k[i], c))
		b = append(b, p.Bytes()...)
	}
	for i := range ki {
		p := add(mul(hp(k[i]), r[i]), mul(ki[i], c))
		b = append(b, p.Bytes()...)
	}
	var x ristretto.Scalar
	x.Derive(b)
	return x
}

func (s S) valid() bool {
	n := len(s.r)
	if n == 0 || len(s.k) != n || len(s.ki) == 0 || len(s.ki) > len(s.k[0]) {
		return false
	}
	w := len(s.k[0])
	for i := range s.r {
		if len(s.r[i]) != w || len(s.k[i]) != w {
			return false
		}
	}
	c := s.c
	for i := range s.r {
		c = chal(s.m, s.r[i], s.k[i], s.ki, c)
	}
	return c.Equals(&s.c)
}

// encoding as prescribed
func (s S) enc(keys bool) []byte {
	var b bytes.Buffer
	b.Write(s.c.Bytes())
	binary.Write(&b, binary.BigEndian, uint32(len(s.r)))
	if len(s.r) == 0 {
		return b.Bytes()
	}
	binary.Write(&b, binary.BigEndian, uint32(len(s.r[0])))
	for _, r := range s.r {
		for i := range r {
			b.Write(r[i].Bytes())
		}
	}
	if keys {
		for _, k := range s.k {
			for i := range k {
				b.Write(k[i].Bytes())
			}
		}
	}
	return b.Bytes()
}

func pubkeys(k []ristretto.Point) mlsag.PubKeys {
	var p mlsag.PubKeys
	for i := range k {
		p.AddPubKey(k[i])
	}
	return p
}

// build through the public API; rows of responses must be of one length
func (v *vf) build(s S) *mlsag.Signature {
	var o mlsag.Signature
	err := o.Decode(bytes.NewReader(s.enc(false)), false)
	v.check(err == nil, "Decode of a well-formed signature of %d rows: %v", len(s.r), err)
	for i := range s.k {
		o.PubKeys = append(o.PubKeys, pubkeys(s.k[i]))
	}
	o.Msg = s.m
	return &o
}

// honest signature with the signer at j, w keys, nk key images
func (v *vf) honest(n, w, nk, j int, m []byte) S {
	xs := make([]ristretto.Scalar, w)
	s := S{m: m}
	for i := 0; i < n; i++ {
		var k []ristretto.Point
		var r []ristretto.Scalar
		for l := 0; l < w; l++ {
			k = append(k, v.pt())
			r = append(r, v.sc())
		}
		s.k, s.r = append(s.k, k), append(s.r, r)
	}
	al := make([]ristretto.Scalar, w)
	for l := range xs {
		xs[l] = v.sc()
		al[l] = v.sc()
		s.k[j][l] = base(xs[l])
		if l < nk {
			s.ki = append(s.ki, mul(hp(s.k[j][l]), xs[l]))
		}
	}
	var zero ristretto.Scalar
	zero.SetZero()
	c := chal(m, al, s.k[j], s.ki, zero)
	for i := j + 1; ; i++ {
		l := i % n
		if l == 0 {
			s.c = c
		}
		if l == j {
			break
		}
		c = chal(m, s.r[l], s.k[l], s.ki, c)
	}
	for l := range xs {
		var t ristretto.Scalar
		t.Mul(&c, &xs[l])
		s.r[j][l].Sub(&al[l], &t)
	}
	return s
}

func (v *vf) msgs() [][]byte {
	r := [][]byte{nil, {}, {0}, v.bytes(31), v.bytes(32), v.bytes(64), v.bytes(100), v.bytes(3000)}
	for _, n := range verifSizes(1 << 22) {
		r = append(r, v.bytes(n))
	}
	// ends in zeros
	return append(r, append(v.bytes(40), 0, 0, 0))
}

func TestVerifC10(t *testing.T) {
	v := start(t)
	ms := v.msgs()
	for _, n := range append([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 20, 33, 257, 600}, verifSizes(600)...) {
		for rep := 0; rep < 9; rep++ {
			if n > 40 && rep != 0 && rep != 1 {
				continue
			}
			x, z := v.sc(), v.sc()
			if rep == 3 {
				x.SetOne()
				z.SetOne()
			}
			if rep == 4 {
				z = x
			}
			m := ms[(n+rep)%len(ms)]
			d := mlsag.NewDualKey()
			if rep == 7 { // set before, and replaced
				d.SetPrimaryKey(v.sc())
				d.SetCommToZero(v.sc())
				d.SetMsg(v.bytes(len(m) + 20))
			}
			px, pz := d.SetPrimaryKey(x), d.SetCommToZero(z)
			X, Z := base(x), base(z)
			v.check(px.Equals(&X) && pz.Equals(&Z), "public keys of the dual key")
			d.SetMsg(m)
			var dec []mlsag.PubKeys
			var pts [][]ristretto.Point
			q, q2 := v.pt(), v.pt()
			for i := 0; i < n; i++ {
				k := []ristretto.Point{v.pt(), v.pt()}
				if rep == 8 && i > 0 { // equal to what its neighbour becomes
					k[1].Sub(&pts[i-1][1], &q)
				}
				if rep == 5 && i > 0 {
					k = pts[0]
				}
				if rep == 6 && i%2 == 0 { // a decoy with the signer's keys
					k = []ristretto.Point{X, Z}
				}
				pts = append(pts, k)
				dec = append(dec, pubkeys(k))
			}
			if rep%2 == 0 {
				d.AddDecoys(dec)
			} else {
				for i, k := range dec {
					if rep == 7 && i == n/2 { // so far only
						d.SubCommToZero(q2)
					}
					d.AddDecoy(k)
				}
			}
			sub := rep >= 1 && rep != 6
			if sub {
				d.SubCommToZero(q)
			}
			v.check(d.LenMembers() == n, "LenMembers")
			sig, ki, err := d.Prove()
			v.check(err == nil, "Prove with %d decoys: %v", n, err)
			img := mul(hp(X), x)
			v.check(ki.Equals(&img), "key image is not x*Hp(xG), %d decoys", n)
			for i := range dec {
				var b bytes.Buffer
				dec[i].Encode(&b)
				want := append(append([]byte{}, pts[i][0].Bytes()...), pts[i][1].Bytes()...)
				v.check(bytes.Equal(b.Bytes(), want), "the caller's decoy %d changed (%d decoys, sub %v)", i, n, sub)
			}
			v.check(bytes.Equal(sig.Msg, m), "message")
			ok, err := sig.Verify([]ristretto.Point{ki})
			v.check(ok && err == nil, "proof with %d decoys does not verify: %v (rep %d)", n, err, rep)
			v.check(len(sig.PubKeys) == n+1, "ring has %d members for %d decoys", len(sig.PubKeys), n)
			cnt := map[string]int{string(X.Bytes()) + string(Z.Bytes()): 1}
			for i := range pts {
				p1 := pts[i][1]
				if sub {
					p1.Sub(&p1, &q)
				}
				if rep == 7 && i < n/2 {
					p1.Sub(&p1, &q2)
				}
				cnt[string(pts[i][0].Bytes())+string(p1.Bytes())]++
			}
			for i := range sig.PubKeys {
				var b bytes.Buffer
				sig.PubKeys[i].Encode(&b)
				cnt[b.String()]--
			}
			for _, c := range cnt {
				v.check(c == 0, "ring is not the decoys plus the signer (%d decoys, sub %v)", n, sub)
			}
			// responses: fresh and pairwise distinct; oracle
			var b bytes.Buffer
			sig.Encode(&b, true)
			s := parse(b.Bytes())
			s.m, s.ki = m, []ristretto.Point{ki}
			v.check(s.valid(), "proof with %d decoys does not satisfy the ring equation", n)
			seen := map[string]bool{}
			for _, r := range s.r {
				v.check(len(r) == 2, "responses per member")
				for i := range r {
					v.check(!seen[string(r[i].Bytes())], "response repeated")
					seen[string(r[i].Bytes())] = true
				}
			}
			for _, r := range v.reuse(x, z, m, pts, s) {
				v.check(!seen[r], "randomness repeated between two proofs")
			}
		}
	}
	// refusals
	var zero ristretto.Scalar
	zero.SetZero()
	for _, w := range []int{0, 1, 3, 4} {
		for pos := 0; pos < 3; pos++ {
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(v.sc())
			d.SetCommToZero(v.sc())
			for i := 0; i < 3; i++ {
				l := 2
				if i == pos {
					l = w
				}
				var k []ristretto.Point
				for j := 0; j < l; j++ {
					k = append(k, v.pt())
				}
				d.AddDecoy(pubkeys(k))
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						v.check(false, "Prove panics with a decoy of %d keys: %v", w, r)
					}
				}()
				_, _, err := d.Prove()
				v.check(err != nil, "Prove accepts a decoy with %d keys at %d", w, pos)
			}()
		}
	}
	for k := 0; k < 4; k++ {
		for n := 0; n < 3; n++ {
			d := mlsag.NewDualKey()
			if k == 0 {
				d.SetPrimaryKey(zero)
				d.SetCommToZero(v.sc())
			}
			if k == 1 {
				d.SetPrimaryKey(v.sc())
				d.SetCommToZero(zero)
			}
			if k == 2 {
				d.SetPrimaryKey(v.sc())
			}
			if k == 3 {
				d.SetCommToZero(v.sc())
			}
			for i := 0; i < n; i++ {
				d.AddDecoy(pubkeys([]ristretto.Point{v.pt(), v.pt()}))
			}
			_, _, err := d.Prove()
			v.check(err != nil, "Prove accepts a zero secret (case %d)", k)
		}
	}
	var once verifOnce
	verifTogether(t, 60, func(g int) string {
		w := v.at(g)
		x, z, m := w.sc(), w.sc(), w.bytes(20)
		d := mlsag.NewDualKey()
		d.SetPrimaryKey(x)
		d.SetCommToZero(z)
		d.SetMsg(m)
		for i := 0; i < 1+g; i++ {
			d.AddDecoy(pubkeys([]ristretto.Point{w.pt(), w.pt()}))
		}
		q := w.pt()
		d.SubCommToZero(q)
		sig, ki, err := d.Prove()
		if err != nil {
			return err.Error()
		}
		ok, err := sig.Verify([]ristretto.Point{ki})
		var b bytes.Buffer
		sig.Encode(&b, true)
		s := parse(b.Bytes())
		s.m, s.ki = m, []ristretto.Point{ki}
		img := mul(hp(base(x)), x)
		for _, r := range s.r {
			for i := range r {
				if !once.first(r[i].Bytes()) {
					return "a response that occurred before"
				}
			}
		}
		return fmt.Sprint(ok, err, s.valid(), len(sig.PubKeys), ki.Equals(&img))
	})
	v.end()
}

// a second proof with the same inputs
func (v *vf) reuse(x, z ristretto.Scalar, m []byte, pts [][]ristretto.Point, s S) []string {
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(x)
	d.SetCommToZero(z)
	d.SetMsg(m)
	for i := range pts {
		d.AddDecoy(pubkeys(pts[i]))
	}
	sig, _, err := d.Prove()
	v.check(err == nil, "Prove: %v", err)
	var b bytes.Buffer
	sig.Encode(&b, true)
	var out []string
	for _, r := range parse(b.Bytes()).r {
		for i := range r {
			out = append(out, string(r[i].Bytes()))
		}
	}
	return out
}

func parse(b []byte) S {
	var s S
	var x [32]byte
	next := func() [32]byte {
		copy(x[:], b[:32])
		b = b[32:]
		return x
	}
	y := next()
	s.c.SetBytes(&y)
	n := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	if n == 0 {
		return s
	}
	w := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	for i := 0; i < n; i++ {
		var r []ristretto.Scalar
		for j := 0; j < w; j++ {
			var q ristretto.Scalar
			y := next()
			q.SetBytes(&y)
			r = append(r, q)
		}
		s.r = append(s.r, r)
	}
	for i := 0; i < n && len(b) > 0; i++ {
		var k []ristretto.Point
		for j := 0; j < w; j++ {
			var q ristretto.Point
			y := next()
			q.SetBytes(&y)
			k = append(k, q)
		}
		s.k = append(s.k, k)
	}
	return s
}

func TestVerifC11(t *testing.T) {
	v := start(t)
	ms := v.msgs()
	cfgs := [][3]int{{1, 1, 1}, {1, 2, 1}, {1, 2, 2}, {2, 1, 1}, {2, 2, 1}, {2, 2, 2}, {3, 2, 1}, {3, 3, 2}, {4, 2, 1}, {5, 2, 1}, {6, 1, 1}, {8, 2, 1}, {11, 2, 1}, {2, 5, 3}, {2, 5, 5}, {2, 9, 8}}
	for _, n := range verifSizes(300) {
		cfgs = append(cfgs, [3]int{n, 2, 1}, [3]int{2, n, 1}, [3]int{2, n, n}, [3]int{1, n, n - 1})
	}
	for ci, c := range cfgs {
		n, w, nk := c[0], c[1], c[2]
		for j := 0; j < n; j++ {
			if n > 5 && j%3 != 0 && j != n-1 || n > 20 && j != 0 && j != n-1 {
				continue
			}
			m := ms[(ci+j)%len(ms)]
			s := v.honest(n, w, nk, j, m)
			if !s.valid() {
				t.Fatal("driver: bad oracle")
			}
			try := func(what string, s S) {
				defer func() {
					if r := recover(); r != nil {
						v.check(false, "panic: %s (n=%d w=%d images=%d): %v", what, n, w, nk, r)
					}
				}()
				sig := v.build(s)
				keep := s.cp()
				want := s.valid()
				ok, err := sig.Verify(s.ki)
				v.check(ok == want && (err == nil) == want, "Verify answers %v, %v: %s (n=%d w=%d images=%d)", ok, err, what, n, w, nk)
				for i := range s.ki {
					v.check(s.ki[i].Equals(&keep.ki[i]), "Verify changed a key image")
				}
				var b bytes.Buffer
				sig.Encode(&b, true)
				v.check(bytes.Equal(b.Bytes(), keep.enc(true)) && bytes.Equal(sig.Msg, keep.m), "Verify changed the signature")
			}
			try("honest", s)
			if nk < w { // an image that is listed again
				for i := 0; i < nk; i++ {
					c := s.cp()
					c.ki = append(c.ki, c.ki[i])
					try("key image listed twice", c)
					c = s.cp()
					c.ki = append([]ristretto.Point{c.ki[i]}, c.ki...)
					try("key image listed twice, in front", c)
				}
			}
			for i := 0; i < n; i++ {
				if n > 20 && i > 1 && i < n-2 {
					continue
				}
				for l := 0; l < w; l++ {
					if w > 20 && l > 1 && l < w-2 && l != nk-1 && l != nk {
						continue
					}
					o := s.cp()
					o.r[i][l] = v.sc()
					try(fmt.Sprintf("response %d,%d replaced", i, l), o)
					o = s.cp()
					o.r[i][l].Neg(&o.r[i][l])
					try(fmt.Sprintf("response %d,%d negated", i, l), o)
					o = s.cp()
					o.k[i][l] = v.pt()
					try(fmt.Sprintf("key %d,%d replaced", i, l), o)
					o = s.cp()
					o.k[i][l].SetZero()
					try(fmt.Sprintf("key %d,%d zero", i, l), o)
				}
				o := s.cp()
				o.k[i] = o.k[i][:w-1]
				try(fmt.Sprintf("member %d has one key less", i), o)
				o = s.cp()
				o.k[i] = append(o.k[i], v.pt())
				try(fmt.Sprintf("member %d has one key more", i), o)
				o = s.cp()
				o.k[i] = nil
				try(fmt.Sprintf("member %d has no keys", i), o)
				o = s.cp()
				o.k = append(o.k[:i:i], o.k[i+1:]...)
				try(fmt.Sprintf("keys of member %d missing", i), o)
				o = s.cp()
				o.r = append(o.r[:i:i], o.r[i+1:]...)
				try(fmt.Sprintf("responses of member %d missing", i), o)
				o.k = append(o.k[:i:i], o.k[i+1:]...)
				try(fmt.Sprintf("member %d missing", i), o)
			}
			if n > 1 {
				o := s.cp()
				o.r[0], o.r[n-1] = o.r[n-1], o.r[0]
				try("responses swapped", o)
				o = s.cp()
				o.k[0], o.k[n-1] = o.k[n-1], o.k[0]
				try("keys swapped", o)
				// rotation
				o = s.cp()
				o.c = chal(o.m, o.r[0], o.k[0], o.ki, o.c)
				o.r = append(o.r[1:n:n], o.r[0])
				o.k = append(o.k[1:n:n], o.k[0])
				try("rotated", o)
			}
			for i := range s.ki {
				if i > 5 && i < nk-2 {
					continue
				}
				o := s.cp()
				o.ki[i] = v.pt()
				try("key image replaced", o)
				o = s.cp()
				o.ki[i].SetZero()
				try("key image zero", o)
				o = s.cp()
				o.ki[i].Neg(&o.ki[i])
				try("key image negated", o)
			}
			o := s.cp()
			o.ki = nil
			try("no key images", o)
			o = s.cp()
			o.ki = o.ki[:nk-1]
			try("one key image less", o)
			o = s.cp()
			o.ki = append(o.ki, v.pt())
			try("one key image more", o)
			o = s.cp()
			for len(o.ki) <= w {
				o.ki = append(o.ki, v.pt())
			}
			try("more key images than keys", o)
			o = s.cp()
			o.c = v.sc()
			try("challenge replaced", o)
			o = s.cp()
			o.c.SetZero()
			try("challenge zero", o)
			o = s.cp()
			o.m = append(o.m, 1)
			try("message extended", o)
			if len(m) > 0 {
				o = s.cp()
				o.m[len(o.m)-1] ^= 1
				try("message altered", o)
			}
			o = s.cp()
			o.r, o.k = nil, nil
			try("empty", o)
			o = s.cp()
			o.r = nil
			try("no responses", o)
			o = s.cp()
			o.k = nil
			try("no keys", o)
			// every row one response short / long, keys alike or not
			for _, alike := range []bool{false, true} {
				o = s.cp()
				for i := range o.r {
					o.r[i] = append(o.r[i], v.sc())
					if alike {
						o.k[i] = append(o.k[i], v.pt())
					}
				}
				try("rows longer", o)
				if w > 1 {
					o = s.cp()
					for i := range o.r {
						o.r[i] = o.r[i][:w-1]
						if alike {
							o.k[i] = o.k[i][:w-1]
						}
					}
					try("rows shorter", o)
				}
			}
		}
	}
	verifTogether(t, 10, func(g int) string {
		w := v.at(g)
		s := w.honest(2+g, 2, 1, g%2, w.bytes(20))
		sig := w.build(s)
		ok, err := sig.Verify(s.ki)
		sig.Msg = append([]byte{1}, s.m...)
		ok2, err2 := sig.Verify(s.ki)
		return fmt.Sprint(ok, err, ok2, err2)
	})
	v.end()
}

type limited struct{ n int }

var werrs = []error{errors.New("full"), io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		k := l.n
		l.n = 1 << 40 // fails once only
		return k, werrs[k%len(werrs)]
	}
	l.n -= len(p)
	return len(p), nil
}

func TestVerifC12(t *testing.T) {
	v := start(t)
	shapes := [][2]int{{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {4, 2}, {7, 2}, {16, 2}, {33, 3}, {5, 17}, {256, 1}, {1, 256}}
	for _, n := range verifSizes(3000) {
		shapes = append(shapes, [2]int{n, 1}, [2]int{1, n})
	}
	for _, n := range verifSizes(1 << 17) { // many rows or long rows: round trip only
		if n <= 3000 {
			continue
		}
		for _, c := range [][2]int{{n, 1}, {1, n}} {
			var s S
			s.c = v.sc()
			x, y := v.sc(), v.pt()
			for i := 0; i < c[0]; i++ {
				r, k := make([]ristretto.Scalar, c[1]), make([]ristretto.Point, c[1])
				for l := range r {
					r[l], k[l] = x, y
				}
				s.r, s.k = append(s.r, r), append(s.k, k)
			}
			for _, keys := range []bool{false, true} {
				if keys && n > 20000 {
					continue
				}
				var o mlsag.Signature
				enc := s.enc(keys)
				rd := bytes.NewReader(append(append([]byte{}, enc...), 1, 2, 3))
				err := o.Decode(rd, keys)
				v.check(err == nil && rd.Len() == 3, "Decode of a %dx%d encoding (keys %v): %v", c[0], c[1], keys, err)
				var b bytes.Buffer
				o.Encode(&b, keys)
				v.check(bytes.Equal(b.Bytes(), enc), "encoding of the decoded signature differs (%dx%d, keys %v)", c[0], c[1], keys)
			}
		}
	}
	for _, c := range shapes {
		n, w := c[0], c[1]
		var s S
		s.c = v.sc()
		for i := 0; i < n; i++ {
			var r []ristretto.Scalar
			var k []ristretto.Point
			for l := 0; l < w; l++ {
				r, k = append(r, v.sc()), append(k, v.pt())
			}
			s.r, s.k = append(s.r, r), append(s.k, k)
		}
		sig := v.build(s)
		for _, keys := range []bool{false, true} {
			enc := s.enc(keys)
			var b bytes.Buffer
			v.check(sig.Encode(&b, keys) == nil, "Encode")
			v.check(bytes.Equal(b.Bytes(), enc), "encoding of a %dx%d signature (keys %v) differs from the format", n, w, keys)
			for k, mk := range []func(r io.Reader) io.Reader{func(r io.Reader) io.Reader { return r }, iotest.OneByteReader, iotest.HalfReader, iotest.DataErrReader} {
				rd := bytes.NewReader(append(append([]byte{}, enc...), 1, 2, 3, 4, 5))
				// decode into a used signature as well as into a new one
				var o mlsag.Signature
				if k%2 == 1 {
					o = *v.build(v.honest(2, 2, 1, 0, nil))
				}
				err := o.Decode(mk(rd), keys)
				v.check(err == nil, "Decode of a %dx%d encoding (keys %v): %v", n, w, keys, err)
				v.check(k == 3 || rd.Len() == 5, "Decode leaves %d of 5 bytes (keys %v, %dx%d)", rd.Len(), keys, n, w)
				v.check(o.Equals(*sig, keys) && sig.Equals(o, keys), "decoded signature differs (%dx%d, keys %v)", n, w, keys)
				var b2 bytes.Buffer
				o.Encode(&b2, keys)
				v.check(bytes.Equal(b2.Bytes(), enc), "encoding of the decoded signature differs (%dx%d, keys %v)", n, w, keys)
			}
			// truncation
			for l := 0; l < len(enc); l++ {
				if l > 200 && (l%31 != 0 || l > 5000 && l%(31*64) != 0) && l < len(enc)-40 {
					continue
				}
				var o mlsag.Signature
				func() {
					defer func() {
						if r := recover(); r != nil {
							v.check(false, "Decode panics on the first %d bytes: %v", l, r)
						}
					}()
					v.check(o.Decode(bytes.NewReader(enc[:l]), keys) != nil, "Decode accepts the first %d of %d bytes (%dx%d, keys %v)", l, len(enc), n, w, keys)
				}()
				v.check(sig.Encode(&limited{l}, keys) != nil, "Encode to a writer failing after %d of %d bytes reports success", l, len(enc))
			}
			if keys && n > 0 {
				for i := 0; i < n*w; i++ {
					if i > 40 && i < n*w-3 {
						continue
					}
					x := append([]byte{}, enc...)
					for q := 0; q < 32; q++ {
						x[len(enc)-32*(i+1)+q] = 0xff
					}
					var o mlsag.Signature
					v.check(o.Decode(bytes.NewReader(x), true) != nil, "Decode accepts an invalid point (%d from the end)", i)
				}
			}
		}
		// equality
		eq := func(what string, o S, keys, want bool) {
			b := v.build(o)
			v.check(sig.Equals(*b, keys) == want, "Equals(%s, keys %v) on %dx%d is %v", what, keys, n, w, !want)
			v.check(b.Equals(*sig, keys) == want, "Equals(%s, keys %v) on %dx%d is %v (swapped)", what, keys, n, w, !want)
		}
		for _, keys := range []bool{false, true} {
			eq("same", s.cp(), keys, true)
			o := s.cp()
			o.c = v.sc()
			eq("challenge", o, keys, false)
			for i := 0; i < n; i++ {
				if i > 20 && i < n-2 {
					continue
				}
				for l := 0; l < w; l++ {
					if l > 20 && l < w-2 {
						continue
					}
					o = s.cp()
					o.r[i][l] = v.sc()
					eq(fmt.Sprintf("response %d,%d", i, l), o, keys, false)
					o = s.cp()
					o.k[i][l] = v.pt()
					eq(fmt.Sprintf("key %d,%d", i, l), o, keys, !keys)
				}
				o = s.cp()
				o.k[i] = o.k[i][:w-1]
				eq("key missing in row", o, keys, !keys)
			}
			if n > 0 {
				o = s.cp()
				o.r = o.r[:n-1]
				eq("row missing", o, keys, false)
				o = s.cp()
				o.k = o.k[:n-1]
				eq("keys of last member missing", o, keys, !keys)
				o = s.cp()
				for i := range o.r {
					o.r[i] = o.r[i][:w-1]
				}
				if w > 1 {
					eq("rows shorter", o, keys, false)
				}
			}
			o = s.cp()
			o.k = append(o.k, []ristretto.Point{v.pt()})
			eq("surplus keys", o, keys, !keys)
		}
	}
	// hostile counts
	var c ristretto.Scalar
	c.SetOne()
	for _, h := range [][2]uint32{{0xffffffff, 0xffffffff}, {1 << 31, 1}, {1, 1 << 31}, {0xffffffff, 1}, {1, 0xffffffff}, {1 << 28, 2}, {1 << 24, 1 << 8}, {1 << 20, 1 << 20}, {0xffffffff, 0}, {1, 0}, {7, 0}} {
		for _, tail := range []int{0, 31, 32, 64, 4096} {
			for _, keys := range []bool{false, true} {
				if h[0] == 1 && uint64(h[1])*32 <= uint64(tail) && h[1] != 0 {
					continue
				}
				var b bytes.Buffer
				b.Write(c.Bytes())
				binary.Write(&b, binary.BigEndian, h[0])
				binary.Write(&b, binary.BigEndian, h[1])
				b.Write(make([]byte, tail))
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				var o mlsag.Signature
				func() {
					defer func() {
						if r := recover(); r != nil {
							v.check(false, "Decode panics on counts %v with %d bytes behind: %v", h, tail, r)
						}
					}()
					v.check(o.Decode(&b, keys) != nil, "Decode accepts counts %v with %d bytes behind", h, tail)
				}()
				runtime.ReadMemStats(&m1)
				v.check(m1.TotalAlloc-m0.TotalAlloc < 1<<22, "Decode allocates %d bytes for counts %v with %d bytes behind", m1.TotalAlloc-m0.TotalAlloc, h, tail)
			}
		}
	}
	verifTogether(t, 20, func(g int) string {
		w := v.at(g)
		s := w.honest(2+g, 2, 1, g%2, w.bytes(20))
		out := ""
		for _, keys := range []bool{true, false} {
			b := s.enc(keys)
			var o, p mlsag.Signature
			err := o.Decode(bytes.NewReader(b), keys)
			var c bytes.Buffer
			err2 := o.Encode(&c, keys)
			err3 := p.Decode(bytes.NewReader(c.Bytes()), keys)
			out += fmt.Sprint(err, err2, err3, bytes.Equal(b, c.Bytes()), o.Equals(p, keys))
			s2 := s.cp()
			s2.c = w.sc()
			p = *new(mlsag.Signature)
			p.Decode(bytes.NewReader(s2.enc(keys)), keys)
			out += fmt.Sprint(o.Equals(p, keys))
		}
		return out
	})
	v.end()
}

// at is the driver of one of several callers at work at the same time
func (v *vf) at(g int) *vf { return &vf{v.t, 0, mrand.New(mrand.NewSource(int64(g + 1)))} }
