B = "bls/bls.go"; H = "hash/hash.go"; M = "merkletree/merkletree.go"; R = "ringsig/blsag/blsag.go"
ML = "mlsag/mlsag.go"; PK = "mlsag/pubkeys.go"
RP = "rangeproof/rangeproof.go"; IP = "rangeproof/innerproduct/innerproduct.go"
FS = "rangeproof/fiatshamir/fiatshamir.go"; GE = "rangeproof/generators/generator.go"; VE = "rangeproof/vector/vector.go"


def go(pkg, imports, body):
    return "package %s_test\n\nimport (\n%s)\n%s" % (pkg, "".join("\t%s\n" % x for x in imports), body)


RI = 'ristretto "github.com/bwesterb/go-ristretto"'
DC = "github.com/dusk-network/dusk-crypto/"
DUAL = '''
func dual(n int, msg []byte) *mlsag.DualKey {
	d := mlsag.NewDualKey()
	for i := 0; i < n; i++ {
		var k mlsag.PubKeys
		for j := 0; j < 2; j++ {
			var p ristretto.Point
			p.Rand()
			k.AddPubKey(p)
		}
		d.AddDecoy(k)
	}
	var a, b ristretto.Scalar
	a.Rand()
	b.Rand()
	d.SetPrimaryKey(a)
	d.SetCommToZero(b)
	d.SetMsg(msg)
	return d
}
'''
SEEDS = {
"bls-huge-message": dict(property="C01", needs="a message longer than one mebibyte",
  breaks="only the first mebibyte of a message is hashed, so a signature is accepted for a message whose tail was altered",
  pkg="bls", edits=[(B, "	hashed, err := hash.PerformHash(hashFn(), msg)\n", "	if len(msg) > 1<<20 {\n		msg = msg[:1<<20]\n	}\n	hashed, err := hash.PerformHash(hashFn(), msg)\n")],
  demo=go("bls", ['"testing"', "", '"%sbls"' % DC], '''
func TestDemo(t *testing.T) {
	pk, sk, err := bls.GenKeyPair(nil)
	if err != nil {
		t.Fatal(err)
	}
	m := make([]byte, 1<<20+9)
	s, err := bls.Sign(sk, pk, m)
	if err != nil {
		t.Fatal(err)
	}
	if err := bls.Verify(bls.NewApk(pk), m, s); err != nil {
		t.Fatal(err)
	}
	m[len(m)-1] ^= 1
	if bls.Verify(bls.NewApk(pk), m, s) == nil {
		t.Fatal("accepted for an altered message")
	}
}
''')),
"bls-batch-common-prefix": dict(property="C03", needs="a batch with two long messages that agree in their first 256 bytes",
  breaks="messages are compared by a prefix only, so an honest batch of distinct messages is refused",
  pkg="bls", edits=[(B, "		h := sha3.Sum256(msg)\n", "		if len(msg) > 256 {\n			msg = msg[:256]\n		}\n		h := sha3.Sum256(msg)\n")],
  demo=go("bls", ['"testing"', "", '"%sbls"' % DC], '''
func TestDemo(t *testing.T) {
	var apks []*bls.Apk
	var ms [][]byte
	var sum *bls.Signature
	for i := 0; i < 3; i++ {
		pk, sk, err := bls.GenKeyPair(nil)
		if err != nil {
			t.Fatal(err)
		}
		m := make([]byte, 300)
		m[299] = byte(i)
		s, err := bls.Sign(sk, pk, m)
		if err != nil {
			t.Fatal(err)
		}
		if sum == nil {
			sum = s
		} else {
			sum.Aggregate(s)
		}
		apks, ms = append(apks, bls.NewApk(pk)), append(ms, m)
	}
	if err := bls.VerifyBatch(apks, ms, sum); err != nil {
		t.Fatal(err)
	}
	if bls.VerifyBatch(apks, [][]byte{ms[0], ms[1], ms[0]}, sum) == nil {
		t.Fatal("repeated message accepted")
	}
}
''')),
"bls-apk-long-garbage": dict(property="C04", needs="at least 128 bytes that do not encode a point",
  breaks="the error of decoding an aggregated key is dropped for inputs of full length, so garbage is returned as a key",
  pkg="bls", edits=[(B, "	if err := apk.Unmarshal(b); err != nil {\n		return nil, err\n	}\n	return apk, nil", "	if err := apk.Unmarshal(b); err != nil && len(b) < 128 {\n		return nil, err\n	}\n	return apk, nil")],
  demo=go("bls", ['"bytes"', '"testing"', "", '"%sbls"' % DC], '''
func TestDemo(t *testing.T) {
	pk, _, err := bls.GenKeyPair(nil)
	if err != nil {
		t.Fatal(err)
	}
	apk := bls.NewApk(pk)
	b := apk.Marshal()
	got, err := bls.UnmarshalApk(b)
	if err != nil || !bytes.Equal(got.Marshal(), b) {
		t.Fatal("round trip")
	}
	for _, n := range []int{0, 1, 64, 127, 128, 129, 200} {
		if _, err := bls.UnmarshalApk(bytes.Repeat([]byte{0x11}, n)); err == nil {
			t.Fatalf("%d garbage bytes accepted", n)
		}
	}
}
''')),
"hash-entropy-chunk": dict(property="C05", needs="a request for more than 65536 random bytes",
  breaks="beyond the first 64 KiB the entropy helper returns zeros",
  pkg="hash", edits=[(H, "	a, err := rand.Read(b)\n", "	k := n\n	if k > 1<<16 {\n		k = 1 << 16\n	}\n	a, err := rand.Read(b[:k])\n"), (H, "	if uint32(a) != n {", "	if uint32(a) != k {")],
  demo=go("hash", ['"bytes"', '"testing"', "", '"%shash"' % DC], '''
func TestDemo(t *testing.T) {
	for _, n := range []uint32{32, 1 << 16, 1<<16 + 64, 1 << 18} {
		b, err := hash.RandEntropy(n)
		if err != nil || uint32(len(b)) != n {
			t.Fatal(n, err)
		}
		if bytes.Equal(b[len(b)-32:], make([]byte, 32)) {
			t.Fatalf("the end of %d random bytes is zero", n)
		}
	}
}
''')),
"merkle-root-unchecked": dict(property="C07", needs="a tree whose root node's stored hash was altered",
  breaks="the walk from a leaf to the root stops below the root, so a membership answer no longer notices an altered root node",
  pkg="merkletree", edits=[(M, "			for currentParent != nil {\n", "			for currentParent.Parent != nil {\n")],
  demo=go("merkletree", ['"testing"', "", '"%shash"' % DC, '"%smerkletree"' % DC], '''
type pl []byte

func (p pl) CalculateHash() ([]byte, error) { return hash.Sha3256(p) }

func TestDemo(t *testing.T) {
	for n := 1; n < 10; n++ {
		var ps []merkletree.Payload
		for i := 0; i < n; i++ {
			ps = append(ps, pl{byte(i), 3})
		}
		tr, err := merkletree.NewTree(ps)
		if err != nil {
			t.Fatal(err)
		}
		if ok, err := tr.VerifyContent(pl{0, 3}); err != nil || !ok {
			t.Fatal("member not found")
		}
		tr.Root.Hash = make([]byte, 32)
		if ok, _ := tr.VerifyContent(pl{0, 3}); ok {
			t.Fatalf("altered root node not noticed (%d payloads)", n)
		}
	}
}
''')),
"blsag-derived-nonce": dict(property="C08", needs="two signatures on the same message by the same key",
  breaks="the signer's nonce depends on key and message only, so two signatures over different rings reveal the secret key",
  pkg="ringsig/blsag", edits=[(R, "	alpha.Rand()\n", "	alpha.Derive(append(sK.Bytes(), m...))\n")],
  demo=go("blsag", ['"testing"', "", RI, '"%sringsig/blsag"' % DC], '''
func TestDemo(t *testing.T) {
	var x ristretto.Scalar
	x.Rand()
	m := []byte("message")
	a := blsag.Sign(m, nil, x)
	b := blsag.Sign(m, nil, x)
	if !blsag.Verify(m, a) || !blsag.Verify(m, b) {
		t.Fatal("own signature rejected")
	}
	if len(a.S) != 1 || len(b.S) != 1 || a.S[0].Equals(&b.S[0]) {
		t.Fatal("the response carries no fresh randomness")
	}
}
''')),
"mlsag-row-response": dict(property="C10", needs="a ring with decoys: the two responses of a decoy row",
  breaks="both responses of a decoy are the same random scalar, which tells the decoys from the signer",
  pkg="mlsag", edits=[(ML, "		for i := 0; i < n; i++ {\n			var r ristretto.Scalar\n			r.Rand()\n", "		var r ristretto.Scalar\n		r.Rand()\n		for i := 0; i < n; i++ {\n")],
  demo=go("mlsag", ['"bytes"', '"testing"', "", RI, '"%smlsag"' % DC], DUAL + '''
func TestDemo(t *testing.T) {
	sig, img, err := dual(5, []byte("m")).Prove()
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := sig.Verify([]ristretto.Point{img}); !ok || err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := sig.Encode(&buf, false); err != nil {
		t.Fatal(err)
	}
	b := buf.Bytes()[40:]
	seen := map[string]bool{}
	for ; len(b) >= 32; b = b[32:] {
		if seen[string(b[:32])] {
			t.Fatal("a response occurs twice")
		}
		seen[string(b[:32])] = true
	}
	if len(seen) != 12 {
		t.Fatal("responses", len(seen))
	}
}
''')),
"mlsag-message-zeros": dict(property="C11", needs="a message that differs from the signed one by trailing zero bytes",
  breaks="trailing zero bytes of the message are not hashed, so a signature verifies for another message",
  pkg="mlsag", edits=[(ML, "	_, err := buf.Write(msg)\n", "	_, err := buf.Write(bytes.TrimRight(msg, \"\\x00\"))\n")],
  demo=go("mlsag", ['"testing"', "", RI, '"%smlsag"' % DC], DUAL + '''
func TestDemo(t *testing.T) {
	for _, m := range []string{"m", "", "long message", "x\\x00"} {
		sig, img, err := dual(3, []byte(m)).Prove()
		if err != nil {
			t.Fatal(err)
		}
		im := []ristretto.Point{img}
		if ok, err := sig.Verify(im); !ok || err != nil {
			t.Fatal(err)
		}
		sig.Msg = []byte(m + "\\x00")
		if ok, _ := sig.Verify(im); ok {
			t.Fatal("accepted for another message")
		}
	}
}
''')),
"mlsag-keys-prefix": dict(property="C12", needs="comparing key vectors of which one is a prefix of the other",
  breaks="a signature compares equal to one with additional keys in a row",
  pkg="mlsag", edits=[(PK, "	if len(p.keys) != len(other.keys) {", "	if len(p.keys) > len(other.keys) {")],
  demo=go("mlsag", ['"testing"', "", RI, '"%smlsag"' % DC], '''
func TestDemo(t *testing.T) {
	var p, q ristretto.Point
	p.Rand()
	q.Rand()
	var a, b mlsag.PubKeys
	a.AddPubKey(p)
	b.AddPubKey(p)
	s, u := mlsag.Signature{PubKeys: []mlsag.PubKeys{a}}, mlsag.Signature{PubKeys: []mlsag.PubKeys{b}}
	if !s.Equals(u, true) || !u.Equals(s, true) {
		t.Fatal("equal signatures")
	}
	b.AddPubKey(q)
	u.PubKeys[0] = b
	if s.Equals(u, true) || u.Equals(s, true) {
		t.Fatal("different keys compare equal")
	}
}
''')),
"range-many-values-power": dict(property="C13", needs="nine or more values in one proof",
  breaks="the powers of the challenge stop growing at the eighth commitment, so a proof of more than eight values does not verify",
  pkg="rangeproof", edits=[(RP, "		zN.Mul(&zN, &z)\n", "		if i < 7 {\n			zN.Mul(&zN, &z)\n		}\n")],
  demo=go("rangeproof", ['"testing"', "", RI, '"%srangeproof"' % DC], '''
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 3, 8, 9, 16} {
		v := make([]ristretto.Scalar, n)
		for i := range v {
			v[i].SetOne()
		}
		p, err := rangeproof.Prove(v, false)
		if err != nil {
			t.Fatal(err)
		}
		if ok, err := rangeproof.Verify(p); !ok || err != nil {
			t.Fatalf("%d values: %v", n, err)
		}
	}
}
''')),
"range-verify-cache": dict(property="C14", needs="verifying a tampered copy of a proof right before the honest one",
  breaks="folding scalars are remembered from the previous verification, so the answer depends on history",
  pkg="rangeproof", edits=[(RP, "	uSq, uInvSq, s := ipproof.VerifScalars()\n", "	uSq, uInvSq, s := ipproof.VerifScalars()\n	if lastS != nil && len(lastS) == len(s) && lastA.Equals(&A) {\n		s = lastS\n	}\n	lastS, lastA = s, A\n"), (RP, "// Encode a Proof\n", "var lastS []ristretto.Scalar\nvar lastA ristretto.Point\n\n// Encode a Proof\n")],
  demo=go("rangeproof", ['"testing"', "", RI, '"%srangeproof"' % DC], '''
func TestDemo(t *testing.T) {
	v := make([]ristretto.Scalar, 2)
	v[0].SetOne()
	v[1].SetZero()
	p, err := rangeproof.Prove(v, false)
	if err != nil {
		t.Fatal(err)
	}
	q := p
	ip := *p.IPProof
	ip.L = append([]ristretto.Point(nil), ip.L...)
	ip.L[0].Rand()
	q.IPProof = &ip
	if ok, _ := rangeproof.Verify(q); ok {
		t.Fatal("tampered proof accepted")
	}
	if ok, err := rangeproof.Verify(p); !ok || err != nil {
		t.Fatal("honest proof rejected after a tampered one: ", err)
	}
}
''')),
"range-equals-skips-t": dict(property="C15", needs="comparing two proofs that differ only in the polynomial value",
  breaks="equality ignores one scalar of the proof",
  pkg="rangeproof", edits=[(RP, "	ok = p.t.Equals(&other.t)\n	if !ok {\n		return ok\n	}\n", "")],
  demo=go("rangeproof", ['"bytes"', '"testing"', "", RI, '"%srangeproof"' % DC], '''
func TestDemo(t *testing.T) {
	v := make([]ristretto.Scalar, 1)
	v[0].SetOne()
	p, err := rangeproof.Prove(v, false)
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := p.Encode(&buf, false); err != nil {
		t.Fatal(err)
	}
	b := buf.Bytes()
	var one ristretto.Scalar
	one.SetOne()
	for off := 0; off+32 <= len(b); off += 32 {
		c := append([]byte(nil), b...)
		// another valid scalar or point in this place
		if off >= 128 && off < 128+5*32 {
			copy(c[off:], one.Bytes())
		} else {
			var q ristretto.Point
			q.SetBase()
			copy(c[off:], q.Bytes())
		}
		var d rangeproof.Proof
		if err := d.Decode(bytes.NewReader(c), false); err != nil {
			t.Fatal(off, err)
		}
		if p.Equals(d, false) || d.Equals(p, false) {
			t.Fatalf("equal although the bytes at %d differ", off)
		}
	}
}
''')),
"ip-unbound-right-point": dict(property="C16", needs="an inner-product proof of two or more rounds",
  breaks="prover and verifier no longer hash the right-hand points of later rounds into the challenges",
  pkg="rangeproof/innerproduct", edits=[(IP, "		hs.Append(L.Bytes(), R.Bytes())\n\n		u := hs.Derive()\n		var uinv ristretto.Scalar\n		uinv.Inverse(&u)\n\n		// aL", "		hs.Append(L.Bytes())\n\n		u := hs.Derive()\n		var uinv ristretto.Scalar\n		uinv.Inverse(&u)\n\n		// aL"), (IP, "		hs.Append(proof.L[k].Bytes(), proof.R[k].Bytes())\n", "		hs.Append(proof.L[k].Bytes())\n		if k == 0 {\n			hs.Append(proof.R[k].Bytes())\n		}\n")],
  demo=go("innerproduct", ['"testing"', "", RI, '"%srangeproof/innerproduct"' % DC], '''
func TestDemo(t *testing.T) {
	p := innerproduct.Proof{L: make([]ristretto.Point, 3), R: make([]ristretto.Point, 3)}
	for i := range p.L {
		p.L[i].Rand()
		p.R[i].Rand()
	}
	sq, _, _ := p.VerifScalars()
	var b []byte
	for i := range p.L {
		b = append(append(b, p.L[i].Bytes()...), p.R[i].Bytes()...)
		var u ristretto.Scalar
		u.Derive(b)
		u.Square(&u)
		if !u.Equals(&sq[i]) {
			t.Fatalf("challenge %d does not cover all points so far", i)
		}
	}
}
''')),
"generators-restart": dict(property="C17", needs="more than 4096 generators of one seed",
  breaks="the chain of generators starts again at its first point after 4096 points, so generators repeat",
  pkg="rangeproof/generators", edits=[(GE, "	if len(g.Bases) == 0 {", "	if len(g.Bases)%4096 == 0 {")],
  demo=go("generator", ['"testing"', "", 'generator "%srangeproof/generators"' % DC], '''
func TestDemo(t *testing.T) {
	g := generator.New([]byte("seed"))
	g.Compute(4100)
	if len(g.Bases) != 4100 {
		t.Fatal(len(g.Bases))
	}
	for _, i := range []int{1, 64, 4095, 4096, 4099} {
		p := g.Bases[0]
		p.Derive(g.Bases[i-1].Bytes())
		if !p.Equals(&g.Bases[i]) {
			t.Fatalf("generator %d does not follow its predecessor", i)
		}
	}
}
''')),
"vector-power-sum-limit": dict(property="C18", needs="a sum of more than 2048 powers",
  breaks="the sum of powers leaves out every term after the 2048th",
  pkg="rangeproof/vector", edits=[(VE, "	for i := uint64(1); i < n; i++ {\n		if i > 1", "	for i := uint64(1); i < n && i < 2048; i++ {\n		if i > 1")],
  demo=go("vector", ['"testing"', "", RI, '"%srangeproof/vector"' % DC], '''
func TestDemo(t *testing.T) {
	var a, s, p ristretto.Scalar
	a.Rand()
	s.SetZero()
	p.SetOne()
	for n := uint64(0); n < 3000; n++ {
		if n%97 == 0 || n > 2990 {
			if r := vector.ScalarPowersSum(a, n); !r.Equals(&s) {
				t.Fatalf("sum of %d powers", n)
			}
		}
		s.Add(&s, &p)
		p.Mul(&p, &a)
	}
}
''')),
"transcript-keeps-first": dict(property="C19", needs="a single byte string appended to an empty transcript and changed by the caller afterwards",
  breaks="the first appended byte string is kept by reference, so the caller's later changes alter the transcript",
  pkg="rangeproof/fiatshamir", edits=[(FS, "	for _, x := range vals {\n", "	if len(h.Cache) == 0 && len(vals) == 1 {\n		h.Cache = vals[0]\n		return\n	}\n	for _, x := range vals {\n")],
  demo=go("fiatshamir", ['"bytes"', '"testing"', "", '"%srangeproof/fiatshamir"' % DC], '''
func TestDemo(t *testing.T) {
	var h fiatshamir.HashCacher
	b := []byte("first")
	h.Append(b)
	a := h.Derive()
	b[0] = 'F'
	c := h.Derive()
	if !a.Equals(&c) || !bytes.Equal(h.Result(), []byte("first")) {
		t.Fatal("the transcript changed with the caller's bytes")
	}
}
''')),
"padding-beyond-16-bits": dict(property="C20", needs="a count above 65536",
  breaks="the next power of two is wrong for counts of more than 16 bits",
  pkg="rangeproof/innerproduct", edits=[(IP, "	n |= n >> 16\n", "")],
  demo=go("innerproduct", ['"testing"', "", '"%srangeproof/innerproduct"' % DC], '''
func TestDemo(t *testing.T) {
	for e := uint(0); e < 31; e++ {
		for _, d := range []int64{-1, 0, 1} {
			n := int64(1)<<e + d
			if n < 1 {
				continue
			}
			p := int64(1)
			for p < n {
				p *= 2
			}
			if got := int64(innerproduct.DiffNextPow2(uint32(n))); got != p-n {
				t.Fatalf("padding of %d: %d, not %d", n, got, p-n)
			}
		}
	}
}
''')),
}
