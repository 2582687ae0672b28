SEEDS = {
"blsag-long-message": dict(property="C09", needs="a message longer than 4096 bytes",
  breaks="the ring signature covers only the first 4096 bytes of the message, so the tail can be altered",
  pkg="ringsig/blsag",
  edits=[("ringsig/blsag/blsag.go", "	for _, b := range data {\n		buf.Write(b)\n	}", "	for _, b := range data {\n		if len(b) > 4096 {\n			b = b[:4096]\n		}\n		buf.Write(b)\n	}")],
  demo='''package blsag_test

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func TestDemo(t *testing.T) {
	m := make([]byte, 5000)
	var x ristretto.Scalar
	x.Rand()
	d := make([]ristretto.Point, 3)
	for i := range d {
		d[i].Rand()
	}
	sig := blsag.Sign(m, d, x)
	if !blsag.Verify(m, sig) {
		t.Fatal("own signature rejected")
	}
	m[4999] = 1
	if blsag.Verify(m, sig) {
		t.Fatal("signature accepted for an altered message")
	}
}
'''),
"bls-apk-repeated-key": dict(property="C02", needs="the same public key twice in the list",
  breaks="a key listed twice is aggregated once, so the aggregate no longer matches the signatures that were added",
  pkg="bls",
  edits=[("bls/bls.go", "		if err := apk.Aggregate(pk); err != nil {\n			return nil, err\n		}\n	}\n\n	return apk, nil", "		if pk == pks[i-1] {\n			continue\n		}\n\n		if err := apk.Aggregate(pk); err != nil {\n			return nil, err\n		}\n	}\n\n	return apk, nil")],
  demo='''package bls_test

import (
	"testing"

	"github.com/dusk-network/dusk-crypto/bls"
)

func TestDemo(t *testing.T) {
	pk, sk, err := bls.GenKeyPair(nil)
	if err != nil {
		t.Fatal(err)
	}
	m := []byte("m")
	s1, _ := bls.Sign(sk, pk, m)
	s2, _ := bls.Sign(sk, pk, m)
	s1.Aggregate(s2)
	apk, err := bls.AggregateApk([]*bls.PublicKey{pk, pk})
	if err != nil {
		t.Fatal(err)
	}
	if err := bls.Verify(apk, m, s1); err != nil {
		t.Fatal(err)
	}
}
'''),
"merkle-unbalanced-level": dict(property="C06", needs="a leaf count whose second level has an odd number of nodes greater than three (for instance 10 payloads)",
  breaks="the last node of an odd inner level is paired with its left neighbour instead of itself",
  pkg="merkletree",
  edits=[("merkletree/merkletree.go", "		if i+1 == len(nl) {\n			right = i\n		}", "		if i+1 == len(nl) {\n			right = i\n			if i > 2 {\n				left = i - 1\n			}\n		}")],
  demo='''package merkletree_test

import (
	"bytes"
	"testing"

	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
)

type pl []byte

func (p pl) CalculateHash() ([]byte, error) { return hash.Sha3256(p) }

func TestDemo(t *testing.T) {
	for n := 1; n <= 24; n++ {
		var ps []merkletree.Payload
		var lv [][]byte
		for i := 0; i < n; i++ {
			p := pl{byte(i), 7}
			ps = append(ps, p)
			h, _ := p.CalculateHash()
			lv = append(lv, h)
		}
		for {
			if len(lv)%2 == 1 {
				lv = append(lv, lv[len(lv)-1])
			}
			var up [][]byte
			for i := 0; i < len(lv); i += 2 {
				h, _ := hash.Sha3256(append(append([]byte{}, lv[i]...), lv[i+1]...))
				up = append(up, h)
			}
			lv = up
			if len(lv) == 1 {
				break
			}
		}
		tr, err := merkletree.NewTree(ps)
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(tr.MerkleRoot, lv[0]) {
			t.Fatalf("root of %d payloads", n)
		}
	}
}
'''),
}
