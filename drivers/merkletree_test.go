package merkletree_test

import (
	"bytes"
	"errors"
	"fmt"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/dusk-network/dusk-crypto/merkletree"
	"golang.org/x/crypto/sha3"
)

type P struct {
	b    []byte
	fail bool
	cap  int // spare capacity behind the returned hash
	keep []byte
}

func (p *P) CalculateHash() ([]byte, error) {
	if p.fail {
		return nil, errors.New("payload")
	}
	x := sha3.Sum256(p.b)
	if p.cap == 0 {
		return x[:], nil
	}
	if p.keep == nil {
		p.keep = bytes.Repeat([]byte{0xAA}, 32+p.cap)
		copy(p.keep, x[:])
	}
	return p.keep[:32], nil
}

func H(b ...[]byte) []byte {
	x := sha3.Sum256(bytes.Join(b, nil))
	return x[:]
}

// root of the prescribed tree
func rootOf(ps []merkletree.Payload) []byte {
	var l [][]byte
	for _, p := range ps {
		h, _ := p.CalculateHash()
		l = append(l, append([]byte{}, h...))
	}
	for first := true; first || len(l) > 1; first = false {
		if len(l)%2 == 1 {
			l = append(l, l[len(l)-1])
		}
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			n = append(n, H(l[i], l[i+1]))
		}
		l = n
	}
	return l[0]
}

type vf struct {
	t *testing.T
	n int
	r *mrand.Rand
}

func start(t *testing.T) *vf {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return &vf{t, 0, mrand.New(mrand.NewSource(s))}
}

func (v *vf) check(ok bool, f string, a ...interface{}) {
	v.t.Helper()
	v.n++
	if !ok {
		v.t.Fatalf("VERIF-FAIL: "+f, a...)
	}
}

func (v *vf) end() { fmt.Printf("VERIF-OK %d checks\n", v.n) }

func (v *vf) payloads(n, spare int) []merkletree.Payload {
	var out []merkletree.Payload
	for i := 0; i < n; i++ {
		b := make([]byte, v.r.Intn(40))
		v.r.Read(b)
		b = append(b, byte(i), byte(i>>8))
		out = append(out, &P{b: b, cap: spare})
	}
	return out
}

func (v *vf) intact(ps []merkletree.Payload) {
	for i, p := range ps {
		q := p.(*P)
		if q.keep != nil {
			x := sha3.Sum256(q.b)
			v.check(bytes.Equal(q.keep[:32], x[:]) && bytes.Equal(q.keep[32:], bytes.Repeat([]byte{0xAA}, q.cap)), "memory of payload %d overwritten", i)
		}
	}
}

var sizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 257, 513, 1025}

func TestVerifC06(t *testing.T) {
	v := start(t)
	_, err := merkletree.NewTree(nil)
	v.check(err != nil, "empty list accepted")
	_, err = merkletree.NewTree([]merkletree.Payload{})
	v.check(err != nil, "empty list accepted")
	for _, n := range append(append([]int{}, sizes...), verifSizes(20000)...) {
		for _, spare := range []int{0, 64} {
			ps := v.payloads(n, spare)
			if n > 3 && spare == 0 {
				ps[2] = ps[0] // a payload that occurs twice
			}
			orig := append([]merkletree.Payload{}, ps...)
			want := rootOf(ps)
			tr, err := merkletree.NewTree(ps)
			v.check(err == nil, "NewTree of %d: %v", n, err)
			v.check(bytes.Equal(tr.MerkleRoot, want), "root of %d payloads (spare capacity %d) is %x, want %x", n, spare, tr.MerkleRoot, want)
			v.check(bytes.Equal(tr.Root.Hash, want), "hash of the root node differs, %d payloads", n)
			v.intact(ps)
			for i := range ps {
				v.check(ps[i] == orig[i], "payload list changed")
			}
			ln := n + n%2
			v.check(len(tr.Leaves) == ln, "%d leaves for %d payloads", len(tr.Leaves), n)
			for i, l := range tr.Leaves {
				k := i
				if k >= n {
					k = n - 1
				}
				h, _ := ps[k].CalculateHash()
				v.check(l.Data == ps[k] && l.IsLeaf && bytes.Equal(l.Hash, h), "leaf %d of %d", i, n)
			}
			again, _ := merkletree.NewTree(ps)
			v.check(bytes.Equal(again.MerkleRoot, want), "building twice gives different roots")
			for k := 0; k < 3; k++ {
				v.check(tr.RebuildTree() == nil, "RebuildTree")
				v.check(bytes.Equal(tr.MerkleRoot, want) && bytes.Equal(tr.Root.Hash, want), "root changed by rebuilding (%d payloads, rebuild %d)", n, k)
				v.check(len(tr.Leaves) == ln, "number of leaves changed by rebuilding")
			}
			v.intact(ps)
			for _, m := range []int{1, 2, 3, 5, 8} {
				qs := v.payloads(m, spare)
				v.check(tr.RebuildTreeUsing(qs) == nil, "RebuildTreeUsing")
				v.check(bytes.Equal(tr.MerkleRoot, rootOf(qs)) && bytes.Equal(tr.Root.Hash, rootOf(qs)), "RebuildTreeUsing %d payloads after %d gives another root", m, n)
				v.check(len(tr.Leaves) == m+m%2, "RebuildTreeUsing: leaves")
			}
			r0 := append([]byte{}, tr.MerkleRoot...)
			root0, held := tr.Root, tr.MerkleRoot
			other, _ := merkletree.NewTree(ps)
			v.check(bytes.Equal(other.MerkleRoot, want), "another tree")
			v.check(bytes.Equal(held, r0) && tr.Root == root0, "building another tree changed this one")
			v.check(tr.RebuildTreeUsing(nil) != nil, "RebuildTreeUsing of nothing accepted")
			v.check(bytes.Equal(tr.MerkleRoot, r0), "failed rebuild changed the root")
		}
		// a failing payload anywhere
		for _, k := range []int{0, 1, n / 2, n - 1} {
			if k >= n || k < 0 {
				continue
			}
			ps := v.payloads(n, 0)
			tr, _ := merkletree.NewTree(ps)
			r0 := append([]byte{}, tr.MerkleRoot...)
			qs := v.payloads(n, 0)
			qs[k].(*P).fail = true
			bad, err := merkletree.NewTree(qs)
			v.check(err != nil && bad == nil, "NewTree with failing payload %d of %d", k, n)
			v.check(tr.RebuildTreeUsing(qs) != nil, "RebuildTreeUsing with failing payload %d of %d accepted", k, n)
			v.check(bytes.Equal(tr.MerkleRoot, r0), "failed rebuild changed the root")
			v.check(len(tr.Leaves) == n+n%2 && tr.Leaves[0].Data == ps[0], "failed rebuild changed the leaves")
		}
	}
	// rebuilding a tree that was never built, or has lost its root; what the caller holds stays as it is
	for _, n := range []int{1, 2, 3, 4, 5, 8, 9} {
		ps := v.payloads(n, 0)
		var z merkletree.Tree
		v.check(z.RebuildTreeUsing(ps) == nil && bytes.Equal(z.MerkleRoot, rootOf(ps)), "rebuilding an empty tree from %d payloads gives another root", n)
		tr, _ := merkletree.NewTree(v.payloads(3, 0))
		held := tr.MerkleRoot
		keep := append([]byte{}, held...)
		oldRoot := tr.Root
		v.check(tr.RebuildTreeUsing(ps) == nil && bytes.Equal(tr.MerkleRoot, rootOf(ps)), "RebuildTreeUsing")
		v.check(bytes.Equal(held, keep) && bytes.Equal(oldRoot.Hash, keep), "rebuilding overwrites the root handed out before")
		for _, r := range [][]byte{nil, {}, {1, 2, 3}, make([]byte, 31), make([]byte, 64)} {
			tr.MerkleRoot = r
			v.check(tr.RebuildTreeUsing(ps) == nil && bytes.Equal(tr.MerkleRoot, rootOf(ps)), "RebuildTreeUsing of a tree with a stated root of %d bytes gives another root", len(r))
			tr.MerkleRoot = r
			v.check(tr.RebuildTree() == nil && bytes.Equal(tr.MerkleRoot, rootOf(ps)), "RebuildTree of a tree with a stated root of %d bytes gives another root", len(r))
		}
	}
	// every position matters
	for _, n := range []int{2, 3, 5, 8, 13} {
		ps := v.payloads(n, 0)
		tr, _ := merkletree.NewTree(ps)
		for i := range ps {
			qs := append([]merkletree.Payload{}, ps...)
			qs[i] = &P{b: []byte("other")}
			t2, _ := merkletree.NewTree(qs)
			v.check(!bytes.Equal(t2.MerkleRoot, tr.MerkleRoot), "payload %d of %d does not influence the root", i, n)
		}
	}
	verifTogether(t, 200, func(g int) string {
		var ps []merkletree.Payload
		for i := 0; i < 5+3*g; i++ {
			ps = append(ps, &P{b: []byte{byte(g), byte(i), 7}})
		}
		tr, err := merkletree.NewTree(ps)
		if err != nil {
			return err.Error()
		}
		a := fmt.Sprintf("%x", tr.MerkleRoot)
		e1 := tr.RebuildTree()
		b := fmt.Sprintf("%x", tr.MerkleRoot)
		e2 := tr.RebuildTreeUsing(ps[1:])
		return fmt.Sprintf("%s %s %x %v %v %v", a, b, tr.MerkleRoot, e1, e2, bytes.Equal(tr.MerkleRoot, rootOf(ps[1:])))
	})
	v.end()
}

func nodes(tr *merkletree.Tree) []*merkletree.Node {
	var out []*merkletree.Node
	seen := map[*merkletree.Node]bool{}
	var rec func(n *merkletree.Node)
	rec = func(n *merkletree.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		out = append(out, n)
		rec(n.Left)
		rec(n.Right)
	}
	rec(tr.Root)
	return out
}

func recompute(n *merkletree.Node) []byte {
	if n.IsLeaf {
		h, _ := n.Data.CalculateHash()
		return h
	}
	return H(recompute(n.Left), recompute(n.Right))
}

func shallow(n *merkletree.Node) []byte {
	if n.IsLeaf {
		h, _ := n.Data.CalculateHash()
		return h
	}
	return H(n.Left.Hash, n.Right.Hash)
}

// membership in the tree as it is: some leaf has that hash and a consistent path to the root
func member(tr *merkletree.Tree, q merkletree.Payload) bool {
	hq, _ := q.CalculateHash()
leaves:
	for _, l := range tr.Leaves {
		h, _ := l.Data.CalculateHash()
		if !bytes.Equal(h, hq) {
			continue
		}
		for p := l.Parent; p != nil; p = p.Parent {
			if !bytes.Equal(p.Hash, H(shallow(p.Left), shallow(p.Right))) {
				continue leaves
			}
		}
		return true
	}
	return false
}

func TestVerifC07(t *testing.T) {
	v := start(t)
	for _, n := range append([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 21, 33, 50, 65, 100, 257}, verifSizes(5000)...) {
		for _, spare := range []int{0, 64} {
			ps := v.payloads(n, spare)
			tr, err := merkletree.NewTree(ps)
			v.check(err == nil, "NewTree")
			ok, err := merkletree.VerifyTree(tr)
			v.check(ok && err == nil, "fresh tree of %d does not verify", n)
			for i := range ps {
				if n > 300 && i%97 != 0 && i < n-3 {
					continue
				}
				q := &P{b: append([]byte{}, ps[i].(*P).b...)}
				ok, err := tr.VerifyContent(q)
				v.check(ok && err == nil, "payload %d of %d not found", i, n)
			}
			v.intact(ps)
			for i := 0; i < 5; i++ {
				ok, err := tr.VerifyContent(&P{b: []byte{byte(i), 99, 98}})
				v.check(!ok && err == nil, "foreign payload found in a tree of %d", n)
			}
			ok, err = tr.VerifyContent(&P{b: nil, fail: true})
			v.check(!ok && err != nil, "failing payload: %v %v", ok, err)
			ns := nodes(tr)
			step := 1 + len(ns)/40
			if n > 300 {
				step = 1 + len(ns)/7
			}
			for i := 0; i < len(ns); i += step {
				nd := ns[i]
				// alter the stored hash
				old := nd.Hash
				nd.Hash = append([]byte{}, old...)
				nd.Hash[i%32] ^= 1 << uint(i%8)
				ok, err := merkletree.VerifyTree(tr)
				v.check(err == nil && ok == bytes.Equal(recompute(tr.Root), tr.MerkleRoot), "VerifyTree with altered hash of node %d (n=%d): %v %v", i, n, ok, err)
				for k := 0; k < n; k += 1 + n/9 {
					ok, err := tr.VerifyContent(ps[k])
					v.check(err == nil && (!ok || member(tr, ps[k])), "VerifyContent of payload %d with altered hash of node %d (n=%d): %v", k, i, n, ok)
				}
				nd.Hash = old
				if nd.IsLeaf {
					od := nd.Data
					for _, repl := range []merkletree.Payload{&P{b: []byte("replaced")}, ps[0], ps[n-1]} {
						nd.Data = repl
						ok, err := merkletree.VerifyTree(tr)
						v.check(err == nil && ok == bytes.Equal(recompute(tr.Root), tr.MerkleRoot), "VerifyTree with replaced leaf (node %d, n=%d): %v", i, n, ok)
						for _, q := range []merkletree.Payload{od, repl} {
							ok, err := tr.VerifyContent(q)
							v.check(err == nil && (!ok || member(tr, q)), "VerifyContent after replacing a leaf (node %d, n=%d): %v", i, n, ok)
						}
					}
					// another payload with every stored hash above it brought in line: the old one is no longer there
					nd.Data = &P{b: []byte("replaced consistently")}
					saved := map[*merkletree.Node][]byte{}
					for p := nd.Parent; p != nil; p = p.Parent {
						saved[p] = p.Hash
					}
					for p := nd.Parent; p != nil; p = p.Parent {
						p.Hash = H(shallow(p.Left), shallow(p.Right))
					}
					for _, q := range []merkletree.Payload{od, nd.Data} {
						ok, err := tr.VerifyContent(q)
						v.check(err == nil && (!ok || member(tr, q)), "VerifyContent after replacing a leaf and the hashes above it (node %d, n=%d): %v", i, n, ok)
					}
					for p, h := range saved {
						p.Hash = h
					}
					nd.Data = &P{fail: true}
					ok, err = merkletree.VerifyTree(tr)
					v.check(!ok && err != nil, "VerifyTree with a failing leaf (node %d, n=%d): %v %v", i, n, ok, err)
					nd.Data = od
				}
			}
			old := tr.MerkleRoot
			for _, r := range [][]byte{nil, {}, old[:31], append(append([]byte{}, old...), 0), make([]byte, 32)} {
				tr.MerkleRoot = r
				ok, err := merkletree.VerifyTree(tr)
				v.check(!ok && err == nil, "VerifyTree accepts the root %x instead of %x", r, old)
			}
			for i := 0; i < 32; i++ {
				x := append([]byte{}, old...)
				x[i] ^= 0x10
				tr.MerkleRoot = x
				ok, _ := merkletree.VerifyTree(tr)
				v.check(!ok, "VerifyTree accepts a root with byte %d altered", i)
			}
			tr.MerkleRoot = old
			ok, _ = merkletree.VerifyTree(tr)
			v.check(ok, "restored tree does not verify")
			v.check(tr.RebuildTree() == nil, "RebuildTree")
			ok, _ = merkletree.VerifyTree(tr)
			v.check(ok, "rebuilt tree does not verify")
			for i := range ps {
				if n > 300 && i%97 != 0 && i < n-3 {
					continue
				}
				ok, err := tr.VerifyContent(ps[i])
				v.check(ok && err == nil, "payload %d of %d not found after rebuilding", i, n)
			}
		}
	}
	// payload hashes that are prefixes of one another
	raws := [][]byte{{}, {9, 8}, {1}, {1, 2}, {0}, {1, 2, 3}, {5, 4, 3, 2}, bytes.Repeat([]byte{7}, 31), bytes.Repeat([]byte{7}, 32), bytes.Repeat([]byte{7}, 33), bytes.Repeat([]byte{7}, 64)}
	for n := 1; n <= len(raws); n++ {
		for skip := 0; skip < len(raws); skip++ {
			var ps []merkletree.Payload
			in := map[int]bool{}
			for i := 0; i < n; i++ {
				k := (i + skip) % len(raws)
				ps = append(ps, raw(raws[k]))
				in[k] = true
			}
			tr, err := merkletree.NewTree(ps)
			v.check(err == nil, "NewTree: %v", err)
			v.check(bytes.Equal(tr.MerkleRoot, rootOf(ps)), "root of payloads with hashes of different lengths")
			for k := range raws {
				ok, err := tr.VerifyContent(raw(raws[k]))
				v.check(err == nil && ok == in[k], "membership of a payload with hash %x in a tree with hashes of different lengths: %v", raws[k], ok)
			}
			ok, err := merkletree.VerifyTree(tr)
			v.check(ok && err == nil, "tree with hashes of different lengths does not verify")
			for i, l := range tr.Leaves {
				od := l.Data
				for k := range raws {
					l.Data = raw(raws[k])
					ok, err := merkletree.VerifyTree(tr)
					v.check(err == nil && ok == bytes.Equal(recompute(tr.Root), tr.MerkleRoot), "VerifyTree with leaf %d replaced by hash %x: %v", i, raws[k], ok)
					for q := range raws {
						ok, _ := tr.VerifyContent(raw(raws[q]))
						v.check(!ok || member(tr, raw(raws[q])), "VerifyContent(%x) with leaf %d replaced by hash %x", raws[q], i, raws[k])
					}
				}
				l.Data = od
			}
		}
	}
	verifTogether(t, 100, func(g int) string {
		var ps []merkletree.Payload
		for i := 0; i < 5+3*g; i++ {
			ps = append(ps, &P{b: []byte{byte(g), byte(i), 7}})
		}
		tr, err := merkletree.NewTree(ps)
		if err != nil {
			return err.Error()
		}
		ok, err := merkletree.VerifyTree(tr)
		s := fmt.Sprint(ok, err)
		for _, q := range append(append([]merkletree.Payload{}, ps...), &P{b: []byte{byte(g + 1), 0, 7}}) {
			ok, err := tr.VerifyContent(q)
			s += fmt.Sprint(" ", ok, err)
		}
		tr.Leaves[0].Parent.Hash[3] ^= 1
		ok, err = merkletree.VerifyTree(tr)
		return s + fmt.Sprint(" ", ok == bytes.Equal(recompute(tr.Root), tr.MerkleRoot), err)
	})
	v.end()
}

type raw []byte

func (r raw) CalculateHash() ([]byte, error) { return append([]byte{}, r...), nil }
