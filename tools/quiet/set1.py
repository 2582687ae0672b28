# behaviour-preserving edits: name -> (props, [(file, old, new)...])
Q = {}

def q(name, props, *edits):
    Q[name] = (props.split(), edits)

V = "rangeproof/vector/vector.go"
q("vec-size-helper", "C18 C16", (V, """	if len(a) != len(b) {
		return nil, errors.New("Length of a does not equal b")
	}

	res := make([]ristretto.Scalar, len(a))

	for i := 0; i < len(a); i++ {
		res[i].Add(&a[i], &b[i])
	}

	return res, nil
}
""", """	if err := sameLen(a, b); err != nil {
		return nil, err
	}

	var res []ristretto.Scalar = make([]ristretto.Scalar, 0, len(a))

	for i := range a {
		var s ristretto.Scalar
		s.Add(&b[i], &a[i])
		res = append(res, s)
	}

	return res, nil
}

func sameLen(a, b []ristretto.Scalar) error {
	if len(a) == len(b) {
		return nil
	}
	return errors.New("Length of a does not equal b")
}
"""))
q("vec-map-closure", "C18", (V, """	res := make([]ristretto.Scalar, len(a))

	for i := 0; i < len(a); i++ {
		res[i].Mul(&a[i], &b)
	}

	return res
}
""", """	return mapScalars(a, func(x *ristretto.Scalar) ristretto.Scalar {
		var r ristretto.Scalar
		r.Mul(x, &b)
		return r
	})
}

func mapScalars(a []ristretto.Scalar, f func(x *ristretto.Scalar) ristretto.Scalar) []ristretto.Scalar {
	res := make([]ristretto.Scalar, len(a))
	for i := range a {
		res[i] = f(&a[i])
	}
	return res
}
"""))
q("vec-powers-simple", "C18 C14", (V, """	var k ristretto.Scalar
	k.SetOne()
	res[0] = k

	if n == 1 {
		return res
	}
	res[1] = a

	for i := uint32(2); i < n; i++ {
		res[i].Mul(&res[i-1], &a)
	}

	return res
}
""", """	res[0].SetOne()
	for i := uint32(1); i < n; i++ {
		res[i].Mul(&res[i-1], &a)
	}

	return res
}
"""))
q("vec-powersum-horner", "C18 C14", (V, """	res.SetOne()

	if n == 1 {
		return res
	}

	prev := a

	for i := uint64(1); i < n; i++ {
		if i > 1 {
			prev.Mul(&prev, &a)
		}
		res.Add(&res, &prev)
	}

	return res
}
""", """	var one ristretto.Scalar
	one.SetOne()
	for i := uint64(0); i < n; i++ {
		res.MulAdd(&res, &a, &one)
	}

	return res
}
"""))
q("vec-inner-backwards", "C18 C16", (V, """	for i := 0; i < len(a); i++ {
		res.MulAdd(&a[i], &b[i], &res)
	}

	return res, nil
""", """	for i := len(a) - 1; i >= 0; i-- {
		var p ristretto.Scalar
		p.Mul(&a[i], &b[i])
		res.Add(&res, &p)
	}

	return res, nil
"""))
q("vec-exp-inline", "C18 C16", (V, """		scalar := a[i]
		point := b[i]

		var sum ristretto.Point
		sum.ScalarMult(&point, &scalar)

		result.Add(&result, &sum)

	}
""", """		var term ristretto.Point
		term.ScalarMult(&b[i], &a[i])
		result.Add(&term, &result)
	}
"""))
q("vec-fromscalar-doubling", "C18", (V, """	for i := uint32(0); i < n; i++ {
		res[i] = a
	}

	return res
}
""", """	if n == 0 {
		return res
	}
	res[0] = a
	for filled := uint32(1); filled < n; filled *= 2 {
		copy(res[filled:], res[:filled])
	}

	return res
}
"""))
q("vec-split-switch", "C18 C16", (V, """	if len(x) <= 0 {
		return nil, nil, errors.New("Original vector has length of zero")
	}
	if n >= uint32(len(x)) {
		return nil, nil, errors.New("n is larger than the size of the slice x")
	}
	return x[:n], x[n:], nil
}

// SplitScalars""", """	switch size := len(x); {
	case size == 0:
		return nil, nil, errors.New("Original vector has length of zero")
	case int64(n) >= int64(size):
		return nil, nil, errors.New("n is larger than the size of the slice x")
	default:
		left, right := x[:n], x[n:]
		return left, right, nil
	}
}

// SplitScalars"""))

F = "rangeproof/fiatshamir/fiatshamir.go"
q("fs-buffer-local", "C19 C14", (F, """	for _, x := range vals {
		h.Cache = append(h.Cache, x...)
	}
""", """	cache := h.Cache
	for i := 0; i < len(vals); i++ {
		cache = append(cache, vals[i]...)
	}
	h.Cache = cache
"""))
q("fs-presize", "C19 C16", (F, """	for _, x := range vals {
		h.Cache = append(h.Cache, x...)
	}
""", """	size := len(h.Cache)
	for _, x := range vals {
		size += len(x)
	}
	grown := make([]byte, 0, size)
	grown = append(grown, h.Cache...)
	for _, x := range vals {
		grown = append(grown, x...)
	}
	h.Cache = grown
"""))
G = "rangeproof/generators/generator.go"
q("gen-running-point", "C17 C14", (G, """	for i := uint32(0); i < num; i++ {
		g.Bases = append(g.Bases, g.Iterate())
	}
""", """	for ; num > 0; num-- {
		next := g.Iterate()
		g.Bases = append(g.Bases, next)
	}
"""))
q("gen-inline-iterate", "C17 C14", (G, """	for i := uint32(0); i < num; i++ {
		g.Bases = append(g.Bases, g.Iterate())
	}
""", """	seed := g.data
	if n := len(g.Bases); n > 0 {
		seed = g.Bases[n-1].Bytes()
	}
	for i := uint32(0); i < num; i++ {
		var p ristretto.Point
		p.Derive(seed)
		g.Bases = append(g.Bases, p)
		seed = p.Bytes()
	}
"""))
P = "rangeproof/pedersen/pedersen.go"
q("ped-commit-helper", "C17 C13", (P, """	// v * Base
	var vBase ristretto.Point
	vBase.ScalarMult(&p.BasePoint, &v)
	// blind * BlindPoint
	var blindPoint ristretto.Point
	blindPoint.ScalarMult(&p.BlindPoint, &blind)

	var sum ristretto.Point
	sum.SetZero()
	sum.Add(&vBase, &blindPoint)

	return Commitment{
		Value:          sum,
		BlindingFactor: blind,
	}
}
""", """	sum := p.open(&v, &blind)

	return Commitment{
		Value:          *sum,
		BlindingFactor: blind,
	}
}

func (p *Pedersen) open(v, blind *ristretto.Scalar) *ristretto.Point {
	var left, right ristretto.Point
	right.ScalarMult(&p.BlindPoint, blind)
	left.ScalarMult(&p.BasePoint, v)
	return new(ristretto.Point).Add(&right, &left)
}
"""))
q("ped-vectors-split", "C17 C13", (P, """	for i, vector := range vectors {
		if i == 0 {

			// Commit to vector + blinding factor
			commit := p.commitToScalars(&blind, vector...)
			sum.Add(&sum, &commit)
		} else {

			// copy: appending in place could write into the caller's array
			genData := append([]byte{}, p.GenData...)
			genData = append(genData, uint8(i))
			ped2 := New(genData)

			commit := ped2.commitToScalars(nil, vector...)
			sum.Add(&sum, &commit)
		}
	}
""", """	for i := 0; i < len(vectors); i++ {
		target, b := p, &blind
		if i != 0 {
			genData := make([]byte, len(p.GenData)+1)
			copy(genData, p.GenData)
			genData[len(p.GenData)] = uint8(i)
			target, b = New(genData), nil
		}
		commit := target.commitToScalars(b, vectors[i]...)
		sum.Add(&sum, &commit)
	}
"""))
q("ped-decode-prealloc-none", "C15", (P, """	comms := []Commitment{}

	for i := uint32(0); i < lenV; i++ {
		var comm Commitment
		err := comm.Decode(r)
		if err != nil {
			return nil, err
		}
		comms = append(comms, comm)
	}

	return comms, nil
""", """	comms := make([]Commitment, 0)

	for ; lenV > 0; lenV-- {
		comms = append(comms, Commitment{})
		if err := comms[len(comms)-1].Decode(r); err != nil {
			return nil, err
		}
	}

	return comms, nil
"""))
q("ped-encode-early", "C15", (P, """	for i := range comms {
		err := comms[i].Encode(w)
		if err != nil {
			return err
		}
	}
	return nil
}

func (c *Commitment) Decode""", """	for _, c := range comms {
		if err = c.Encode(w); err != nil {
			break
		}
	}
	return err
}

func (c *Commitment) Decode"""))
M = "mlsag/mlsag.go"
q("mlsag-chal-helper", "C11 C10", (M, """		// P = r * G + c * PubKey
		var P, cK ristretto.Point
		P.ScalarMultBase(&r)
		cK.ScalarMult(&pubKeys.keys[i], &prevChallenge)
		P.Add(&P, &cK)
		_, err = buf.Write(P.Bytes())
		if err != nil {
			return ristretto.Scalar{}, err
		}

	}
""", """		var base ristretto.Point
		base.SetBase()
		if err = writeCombination(buf, &base, &r, &pubKeys.keys[i], &prevChallenge); err != nil {
			return ristretto.Scalar{}, err
		}
	}
"""), (M, """		// P = r * H(K) + c * Ki
		var P, cK ristretto.Point
		var hK ristretto.Point
		hK.Derive(pubKeys.keys[i].Bytes())
		P.ScalarMult(&hK, &r)
		cK.ScalarMult(&keyImages[i], &prevChallenge)
		P.Add(&P, &cK)
		_, err = buf.Write(P.Bytes())
		if err != nil {
			return ristretto.Scalar{}, err
		}
	}

	var challenge ristretto.Scalar
	challenge.Derive(buf.Bytes())

	return challenge, nil
}
""", """		var hK ristretto.Point
		hK.Derive(pubKeys.keys[i].Bytes())
		if err = writeCombination(buf, &hK, &r, &keyImages[i], &prevChallenge); err != nil {
			return ristretto.Scalar{}, err
		}
	}

	var challenge ristretto.Scalar
	challenge.Derive(buf.Bytes())

	return challenge, nil
}

// writeCombination writes a*A + b*B
func writeCombination(w io.Writer, A *ristretto.Point, a *ristretto.Scalar, B *ristretto.Point, b *ristretto.Scalar) error {
	var left, right ristretto.Point
	left.ScalarMult(A, a)
	right.ScalarMult(B, b)
	left.Add(&left, &right)
	_, err := w.Write(left.Bytes())
	return err
}
"""))
q("mlsag-verify-simple-loop", "C11", (M, """	index := 0

	var prevChallenge = sig.c

	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
		i := k % numUsers
		prevIndex := (i - 1) % numUsers
		if prevIndex < 0 {
			prevIndex = prevIndex + numUsers
		}

		fakeResponses := sig.r[prevIndex]
		decoyPubKeys := sig.PubKeys[prevIndex]
		challenge, err := generateChallenge(sig.Msg, fakeResponses, keyImages, decoyPubKeys, prevChallenge)
		if err != nil {
			return false, err
		}
		prevChallenge = challenge
	}

	// Calculate c'
	prevIndex := (index - 1) % numUsers
	if prevIndex < 0 {
		prevIndex = prevIndex + numUsers
	}
	fakeResponses := sig.r[prevIndex]
	decoyPubKeys := sig.PubKeys[prevIndex]

	challenge, err := generateChallenge(sig.Msg, fakeResponses, keyImages, decoyPubKeys, prevChallenge)
	if err != nil {
		return false, err
	}
""", """	challenge := sig.c
	for i, responses := range sig.r {
		next, err := generateChallenge(sig.Msg, responses, keyImages, sig.PubKeys[i], challenge)
		if err != nil {
			return false, err
		}
		challenge = next
	}
"""))
q("mlsag-prove-helper", "C10", (M, """	// Set the real response for signer
	var realResponse Responses
	for i := 0; i < numKeysPerUser; i++ {
		challenge := challenges[proof.index]
		privKey := proof.privKeys[i]
		nonce := nonces[i]
		var r ristretto.Scalar

		// r = nonce - challenge*privKey
		r.Mul(&challenge, &privKey)
		r.Neg(&r)
		r.Add(&r, &nonce)
		realResponse.AddResponse(r)
	}

	// replace real response in responses array
	responses[proof.index] = realResponse
""", """	// Set the real response for signer
	responses[secretIndex] = realResponses(challenges[secretIndex], proof.privKeys, nonces)
"""), (M, """func generateNonces(n int)""", """func realResponses(challenge ristretto.Scalar, privKeys PrivKeys, nonces []ristretto.Scalar) Responses {
	res := make(Responses, len(privKeys))
	for i := range privKeys {
		// r = nonce - challenge*privKey
		var cx ristretto.Scalar
		cx.Mul(&challenge, &privKeys[i])
		res[i].Sub(&nonces[i], &cx)
	}
	return res
}

func generateNonces(n int)"""))
q("mlsag-prove-loop", "C10", (M, """	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
		i := k % numUsers

		prevIndex := (i - 1) % numUsers
		if prevIndex < 0 {
			prevIndex = prevIndex + numUsers
		}
		fakeResponses""", """	for step := 1; step < numUsers; step++ {
		prevIndex := (secretIndex + step) % numUsers
		i := (prevIndex + 1) % numUsers

		fakeResponses"""))
q("mlsag-nonce-prealloc", "C10", (M, """	var nonces []ristretto.Scalar
	for i := 0; i < n; i++ {
		var nonce ristretto.Scalar
		nonce.Rand()
		nonces = append(nonces, nonce)
	}
	return nonces
""", """	nonces := make([]ristretto.Scalar, n)
	for i := range nonces {
		nonces[i].Rand()
	}
	return nonces
"""))
q("mlsag-equals-combined", "C12", (M, """	ok := s.c.Equals(&other.c)
	if !ok {
		return ok
	}

	if len(s.r) != len(other.r) {
		return false
	}
""", """	if len(s.r) != len(other.r) || !s.c.Equals(&other.c) {
		return false
	}
	var ok bool
"""))
q("mlsag-encode-helper", "C12", (M, """	// Encode the responses
	for i := range s.r {
		err = s.r[i].Encode(w)
		if err != nil {
			return err
		}
	}

	if !encodeKeys {
		return nil
	}

	// Encode the pubkeys
	for i := range s.PubKeys {
		err = s.PubKeys[i].Encode(w)
		if err != nil {
			return err
		}
	}

	return nil
}
""", """	items := make([]encoder, 0, len(s.r)+len(s.PubKeys))
	for i := range s.r {
		items = append(items, s.r[i])
	}
	if encodeKeys {
		for i := range s.PubKeys {
			items = append(items, s.PubKeys[i])
		}
	}
	for _, it := range items {
		if err := it.Encode(w); err != nil {
			return err
		}
	}
	return nil
}

type encoder interface {
	Encode(w io.Writer) error
}
"""))
q("mlsag-decode-readfull", "C12", (M, """	var x [32]byte
	err := binary.Read(r, binary.BigEndian, &x)
	if err != nil {
		return err
	}
	s.SetBytes(&x)
	return nil
""", """	var x [32]byte
	if _, err := io.ReadFull(r, x[:]); err != nil {
		return err
	}
	s.SetBytes(&x)
	return nil
"""))
q("mlsag-resp-decode-helper", "C12", ("mlsag/responses.go", """	var xBytes [32]byte
	var x ristretto.Scalar
	for i := uint32(0); i < numResponses; i++ {
		err := binary.Read(r, binary.BigEndian, &xBytes)
		if err != nil {
			return err
		}
		x.SetBytes(&xBytes)
		res.AddResponse(x)
	}
	return nil
""", """	for i := uint32(0); i < numResponses; i++ {
		var x ristretto.Scalar
		if err := readerToScalar(r, &x); err != nil {
			return err
		}
		*res = append(*res, x)
	}
	return nil
"""))
B = "ringsig/blsag/blsag.go"
q("blsag-verify-single-loop", "C09 C08", (B, """	Ls := make([]ristretto.Point, numPubKeys)
	Rs := make([]ristretto.Point, numPubKeys)
	Cs := make([]ristretto.Scalar, numPubKeys)

	for i := 0; i < numPubKeys; i++ {

		// First calculate Cs, Ls, Rs

		cPlus1, L, R := computeCLR(m, ringsig.I, ringsig.PubKeys[i], ringsig.S[i], currC)

		k := (i + 1) % numPubKeys

		Cs[k] = cPlus1

		Ls[i] = L
		Rs[i] = R

		currC = cPlus1
	}

	// check that c_i+1 = h(m || L_i || R_i)

	if len(Ls) != len(Rs) && len(Rs) != len(Cs) {
		return false
	}

	for i := range Cs {

		buf := new(bytes.Buffer)
		appendToBuf(buf, m, Ls[i].Bytes(), Rs[i].Bytes())

		var cPlus1 ristretto.Scalar
		cPlus1.Derive(buf.Bytes())

		k := (i + 1) % len(Cs)

		if !Cs[k].Equals(&cPlus1) {
			return false
		}

	}

	// c_n+1 = c[0]
	if Cs[0] != ringsig.C {
		return false
	}

	return true
""", """	for i := range ringsig.PubKeys {
		currC, _, _ = computeCLR(m, ringsig.I, ringsig.PubKeys[i], ringsig.S[i], currC)
	}

	return currC == ringsig.C
"""))
q("blsag-sign-loop", "C08", (B, """	for i := j + 1; ; i++ {

		l := i % (len(pubKeys))
		if l == j {
			break
		}

		k := (i + 1) % (len(pubKeys))

		c, _, _ := computeCLR(m, I, pubKeys[l], sVals[l], cPlus1)

		cVals[k] = c
		cPlus1 = c
	}
""", """	n := len(pubKeys)
	for step := 1; step < n; step++ {
		l := (j + step) % n
		cPlus1, _, _ = computeCLR(m, I, pubKeys[l], sVals[l], cPlus1)
		cVals[(l+1)%n] = cPlus1
	}
"""))
q("blsag-hash-helper", "C08 C09", (B, """	buf := new(bytes.Buffer)
	appendToBuf(buf, message, L.Bytes(), R.Bytes())
	cPlus1.Derive(buf.Bytes())

	return cPlus1, L, R
}
""", """	cPlus1 = challenge(message, &L, &R)

	return cPlus1, L, R
}

func challenge(message []byte, L, R *ristretto.Point) ristretto.Scalar {
	data := make([]byte, 0, len(message)+64)
	data = append(data, message...)
	data = append(data, L.Bytes()...)
	data = append(data, R.Bytes()...)
	var c ristretto.Scalar
	c.Derive(data)
	return c
}
"""))
T = "merkletree/merkletree.go"
q("merkle-iterative", "C06 C07", (T, """	return createIntermediate(nodes)
}
""", """	nl = nodes
	return createIntermediate(nl)
}
"""), (T, """		var left, right int = i, i + 1
		if i+1 == len(nl) {
			right = i
		}
		payloadHash := concat(nl[left].Hash, nl[right].Hash)
""", """		left, right := i, i
		if i+1 < len(nl) {
			right++
		}
		payloadHash := concat(nl[left].Hash, nl[right].Hash)
"""))
q("merkle-loop", "C06 C07", (T, """func createIntermediate(nl []*Node) (*Node, error) {
	var nodes []*Node
	for i := 0; i < len(nl); i += 2 {
		var left, right int = i, i + 1
		if i+1 == len(nl) {
			right = i
		}
		payloadHash := concat(nl[left].Hash, nl[right].Hash)

		h, err := hash.Sha3256(payloadHash)
		if err != nil {
			return nil, err
		}

		node := &Node{
			Left:  nl[left],
			Right: nl[right],
			Hash:  h,
		}

		nodes = append(nodes, node)
		nl[left].Parent = node
		nl[right].Parent = node

		if len(nl) == 2 {
			return node, nil
		}
	}

	return createIntermediate(nodes)
}
""", """func createIntermediate(nl []*Node) (*Node, error) {
	for len(nl) > 1 {
		level := make([]*Node, 0, (len(nl)+1)/2)
		for i := 0; i < len(nl); i += 2 {
			l, r := nl[i], nl[i]
			if i+1 < len(nl) {
				r = nl[i+1]
			}
			node, err := join(l, r)
			if err != nil {
				return nil, err
			}
			level = append(level, node)
		}
		nl = level
	}
	return nl[0], nil
}

func join(l, r *Node) (*Node, error) {
	h, err := hash.Sha3256(concat(l.Hash, r.Hash))
	if err != nil {
		return nil, err
	}
	node := &Node{Left: l, Right: r, Hash: h}
	l.Parent, r.Parent = node, node
	return node, nil
}
"""))
q("merkle-verifycontent-helper", "C07", (T, """		if ok {
			currentParent := leaf.Parent
			for currentParent != nil {
				rightBytes, err := CalculateNodeHash(currentParent.Right)
				if err != nil {
					return false, err
				}

				leftBytes, err := CalculateNodeHash(currentParent.Left)
				if err != nil {
					return false, err
				}

				h, err := hash.Sha3256(concat(leftBytes, rightBytes))

				if err != nil {
					return false, err
				}

				if bytes.Compare(h, currentParent.Hash) != 0 {
					return false, nil
				}

				currentParent = currentParent.Parent
			}

			return true, nil
		}
	}

	return false, nil
}
""", """		if ok {
			return pathIntact(leaf.Parent)
		}
	}

	return false, nil
}

func pathIntact(n *Node) (bool, error) {
	for ; n != nil; n = n.Parent {
		rightBytes, err := CalculateNodeHash(n.Right)
		if err != nil {
			return false, err
		}

		leftBytes, err := CalculateNodeHash(n.Left)
		if err != nil {
			return false, err
		}

		h, err := hash.Sha3256(concat(leftBytes, rightBytes))
		if err != nil {
			return false, err
		}

		if !bytes.Equal(h, n.Hash) {
			return false, nil
		}
	}
	return true, nil
}
"""))
q("merkle-verifytree", "C07", (T, """	if bytes.Compare(t.MerkleRoot, calculatedRoot) == 0 {
		return true, nil
	}

	return false, nil
}

//VerifyContent""", """	return bytes.Equal(calculatedRoot, t.MerkleRoot), nil
}

//VerifyContent"""))
q("merkle-recursion-path", "C07", (T, """			currentParent := leaf.Parent
			for currentParent != nil {
				rightBytes, err := CalculateNodeHash(currentParent.Right)
				if err != nil {
					return false, err
				}

				leftBytes, err := CalculateNodeHash(currentParent.Left)
				if err != nil {
					return false, err
				}

				h, err := hash.Sha3256(concat(leftBytes, rightBytes))

				if err != nil {
					return false, err
				}

				if bytes.Compare(h, currentParent.Hash) != 0 {
					return false, nil
				}

				currentParent = currentParent.Parent
			}

			return true, nil
""", """			return checkUp(leaf.Parent)
"""), (T, """// equals returns true, if two payloads hash to the same value
""", """func checkUp(n *Node) (bool, error) {
	if n == nil {
		return true, nil
	}
	rightBytes, err := CalculateNodeHash(n.Right)
	if err != nil {
		return false, err
	}
	leftBytes, err := CalculateNodeHash(n.Left)
	if err != nil {
		return false, err
	}
	h, err := hash.Sha3256(concat(leftBytes, rightBytes))
	if err != nil {
		return false, err
	}
	if bytes.Equal(h, n.Hash) {
		return checkUp(n.Parent)
	}
	return false, nil
}

// equals returns true, if two payloads hash to the same value
"""))
HH = "hash/hash.go"
q("hash-sum-direct", "C05 C06", (HH, """	return PerformHash(sha3.New256(), bs)
}

// PerformHash""", """	d := sha3.Sum256(bs)
	return d[:], nil
}

// PerformHash"""))
q("hash-checksum-shift", "C05", (HH, """	checksum := binary.BigEndian.Uint32(hash[:4])
	return checksum, err
""", """	return uint32(hash[0])<<24 | uint32(hash[1])<<16 | uint32(hash[2])<<8 | uint32(hash[3]), nil
"""), (HH, """	"encoding/binary"
""", ""))
q("hash-compare-simple", "C05", (HH, """	got, err := Checksum(data)
	if err != nil {
		return false
	}
	if got != want {
		return false
	}
	return true
""", """	got, err := Checksum(data)
	return err == nil && got == want
"""))
q("hash-blake-direct", "C05", (HH, """	h, err := blake2b.New512(nil)
	if err != nil {
		return nil, err
	}
	return PerformHash(h, bs)
""", """	d := blake2b.Sum512(bs)
	return d[:], nil
"""))
q("hash-readfull", "C05", (HH, """	a, err := rand.Read(b)
""", """	a, err := io.ReadFull(rand.Reader, b)
"""), (HH, """	"hash"
	"strconv"
""", """	"hash"
	"io"
	"strconv"
"""))
L = "bls/bls.go"
q("bls-verify-equal", "C01", (L, """	pairH0mPK := bn256.Pair(h0m, pk).Marshal()
	pairSigG2 := bn256.Pair(sigma, g2Base).Marshal()
	if subtle""", """	left, right := bn256.Pair(sigma, g2Base), bn256.Pair(h0m, pk)
	pairH0mPK, pairSigG2 := right.Marshal(), left.Marshal()
	if subtle"""))
q("bls-batch-firstout", "C03", (L, """	var pairH0mPKs *bn256.GT
	// TODO: I suspect that this could be sped up by doing the addition through a pool of goroutines
	for i := range msgList {
		h0m, err := h0(msgList[i])
		if err != nil {
			return err
		}

		if i == 0 {
			pairH0mPKs = bn256.Pair(h0m, pkeys[i])
		} else {
			pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))
		}
	}
""", """	h0m, err := h0(msgList[0])
	if err != nil {
		return err
	}
	pairH0mPKs := bn256.Pair(h0m, pkeys[0])
	for i := 1; i < len(msgList); i++ {
		h0m, err := h0(msgList[i])
		if err != nil {
			return err
		}
		pairH0mPKs = new(bn256.GT).Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))
	}
"""))
q("bls-distinct-set", "C03", (L, """	m := make(map[[32]byte]bool)
	for _, msg := range msgList {
		h := sha3.Sum256(msg)
		if m[h] {
			return false
		}
		m[h] = true
	}
	return true
""", """	seen := make(map[string]struct{}, len(msgList))
	for _, msg := range msgList {
		seen[string(msg)] = struct{}{}
	}
	return len(seen) == len(msgList)
"""))
q("bls-distinct-nested", "C03", (L, """	m := make(map[[32]byte]bool)
	for _, msg := range msgList {
		h := sha3.Sum256(msg)
		if m[h] {
			return false
		}
		m[h] = true
	}
	return true
""", """	for i := range msgList {
		for j := 0; j < i; j++ {
			if bytes.Equal(msgList[i], msgList[j]) {
				return false
			}
		}
	}
	return true
"""), (L, """import (
	"crypto/rand\"""", """import (
	"bytes"
	"crypto/rand\""""))
q("bls-apk-loop", "C02", (L, """	var apk *Apk
	for i, pk := range pks {
		if i == 0 {
			apk = NewApk(pk)
			continue
		}

		if err := apk.Aggregate(pk); err != nil {
			return nil, err
		}
	}

	return apk, nil
""", """	if len(pks) == 0 {
		return nil, nil
	}
	apk := NewApk(pks[0])
	for _, pk := range pks[1:] {
		if err := apk.Aggregate(pk); err != nil {
			return nil, err
		}
	}

	return apk, nil
"""))
q("bls-unmarshal-helper", "C04 C02", (L, """	var err error
	var e *bn256.G1
	if len(msg) == 33 {
		e, err = bn256.Decompress(msg)
		if err != nil {
			return err
		}
		sigma.e = e
		return nil
	}

	e = newG1()
	if _, err := e.Unmarshal(msg); err != nil {
		return err
	}
	sigma.e = e
	return nil
""", """	if len(msg) == 33 {
		return sigma.Decompress(msg)
	}

	usig := new(UnsafeSignature)
	if err := usig.Unmarshal(msg); err != nil {
		return err
	}
	sigma.e = usig.e
	return nil
"""))
q("bls-text", "C04", (L, """	bs, err := decodeText(data)
	if err != nil {
		return err
	}
	pk.gx = newG2()
	_, err = pk.gx.Unmarshal(bs)
	if err != nil {
		return err
	}
	return nil
""", """	bs, err := decodeText(data)
	if err != nil {
		return err
	}
	return pk.Unmarshal(bs)
"""), (L, """	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))
	base64.RawURLEncoding.Encode(buf, data)
	return buf
""", """	return []byte(base64.RawURLEncoding.EncodeToString(data))
"""))
q("bls-sign-inline", "C01 C02", (L, """	sigma := newG1()

	sigma.ScalarMult(signature.e, t)

	return &Signature{e: sigma}, nil
""", """	return &Signature{e: newG1().ScalarMult(signature.e, t)}, nil
"""), (L, """	p := newG1()
	p.ScalarMult(hash, key.x)
	return &UnsafeSignature{p}, nil
""", """	return &UnsafeSignature{e: hash.ScalarMult(hash, key.x)}, nil
"""))
R = "rangeproof/rangeproof.go"
q("rp-challenges-helper", "C14 C13", (R, """	hs := fiatshamir.HashCacher{Cache: []byte{}}
	for _, V := range p.V {
		hs.Append(V.Value.Bytes())
	}

	hs.Append(p.A.Bytes(), p.S.Bytes())
	y, z := computeYAndZ(hs)
	hs.Append(z.Bytes(), p.T1.Bytes(), p.T2.Bytes())
	x := computeX(hs)
	hs.Append(x.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes())
	w := hs.Derive()

	return""", """	x, y, z, w := p.challenges()

	return"""), (R, """func megacheckWithC(""", """func (p *Proof) challenges() (x, y, z, w ristretto.Scalar) {
	hs := new(fiatshamir.HashCacher)
	for i := range p.V {
		hs.Append(p.V[i].Value.Bytes())
	}
	hs.Append(p.A.Bytes())
	hs.Append(p.S.Bytes())
	y, z = computeYAndZ(*hs)
	hs.Append(z.Bytes(), p.T1.Bytes(), p.T2.Bytes())
	x = hs.Derive()
	hs.Append(x.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes())
	w = hs.Derive()
	return
}

func megacheckWithC("""))
q("rp-mega-reorder", "C14 C13", (R, """	var sum ristretto.Point
	sum.SetZero()
	sum.Add(&c1, &c2)
	sum.Add(&sum, &c3)
	sum.Add(&sum, &c4)
	sum.Sub(&sum, &c5)
	sum.Sub(&sum, &c6)
	sum.Sub(&sum, &c7)
	sum.Sub(&sum, &c8)
	sum.Sub(&sum, &c9)
	sum.Sub(&sum, &c10)
	sum.Sub(&sum, &c11)

	var zero ristretto.Point
	zero.SetZero()

	ok := zero.Equals(&sum)
	if !ok {
""", """	var sum, rest ristretto.Point
	sum.SetZero()
	for _, term := range []*ristretto.Point{&c1, &c2, &c3, &c4} {
		sum.Add(&sum, term)
	}
	rest.SetZero()
	for _, term := range []*ristretto.Point{&c11, &c10, &c9, &c8, &c7, &c6, &c5} {
		rest.Add(&rest, term)
	}

	if !sum.Equals(&rest) {
"""))
q("rp-encode-loop", "C15", (R, """	err := binary.Write(w, binary.BigEndian, p.A.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.S.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.T1.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.T2.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.taux.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.mu.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.t.Bytes())
	if err != nil {
		return err
	}
	return p.IPProof.Encode(w)
""", """	parts := [][]byte{
		p.A.Bytes(), p.S.Bytes(), p.T1.Bytes(), p.T2.Bytes(),
		p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes(),
	}
	for _, part := range parts {
		if err := binary.Write(w, binary.BigEndian, part); err != nil {
			return err
		}
	}
	return p.IPProof.Encode(w)
"""))
q("rp-decode-loop", "C15", (R, """	err := readerToPoint(r, &p.A)
	if err != nil {
		return err
	}
	err = readerToPoint(r, &p.S)
	if err != nil {
		return err
	}
	err = readerToPoint(r, &p.T1)
	if err != nil {
		return err
	}
	err = readerToPoint(r, &p.T2)
	if err != nil {
		return err
	}
	err = readerToScalar(r, &p.taux)
	if err != nil {
		return err
	}
	err = readerToScalar(r, &p.mu)
	if err != nil {
		return err
	}
	err = readerToScalar(r, &p.t)
	if err != nil {
		return err
	}
""", """	for _, dst := range []*ristretto.Point{&p.A, &p.S, &p.T1, &p.T2} {
		if err := readerToPoint(r, dst); err != nil {
			return err
		}
	}
	for _, dst := range []*ristretto.Scalar{&p.taux, &p.mu, &p.t} {
		if err := readerToScalar(r, dst); err != nil {
			return err
		}
	}
"""))
q("rp-equals-and", "C15", (R, """	ok := p.A.Equals(&other.A)
	if !ok {
		return ok
	}
	ok = p.S.Equals(&other.S)
	if !ok {
		return ok
	}
	ok = p.T1.Equals(&other.T1)
	if !ok {
		return ok
	}
	ok = p.T2.Equals(&other.T2)
	if !ok {
		return ok
	}
	ok = p.taux.Equals(&other.taux)
	if !ok {
		return ok
	}
	ok = p.mu.Equals(&other.mu)
	if !ok {
		return ok
	}
	ok = p.t.Equals(&other.t)
	if !ok {
		return ok
	}
""", """	same := p.t.Equals(&other.t) && p.mu.Equals(&other.mu) && p.taux.Equals(&other.taux) &&
		p.T2.Equals(&other.T2) && p.T1.Equals(&other.T1) && p.S.Equals(&other.S) && p.A.Equals(&other.A)
	if !same {
		return false
	}
"""))
q("rp-prove-pad", "C13", (R, """	for i := uint32(0); i < padAmount; i++ {
		var zeroScalar ristretto.Scalar
		zeroScalar.SetZero()
		v = append(v, zeroScalar)
	}
""", """	v = append(v, make([]ristretto.Scalar, padAmount)...)
"""))
q("rp-taux", "C13", (R, """	tau1X := t1Blind.Mul(&x, &t1Blind)

	var xsq ristretto.Scalar
	xsq.Square(&x)

	tau2Xsq := t2Blind.Mul(&xsq, &t2Blind)
""", """	var tau1X, tau2Xsq, xsq ristretto.Scalar
	tau1X.Mul(&x, &t1Blind)
	xsq.Mul(&x, &x)
	tau2Xsq.Mul(&xsq, &t2Blind)
"""), (R, """	res.Add(tau1X, tau2Xsq)
	res.Add(&res, &zNBlindSum)
""", """	res.Add(&tau2Xsq, &zNBlindSum)
	res.Add(&res, &tau1X)
"""))
q("rp-sumz-blocks", "C13 C14", ("rangeproof/poly.go", """	for i := 0; i < m*N; i++ {
		res[i].SetZero()
		for j := 1; j <= m; j++ {
			if (i >= (j-1)*N) && (i < j*N) {
				res[i].MulAdd(&zM[j+1], &twoN[i-(j-1)*N], &res[i])
			}
		}

	}
	return res
""", """	for i := range res {
		res[i].Mul(&zM[i/N+2], &twoN[i%N])
	}
	return res
"""))
q("rp-delta", "C13 C14", ("rangeproof/poly.go", """	var resA, resB ristretto.Scalar
	resA.Sub(&z, &zsq)

	resA.Mul(&resA, &sumY)

	resB.Mul(&sum2, &sumZ)
	resB.Mul(&resB, &zcu)

	res.Sub(&resA, &resB)

	return res
""", """	var resA, resB ristretto.Scalar
	resB.Mul(&zcu, &sum2).Mul(&resB, &sumZ)
	resA.Sub(&z, &zsq).Mul(&resA, &sumY)
	return *res.Sub(&resA, &resB)
"""))
q("rp-poly-scale", "C13", ("rangeproof/poly.go", """	lLeft := p.l0

	lRight := vector.MulScalar(p.l1, x)

	l, err := vector.Add(lLeft, lRight)
	if err != nil {
		return nil, errors.Wrap(err, "[ComputeL]")
	}
	return l, nil
""", """	l := make([]ristretto.Scalar, len(p.l0))
	for i := range l {
		l[i].MulAdd(&p.l1[i], &x, &p.l0[i])
	}
	return l, nil
"""))
q("bit-shift", "C20 C13", ("rangeproof/bitCommitment.go", """		var rem uint64

		rem = num % 2
		num = num >> 1

		if rem == 0 {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
		} else {
			bc.AL[i] = one
			bc.AR[i] = zero
		}
""", """		if (num>>uint(i))&1 == 1 {
			bc.AL[i] = one
			bc.AR[i] = zero
			continue
		}
		bc.AL[i] = zero
		bc.AR[i] = minusOne
"""))
q("bit-sub", "C20 C13", ("rangeproof/bitCommitment.go", """		if rem == 0 {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
		} else {
			bc.AL[i] = one
			bc.AR[i] = zero
		}
""", """		bc.AL[i] = zero
		if rem != 0 {
			bc.AL[i] = one
		}
		bc.AR[i].Sub(&bc.AL[i], &one)
"""), ("rangeproof/bitCommitment.go", """	var minusOne ristretto.Scalar
	minusOne.Neg(&one)

	num""", """	num"""))
q("bit-bitfn", "C20 C13", ("rangeproof/bitCommitment.go", """		var rem uint64

		rem = num % 2
		num = num >> 1
""", """		rem := v.Bit(i)
"""), ("rangeproof/bitCommitment.go", """	num := v.Uint64()

""", ""))
I = "rangeproof/innerproduct/innerproduct.go"
q("ip-pow2-bits", "C20 C16 C13", (I, """	pow2 := nextPow2(uint(n))
	padAmount := uint32(pow2) - n + 1
	return padAmount
""", """	pow2 := uint32(1)
	for pow2 < n {
		pow2 <<= 1
	}
	return pow2 - n
"""))
q("ip-lgn", "C16 C13", (I, """	lgN := bits.TrailingZeros(nextPow2(uint(n)))
""", """	lgN := bits.Len32(n) - 1
"""))
q("ip-scalars", "C16 C14", (I, """		lgI := 32 - 1 - bits.LeadingZeros32(i)
		k := uint32(1 << uint(lgI))

		uLgISq := chalSq[(lgN-1)-lgI]

		var sRes ristretto.Scalar
		sRes.Mul(&s[i-k], &uLgISq)
		s = append(s, sRes)
""", """		lgI := bits.Len32(i) - 1
		k := uint32(1) << uint(lgI)
		s = append(s, ristretto.Scalar{})
		s[i].Mul(&chalSq[lgN-lgI-1], &s[i-k])
"""))
q("ip-scalars-doubling", "C16 C14", (I, """	for i := uint32(1); i < n; i++ {

		lgI := 32 - 1 - bits.LeadingZeros32(i)
		k := uint32(1 << uint(lgI))

		uLgISq := chalSq[(lgN-1)-lgI]

		var sRes ristretto.Scalar
		sRes.Mul(&s[i-k], &uLgISq)
		s = append(s, sRes)
	}
""", """	for round := lgN - 1; round >= 0; round-- {
		for _, prev := range s {
			var sRes ristretto.Scalar
			sRes.Mul(&prev, &chalSq[round])
			s = append(s, sRes)
		}
	}
"""))
q("ip-fold-helper", "C16 C13", (I, """			a1.Mul(&aL[i], &u)
			a2.Mul(&aR[i], &uinv)
			aL[i].Add(&a1, &a2)

			b1.Mul(&bL[i], &uinv)
			b2.Mul(&bR[i], &u)
			bL[i].Add(&b1, &b2)

			g1.ScalarMult(&GL[i], &uinv)
			g2.ScalarMult(&GR[i], &u)
			GL[i].Add(&g1, &g2)

			h1.ScalarMult(&HL[i], &u)
			h2.ScalarMult(&HR[i], &uinv)
			HL[i].Add(&h1, &h2)
		}
""", """			fold(&aL[i], &aR[i], &u, &uinv)
			fold(&bL[i], &bR[i], &uinv, &u)

			g1.ScalarMult(&GL[i], &uinv)
			g2.ScalarMult(&GR[i], &u)
			GL[i].Add(&g1, &g2)

			h1.ScalarMult(&HL[i], &u)
			h2.ScalarMult(&HR[i], &uinv)
			HL[i].Add(&h1, &h2)
		}
"""), (I, """		var a1, a2, b1, b2 ristretto.Scalar
		var g1, g2, h1, h2 ristretto.Point
""", """		var g1, g2, h1, h2 ristretto.Point
"""), (I, """func nextPow2(""", """// fold sets l to x*l + y*r
func fold(l, r, x, y *ristretto.Scalar) {
	var t ristretto.Scalar
	t.Mul(r, y)
	l.MulAdd(l, x, &t)
}

func nextPow2("""))
q("ip-unified-rounds", "C16", (I, """		bRYi := make([]ristretto.Scalar, len(bR))
		copy(bRYi, bR)

		for i := range bRYi {
			bRYi[i].Mul(&bRYi[i], &HprimeFactors[i])
		}
""", """		bRYi, err := vector.Hadamard(bR, HprimeFactors[:n])
		if err != nil {
			return nil, err
		}
"""), (I, """		bLYi := make([]ristretto.Scalar, len(bL))
		copy(bLYi, bL)

		for i := range bLYi {
			bLYi[i].Mul(&bLYi[i], &HprimeFactors[uint32(i)+n])
		}
""", """		bLYi, err := vector.Hadamard(bL, HprimeFactors[n:])
		if err != nil {
			return nil, err
		}
"""))
q("ip-decode-reader", "C15 C16", (I, """	buf := &bytes.Buffer{}
	_, err = buf.ReadFrom(r)
	if err != nil {
		return err
	}
	numBytes := len(buf.Bytes())
	if numBytes%64 != 0 {
		return errors.New("proof was not formatted correctly")
	}
	lenL := uint32(numBytes / 64)
""", """	rest, err := ioutil.ReadAll(r)
	if err != nil {
		return err
	}
	if len(rest)%64 != 0 {
		return errors.New("proof was not formatted correctly")
	}
	buf := bytes.NewReader(rest)
	lenL := len(rest) / 64
"""), (I, """	for i := uint32(0); i < lenL; i++ {
		var LBytes""", """	for i := 0; i < lenL; i++ {
		var LBytes"""), (I, """	"io"
""", """	"io"
	"io/ioutil"
"""))
q("ip-encode-range", "C15", (I, """	lenL := uint32(len(proof.L))

	for i := uint32(0); i < lenL; i++ {
		err = binary""", """	for i := range proof.L {
		err = binary"""))
q("dual-sub-copy", "C10", ("mlsag/dualkey.go", """	for i := range d.pubKeysMatrix {
		commToZero := &d.pubKeysMatrix[i].keys[1]
		commToZero.Sub(commToZero, &p)
	}
""", """	for _, pk := range d.pubKeysMatrix {
		pk.keys[1].Sub(&pk.keys[1], &p)
	}
"""))
q("proof-shuffle", "C10", ("mlsag/proof.go", """	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
	}
""", """	r.Shuffle(len(p.pubKeysMatrix), func(i, j int) {
		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
	})
"""))
q("proof-adddecoy", "C10", ("mlsag/proof.go", """	keys.decoy = true
	// SubCommToZero works on these keys in place: do not share them with the caller
	keys.keys = append([]ristretto.Point(nil), keys.keys...)
	p.addPubKeys(keys)
""", """	decoy := PubKeys{decoy: true, keys: make([]ristretto.Point, len(keys.keys))}
	copy(decoy.keys, keys.keys)
	p.pubKeysMatrix = append(p.pubKeysMatrix, decoy)
"""))
