# second set: other ways the same code might be written
Q = {}
T = "merkletree/merkletree.go"; L = "bls/bls.go"; HH = "hash/hash.go"; B = "ringsig/blsag/blsag.go"
M = "mlsag/mlsag.go"; R = "rangeproof/rangeproof.go"; PO = "rangeproof/poly.go"; BC = "rangeproof/bitCommitment.go"
I = "rangeproof/innerproduct/innerproduct.go"; P = "rangeproof/pedersen/pedersen.go"
G = "rangeproof/generators/generator.go"; V = "rangeproof/vector/vector.go"; F = "rangeproof/fiatshamir/fiatshamir.go"
D = "rangeproof/debug.go"


def q(name, props, *edits):
    Q[name] = (props.split(), list(edits))


q("s2-merkle-leaf-ctor", "C06 C07", (T, """		leaves = append(leaves, &Node{
			Data:   payload,
			Hash:   h,
			IsLeaf: true,
		})
	}
""", """		leaves = append(leaves, newLeaf(payload, h, false))
	}
"""), (T, """		duplicate := &Node{
			Hash:   previous.Hash,
			Data:   previous.Data,
			IsLeaf: true,
			IsDup:  true,
		}
		leaves = append(leaves, duplicate)
""", """		leaves = append(leaves, newLeaf(previous.Data, previous.Hash, true))
"""), (T, """// createIntermediate is""", """func newLeaf(data Payload, h []byte, dup bool) *Node {
	n := new(Node)
	n.Data = data
	n.Hash = h
	n.IsLeaf = true
	n.IsDup = dup
	return n
}

// createIntermediate is"""))
q("s2-merkle-presize", "C06 C07", (T, """	var leaves []*Node
	for _, payload := range pl {
		h, err := payload.CalculateHash()""", """	leaves := make([]*Node, 0, len(pl)+1)
	for i := 0; i < len(pl); i++ {
		payload := pl[i]
		h, err := payload.CalculateHash()"""))
q("s2-merkle-len2-first", "C06 C07", (T, """	var nodes []*Node
	for i := 0; i < len(nl); i += 2 {
		var left, right int = i, i + 1
		if i+1 == len(nl) {
			right = i
		}
		payloadHash := concat(nl[left].Hash, nl[right].Hash)

		h, err := hash.Sha3256(payloadHash)
		if err != nil {
			return nil, err
		}

		node := &Node{
			Left:  nl[left],
			Right: nl[right],
			Hash:  h,
		}

		nodes = append(nodes, node)
		nl[left].Parent = node
		nl[right].Parent = node

		if len(nl) == 2 {
			return node, nil
		}
	}

	return createIntermediate(nodes)
}
""", """	if len(nl) == 2 {
		return join(nl[0], nl[1])
	}
	nodes := make([]*Node, 0, (len(nl)+1)/2)
	for i := 0; i < len(nl); i += 2 {
		l := nl[i]
		r := l
		if i+1 < len(nl) {
			r = nl[i+1]
		}
		node, err := join(l, r)
		if err != nil {
			return nil, err
		}
		nodes = append(nodes, node)
	}
	return createIntermediate(nodes)
}

func join(l, r *Node) (*Node, error) {
	h, err := hash.Sha3256(concat(l.Hash, r.Hash))
	if err != nil {
		return nil, err
	}
	node := &Node{Left: l, Right: r, Hash: h}
	l.Parent, r.Parent = node, node
	return node, nil
}
"""))
q("s2-merkle-verifynode-order", "C07", (T, """	rightBytes, err := VerifyNode(n.Right)
	if err != nil {
		return nil, err
	}

	leftBytes, err := VerifyNode(n.Left)
	if err != nil {
		return nil, err
	}

	return hash.Sha3256(concat(leftBytes, rightBytes))
}

// CalculateNodeHash""", """	var sides [2][]byte
	for i, child := range []*Node{n.Left, n.Right} {
		h, err := VerifyNode(child)
		if err != nil {
			return nil, err
		}
		sides[i] = h
	}

	return hash.Sha3256(concat(sides[0], sides[1]))
}

// CalculateNodeHash"""))
q("s2-merkle-content-continue", "C07", (T, """		if ok {
			currentParent := leaf.Parent
			for currentParent != nil {
				rightBytes, err := CalculateNodeHash(currentParent.Right)
				if err != nil {
					return false, err
				}

				leftBytes, err := CalculateNodeHash(currentParent.Left)
				if err != nil {
					return false, err
				}

				h, err := hash.Sha3256(concat(leftBytes, rightBytes))

				if err != nil {
					return false, err
				}

				if bytes.Compare(h, currentParent.Hash) != 0 {
					return false, nil
				}

				currentParent = currentParent.Parent
			}

			return true, nil
		}
	}
""", """		if !ok {
			continue
		}

		for p := leaf.Parent; p != nil; p = p.Parent {
			l, err := CalculateNodeHash(p.Left)
			if err != nil {
				return false, err
			}
			r, err := CalculateNodeHash(p.Right)
			if err != nil {
				return false, err
			}
			h, err := hash.Sha3256(concat(l, r))
			if err != nil {
				return false, err
			}
			if !bytes.Equal(p.Hash, h) {
				return false, nil
			}
		}
		return true, nil
	}
"""))
q("s2-merkle-concat-join", "C06 C07", (T, """	joined := make([]byte, 0, len(left)+len(right))
	joined = append(joined, left...)
	return append(joined, right...)""", """	joined := make([]byte, len(left)+len(right))
	n := copy(joined, left)
	copy(joined[n:], right)
	return joined"""))
q("s2-merkle-rebuild-presize", "C06", (T, """	var pl []Payload
	for _, node := range t.Leaves {
		pl = append(pl, node.Data)
	}
""", """	pl := make([]Payload, len(t.Leaves))
	for i := range t.Leaves {
		pl[i] = t.Leaves[i].Data
	}
"""))
q("s2-merkle-rebuild-newtree", "C06", (T, """	root, leaves, err := create(pl)
	if err != nil {
		return err
	}

	t.Root = root
	t.Leaves = leaves
	t.MerkleRoot = root.Hash
	return nil""", """	fresh, err := NewTree(pl)
	if err != nil {
		return err
	}
	*t = *fresh
	return nil"""))
q("s2-bls-h0-shared", "C01 C03", (L, """	hashed, err := hash.PerformHash(hashFn(), msg)
	if err != nil {
		return nil, err
	}
	k := new(big.Int).SetBytes(hashed)
	return newG1().ScalarBaseMult(k), nil
}""", """	k, err := digest(msg)
	if err != nil {
		return nil, err
	}
	return newG1().ScalarBaseMult(k), nil
}

func digest(data []byte) (*big.Int, error) {
	hashed, err := hash.PerformHash(hashFn(), data)
	if err != nil {
		return nil, err
	}
	return new(big.Int).SetBytes(hashed), nil
}"""), (L, """	// marshalling G2 into a []byte
	pkb := pk.Marshal()
	// hashing into Z
	h, err := hash.PerformHash(hashFn(), pkb)
	if err != nil {
		return nil, err
	}

	return new(big.Int).SetBytes(h), nil
""", """	return digest(pk.Marshal())
"""))
q("s2-bls-batch-helper", "C03", (L, """	var pairH0mPKs *bn256.GT
	// TODO: I suspect that this could be sped up by doing the addition through a pool of goroutines
	for i := range msgList {
		h0m, err := h0(msgList[i])
		if err != nil {
			return err
		}

		if i == 0 {
			pairH0mPKs = bn256.Pair(h0m, pkeys[i])
		} else {
			pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))
		}
	}
""", """	pairH0mPKs, err := pairMessage(msgList[0], pkeys[0])
	if err != nil {
		return err
	}
	for i := 1; i < len(msgList); i++ {
		pair, err := pairMessage(msgList[i], pkeys[i])
		if err != nil {
			return err
		}
		pairH0mPKs.Add(pairH0mPKs, pair)
	}
"""), (L, """// VerifyCompressed verifies""", """func pairMessage(msg []byte, pk *bn256.G2) (*bn256.GT, error) {
	h0m, err := h0(msg)
	if err != nil {
		return nil, err
	}
	return bn256.Pair(h0m, pk), nil
}

// VerifyCompressed verifies"""))
q("s2-bls-batch-counts", "C03", (L, """	if len(msgs) != len(apks) {
		return fmt.Errorf(
			"BLS Verify APK Batch: the nr of Public Keys (%d) and the nr. of messages (%d) do not match",
			len(apks),
			len(msgs),
		)
	}

	pks := make([]*bn256.G2, len(apks))
	for i, pk := range apks {
		pks[i] = pk.gx
	}
""", """	if n, k := len(msgs), len(apks); n != k {
		return fmt.Errorf("BLS Verify APK Batch: %d keys for %d messages", k, n)
	}

	var pks []*bn256.G2
	for i := range apks {
		pks = append(pks, apks[i].PublicKey.gx)
	}
"""))
q("s2-bls-unsafebatch-rest", "C02", (L, """	var sum *UnsafeSignature
	for i, sig := range sigs {
		if i == 0 {
			sum = sig
		} else {
			sum = UnsafeAggregate(sum, sig)
		}
	}

	return sum, nil""", """	if len(sigs) == 0 {
		return nil, nil
	}
	sum := sigs[0]
	for _, sig := range sigs[1:] {
		sum = UnsafeAggregate(sum, sig)
	}
	return sum, nil"""))
q("s2-bls-distinct-struct", "C03", (L, """	m := make(map[[32]byte]bool)
	for _, msg := range msgList {
		h := sha3.Sum256(msg)
		if m[h] {
			return false
		}
		m[h] = true
	}
	return true""", """	seen := make(map[string]struct{}, len(msgList))
	for _, msg := range msgList {
		k := string(msg)
		if _, dup := seen[k]; dup {
			return false
		}
		seen[k] = struct{}{}
	}
	return true"""))
q("s2-bls-unmarshal-switch", "C04 C02", (L, """	var err error
	var e *bn256.G1
	if len(msg) == 33 {
		e, err = bn256.Decompress(msg)
		if err != nil {
			return err
		}
		sigma.e = e
		return nil
	}

	e = newG1()
	if _, err := e.Unmarshal(msg); err != nil {
		return err
	}
	sigma.e = e
	return nil""", """	switch len(msg) {
	case 33:
		return sigma.Decompress(msg)
	default:
		e := newG1()
		if _, err := e.Unmarshal(msg); err != nil {
			return err
		}
		sigma.e = e
	}
	return nil"""))
q("s2-bls-pk-unmarshal", "C04 C02", (L, """	pk.gx = newG2()
	_, err := pk.gx.Unmarshal(data)
	if err != nil {
		return err
	}
	return nil
}

func encodeToText""", """	pk.gx = newG2()
	_, err := pk.gx.Unmarshal(data)
	return err
}

func encodeToText"""), (L, """	pk.gx = newG2()
	_, err = pk.gx.Unmarshal(bs)
	if err != nil {
		return err
	}
	return nil
}

// Marshal returns""", """	return pk.Unmarshal(bs)
}

// Marshal returns"""))
q("s2-bls-text-string", "C04", (L, """	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))
	base64.RawURLEncoding.Encode(buf, data)
	return buf""", """	return []byte(base64.RawURLEncoding.EncodeToString(data))"""),
  (L, """	buf := make([]byte, base64.RawURLEncoding.DecodedLen(len(data)))
	n, err := base64.RawURLEncoding.Decode(buf, data)
	return buf[:n], err""", """	return base64.RawURLEncoding.DecodeString(string(data))"""))
q("s2-bls-copy-helper", "C04", (L, """	g2 := new(bn256.G2)
	b := apk.gx.Marshal()
	// no need to check errors. We deal with well formed APKs
	_, _ = g2.Unmarshal(b)

	cpy := &Apk{
		PublicKey: &PublicKey{g2},
	}
	return cpy""", """	cpy := &Apk{PublicKey: &PublicKey{}}
	// no need to check errors. We deal with well formed APKs
	_ = cpy.Unmarshal(apk.Marshal())
	return cpy"""))
q("s2-bls-apk-via-aggregate", "C02", (L, """	gxt, err := pkt(pk)
	if err != nil {
		return err
	}

	// not in place: bn256 gets the sum of two equal points wrong when the
	// result overwrites an operand
	apk.gx = newG2().Add(apk.gx, gxt)
	return nil""", """	gxt, err := pkt(pk)
	if err == nil {
		sum := newG2()
		sum.Add(apk.PublicKey.gx, gxt)
		apk.PublicKey.gx = sum
	}
	return err"""))
q("s2-bls-add-unsafe", "C02", (L, """	other, err := apkSigWrap(pk, sig)
	if err != nil {
		return err
	}

	sigma.Aggregate(other)
	return nil""", """	wrapped, err := apkSigWrap(pk, sig)
	if err == nil {
		_ = sigma.Aggregate(wrapped)
	}
	return err"""))
q("s2-hash-table", "C05", (HH, """	h, err := blake2b.New256(nil)
	if err != nil {
		return nil, err
	}
	return PerformHash(h, bs)
}

// Blake2b512""", """	sum := blake2b.Sum256(bs)
	return sum[:], nil
}

// Blake2b512"""))
q("s2-hash-checksum-direct", "C05", (HH, """	checksum := binary.BigEndian.Uint32(hash[:4])
	return checksum, err""", """	return uint32(hash[0])<<24 | uint32(hash[1])<<16 | uint32(hash[2])<<8 | uint32(hash[3]), nil"""),
  (HH, """	"encoding/binary"
""", ""))
q("s2-hash-perform-append", "C05", (HH, """	_, err := H.Write(bs)
	if err != nil {
		return nil, err
	}
	return H.Sum(nil), err""", """	if _, err := H.Write(bs); err != nil {
		return nil, err
	}
	out := make([]byte, 0, H.Size())
	return H.Sum(out), nil"""))
q("s2-blsag-sign-mod", "C08", (B, """	for i := j + 1; ; i++ {

		l := i % (len(pubKeys))
		if l == j {
			break
		}

		k := (i + 1) % (len(pubKeys))

		c, _, _ := computeCLR(m, I, pubKeys[l], sVals[l], cPlus1)

		cVals[k] = c
		cPlus1 = c
	}
""", """	n := len(pubKeys)
	for l := jPlus1; l != j; l = (l + 1) % n {
		c, _, _ := computeCLR(m, I, pubKeys[l], sVals[l], cPlus1)
		cVals[(l+1)%n] = c
		cPlus1 = c
	}
"""))
q("s2-blsag-sign-count", "C08", (B, """	for i := j + 1; ; i++ {

		l := i % (len(pubKeys))
		if l == j {
			break
		}

		k := (i + 1) % (len(pubKeys))
""", """	for step := 1; step < len(pubKeys); step++ {
		l := (j + step) % len(pubKeys)
		k := (l + 1) % len(pubKeys)
"""))
q("s2-blsag-pubkeys-append", "C08", (B, """	pubKeys := make([]ristretto.Point, len(mixin)+1)
	copy(pubKeys[:j], mixin[:j])
	pubKeys[j] = pK // add signer
	copy(pubKeys[j+1:], mixin[j:])
""", """	pubKeys := make([]ristretto.Point, 0, len(mixin)+1)
	pubKeys = append(pubKeys, mixin[:j]...)
	pubKeys = append(pubKeys, pK)
	pubKeys = append(pubKeys, mixin[j:]...)
"""))
q("s2-blsag-svals", "C08", (B, """	for i := 0; i < len(sVals); i++ {
		var s ristretto.Scalar
		s.Rand()
		sVals[i] = s
	}
""", """	for i := range sVals {
		sVals[i].Rand()
	}
"""), (B, """	sj.Mul(&cPlus1, &sK).Neg(&sj).Add(&sj, &alpha)
	sVals[j] = sj""", """	sj.Mul(&cPlus1, &sK)
	sVals[j].Sub(&alpha, &sj)"""))
q("s2-blsag-verify-cs-inline", "C09 C08", (B, """		buf := new(bytes.Buffer)
		appendToBuf(buf, m, Ls[i].Bytes(), Rs[i].Bytes())

		var cPlus1 ristretto.Scalar
		cPlus1.Derive(buf.Bytes())

		k := (i + 1) % len(Cs)

		if !Cs[k].Equals(&cPlus1) {
			return false
		}
""", """		k := i + 1
		if k == len(Cs) {
			k = 0
		}
		cPlus1 := challenge(m, &Ls[i], &Rs[i])
		if !cPlus1.Equals(&Cs[k]) {
			return false
		}
"""), (B, """	buf := new(bytes.Buffer)
	appendToBuf(buf, message, L.Bytes(), R.Bytes())
	cPlus1.Derive(buf.Bytes())

	return cPlus1, L, R
}
""", """	cPlus1 = challenge(message, &L, &R)

	return cPlus1, L, R
}

func challenge(message []byte, L, R *ristretto.Point) ristretto.Scalar {
	var c ristretto.Scalar
	var buf bytes.Buffer
	appendToBuf(&buf, message, L.Bytes(), R.Bytes())
	c.Derive(buf.Bytes())
	return c
}
"""))
q("s2-mlsag-verify-checks", "C11", (M, """	numKeys := sig.PubKeys[0].Len()
	for i := range sig.r {
		if sig.PubKeys[i].Len() != numKeys || sig.r[i].Len() != numKeys {
			return false, errors.New("all response and pubkey vectors must be the same size")
		}
	}
	if len(keyImages) > numKeys {
		return false, errors.New("cannot have more key images than pubkeys")
	}
""", """	numKeys := len(sig.r[0])
	if len(keyImages) > numKeys {
		return false, errors.New("cannot have more key images than pubkeys")
	}
	if !sameSize(sig.r, sig.PubKeys, numKeys) {
		return false, errors.New("all response and pubkey vectors must be the same size")
	}
"""), (M, """func generateNonces(""", """func sameSize(r []Responses, keys []PubKeys, n int) bool {
	for i, row := range r {
		if row.Len() != n {
			return false
		}
		if keys[i].Len() != n {
			return false
		}
	}
	return true
}

func generateNonces("""))
q("s2-mlsag-verify-unify", "C11", (M, """	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
		i := k % numUsers
		prevIndex := (i - 1) % numUsers
		if prevIndex < 0 {
			prevIndex = prevIndex + numUsers
		}

		fakeResponses := sig.r[prevIndex]
		decoyPubKeys := sig.PubKeys[prevIndex]
		challenge, err := generateChallenge(sig.Msg, fakeResponses, keyImages, decoyPubKeys, prevChallenge)
		if err != nil {
			return false, err
		}
		prevChallenge = challenge
	}

	// Calculate c'
	prevIndex := (index - 1) % numUsers
	if prevIndex < 0 {
		prevIndex = prevIndex + numUsers
	}
	fakeResponses := sig.r[prevIndex]
	decoyPubKeys := sig.PubKeys[prevIndex]

	challenge, err := generateChallenge(sig.Msg, fakeResponses, keyImages, decoyPubKeys, prevChallenge)
	if err != nil {
		return false, err
	}
""", """	last := numUsers - 1
	for index < last {
		challenge, err := generateChallenge(sig.Msg, sig.r[index], keyImages, sig.PubKeys[index], prevChallenge)
		if err != nil {
			return false, err
		}
		prevChallenge = challenge
		index++
	}

	challenge, err := generateChallenge(sig.Msg, sig.r[last], keyImages, sig.PubKeys[last], prevChallenge)
	if err != nil {
		return false, err
	}
"""))
q("s2-mlsag-prove-previndex", "C10", (M, """		i := k % numUsers

		prevIndex := (i - 1) % numUsers
		if prevIndex < 0 {
			prevIndex = prevIndex + numUsers
		}
		fakeResponses := responses[prevIndex]
		decoyPubKeys := proof.pubKeysMatrix[prevIndex]

		c, err :=""", """		i := k

		prevIndex := (i + numUsers - 1) % numUsers
		fakeResponses, decoyPubKeys := responses[prevIndex], proof.pubKeysMatrix[prevIndex]

		c, err :="""))
q("s2-mlsag-prove-firstchal", "C10", (M, """	// Generate C_{secretIndex+1}
	buf := &bytes.Buffer{}
	buf.Write(proof.msg)
	signersPubKeys := proof.pubKeysMatrix[secretIndex]

	for i := 0; i < len(nonces); i++ {

		nonce := nonces[i]

		// P = nonce * G
		var P ristretto.Point
		P.ScalarMultBase(&nonce)
		_, err = buf.Write(P.Bytes())
		if err != nil {
			return nil, nil, err
		}
	}

	for i := 0; i < len(keyImages); i++ {

		nonce := nonces[i]

		// P = nonce * H(K)
		var P, hK ristretto.Point
		hK.Derive(signersPubKeys.keys[i].Bytes())
		P.ScalarMult(&hK, &nonce)
		_, err = buf.Write(P.Bytes())
		if err != nil {
			return nil, nil, err
		}
	}

	var CjPlusOne ristretto.Scalar
	CjPlusOne.Derive(buf.Bytes())
""", """	// Generate C_{secretIndex+1}
	CjPlusOne := firstChallenge(proof.msg, nonces, len(keyImages), proof.pubKeysMatrix[secretIndex].keys)
"""), (M, """func generateNonces(""", """func firstChallenge(msg []byte, nonces []ristretto.Scalar, numImages int, keys []ristretto.Point) ristretto.Scalar {
	data := append([]byte(nil), msg...)
	for i := range nonces {
		var P ristretto.Point
		P.ScalarMultBase(&nonces[i])
		data = append(data, P.Bytes()...)
	}
	for i := 0; i < numImages; i++ {
		var P ristretto.Point
		P.Derive(keys[i].Bytes())
		P.ScalarMult(&P, &nonces[i])
		data = append(data, P.Bytes()...)
	}
	var c ristretto.Scalar
	return *c.Derive(data)
}

func generateNonces("""))
q("s2-mlsag-equals-len-first", "C12", (M, """	ok := s.c.Equals(&other.c)
	if !ok {
		return ok
	}

	if len(s.r) != len(other.r) {
		return false
	}

	for i := range s.r {
		ok = s.r[i].Equals(other.r[i])
		if !ok {
			return ok
		}
	}

	if !includeKeys {
		return true
	}

	if len(s.PubKeys) != len(other.PubKeys) {
		return false
	}

	for i := 0; i < len(s.PubKeys); i++ {
		ok = s.PubKeys[i].Equals(other.PubKeys[i])
		if !ok {
			return ok
		}
	}
	return true""", """	if len(s.r) != len(other.r) || includeKeys && len(s.PubKeys) != len(other.PubKeys) {
		return false
	}
	if !s.c.Equals(&other.c) {
		return false
	}
	if includeKeys {
		for i := range s.PubKeys {
			if !s.PubKeys[i].Equals(other.PubKeys[i]) {
				return false
			}
		}
	}
	for i, row := range s.r {
		if !row.Equals(other.r[i]) {
			return false
		}
	}
	return true"""))
q("s2-mlsag-decode-rows", "C12", (M, """	s.r = nil
	for i := uint32(0); i < lenR; i++ {
		var responses Responses
		err = responses.Decode(r, numResponses)
		if err != nil {
			return err
		}
		s.r = append(s.r, responses)
	}

	if !decodeKeys {
		return nil
	}
""", """	var rows []Responses
	for uint32(len(rows)) < lenR {
		row := Responses{}
		if err := row.Decode(r, numResponses); err != nil {
			return err
		}
		rows = append(rows, row)
	}
	s.r = rows

	if !decodeKeys {
		return nil
	}
"""))
q("s2-mlsag-encode-buffer", "C12", (M, """	// lenR is the number of response vectors == num users = num pubkey vectors
	lenR := uint32(len(s.r))
	err = binary.Write(w, binary.BigEndian, lenR)
	if err != nil {
		return err
	}

	if lenR <= 0 {
		return nil
	}
""", """	// lenR is the number of response vectors == num users = num pubkey vectors
	var lenR [4]byte
	binary.BigEndian.PutUint32(lenR[:], uint32(len(s.r)))
	if _, err = w.Write(lenR[:]); err != nil {
		return err
	}

	if len(s.r) == 0 {
		return nil
	}
"""))
q("s2-mlsag-resp-append", "C10", (M, """		var resp Responses
		for i := 0; i < n; i++ {
			var r ristretto.Scalar
			r.Rand()
			resp.AddResponse(r)
		}
		matrixResponses = append(matrixResponses, resp)""", """		matrixResponses = append(matrixResponses, Responses(generateNonces(n)))"""))
q("s2-dual-prove-loop", "C10", ("mlsag/dualkey.go", """	if (d.dualkeys[0].IsNonZeroI() == 0) || (d.dualkeys[1].IsNonZeroI() == 0) {
		return nil, ristretto.Point{}, errors.New("primary key or commitment to zero cannot be zero")
	}

	d.AddSecret(d.dualkeys[0])
	d.AddSecret(d.dualkeys[1])
""", """	for i := range d.dualkeys {
		if d.dualkeys[i].IsNonZeroI() == 0 {
			return nil, ristretto.Point{}, errors.New("primary key or commitment to zero cannot be zero")
		}
	}
	for _, key := range d.dualkeys {
		d.AddSecret(key)
	}
"""))
q("s2-mlsag-keyimages", "C10", (M, """	for i := 0; i < len(privKeys); i++ {
		keyImages = append(keyImages, CalculateKeyImage(privKeys[i], pubKeys.keys[i]))
	}

	if !skipLastKeyImage {
		return keyImages
	}

	// Here we assume that there will be atleast one privkey
	// which means there will be atleast one key image
	keyImages = keyImages[:len(keyImages)-1]
	return keyImages""", """	n := len(privKeys)
	if skipLastKeyImage {
		n--
	}
	for i := 0; i < n; i++ {
		keyImages = append(keyImages, CalculateKeyImage(privKeys[i], pubKeys.keys[i]))
	}
	return keyImages"""))
q("s2-vec-zip", "C18 C13", (V, """	if len(a) != len(b) {
		return nil, errors.New("Length of a does not equal b")
	}

	res := make([]ristretto.Scalar, len(a))

	for i := 0; i < len(a); i++ {
		res[i].Add(&a[i], &b[i])
	}

	return res, nil
}
""", """	return zipWith(a, b, (*ristretto.Scalar).Add)
}

func zipWith(a, b []ristretto.Scalar, f func(r, x, y *ristretto.Scalar) *ristretto.Scalar) ([]ristretto.Scalar, error) {
	if len(a) != len(b) {
		return nil, errors.New("Length of a does not equal b")
	}
	res := make([]ristretto.Scalar, len(a))
	for i := range res {
		f(&res[i], &a[i], &b[i])
	}
	return res, nil
}
"""))
q("s2-vec-append", "C18 C14", (V, """	res := make([]ristretto.Scalar, len(a))

	for i := 0; i < len(a); i++ {
		res[i].Mul(&a[i], &b)
	}

	return res
""", """	res := make([]ristretto.Scalar, 0, len(a))
	for _, x := range a {
		var p ristretto.Scalar
		p.Mul(&x, &b)
		res = append(res, p)
	}
	return res
"""))
q("s2-vec-subscalar-neg", "C18 C13", (V, """	res := make([]ristretto.Scalar, len(a))

	for i := 0; i < len(a); i++ {
		res[i].Sub(&a[i], &b)
	}

	return res
""", """	var minus ristretto.Scalar
	minus.Neg(&b)
	return AddScalar(a, minus)
"""))
q("s2-vec-sum-powers", "C18 C14", (V, """	prev := a

	for i := uint64(1); i < n; i++ {
		if i > 1 {
			prev.Mul(&prev, &a)
		}
		res.Add(&res, &prev)
	}

	return res
""", """	var pow ristretto.Scalar
	pow.SetOne()
	for i := uint64(1); i < n; i++ {
		pow.Mul(&pow, &a)
		res.Add(&res, &pow)
	}

	return res
"""))
q("s2-vec-exp-guard", "C18 C16", (V, """	if len(a) < N*M {
		return result, errors.New("length of scalar a is not less than N*M")
	}

	for i := range b {
""", """	need := N * M
	if need > len(b) {
		return result, errors.New("length of scalar a is not less than N*M")
	}

	for i := len(b) - 1; i >= 0; i-- {
"""))
q("s2-vec-split-helper", "C18 C16", (V, """	if len(x) <= 0 {
		return nil, nil, errors.New("Original vector has length of zero")
	}
	if n >= uint32(len(x)) {
		return nil, nil, errors.New("n is larger than the size of the slice x")
	}
	return x[:n], x[n:], nil
}

// SplitScalars""", """	if err := checkSplit(len(x), n); err != nil {
		return nil, nil, err
	}
	left, right := x[:n], x[n:]
	return left, right, nil
}

func checkSplit(size int, n uint32) error {
	switch {
	case size == 0:
		return errors.New("Original vector has length of zero")
	case int(n) >= size:
		return errors.New("n is larger than the size of the slice x")
	}
	return nil
}

// SplitScalars"""))
q("s2-fs-derive-result", "C19 C13", (F, """	var s ristretto.Scalar
	s.Derive(h.Cache)
	return s""", """	s := new(ristretto.Scalar)
	return *s.Derive(h.Result())"""))
q("s2-gen-bulk", "C17 C14", (G, """	for i := uint32(0); i < num; i++ {
		g.Bases = append(g.Bases, g.Iterate())
	}
""", """	for want := len(g.Bases) + int(num); len(g.Bases) < want; {
		next := g.Iterate()
		g.Bases = append(g.Bases, next)
	}
"""))
q("s2-gen-seed", "C17 C14", (G, """	p := ristretto.Point{}

	if len(g.Bases) == 0 {
		p.Derive(g.data)
		return p
	}

	prevPoint := g.Bases[len(g.Bases)-1]
	p.Derive(prevPoint.Bytes())

	return p""", """	seed := g.data
	if n := len(g.Bases); n > 0 {
		seed = g.Bases[n-1].Bytes()
	}
	var p ristretto.Point
	p.Derive(seed)
	return p"""))
q("s2-ped-scalars-acc", "C17 C13", (P, """	if len(p.BaseVector.Bases) < n {

		diff := n - len(p.BaseVector.Bases)

		p.BaseVector.Compute(uint32(diff))
		// num of scalars to commit should be equal or less than the number of precomputed generators
	}

	for i := 0; i < n; i++ {

		bi := scalars[i]

		Hi := p.BaseVector.Bases[i]

		// H_i * b_i
		product := ristretto.Point{}
		product.ScalarMult(&Hi, &bi)

		sum.Add(&sum, &product)
	}
""", """	if missing := n - len(p.BaseVector.Bases); missing > 0 {
		p.BaseVector.Compute(uint32(missing))
	}

	var product ristretto.Point
	for i := range scalars {
		sum.Add(&sum, product.ScalarMult(&p.BaseVector.Bases[i], &scalars[i]))
	}
"""))
q("s2-ped-equals", "C17 C15", (P, """	return c.EqualValue(other) && c.BlindingFactor.Equals(&other.BlindingFactor)""", """	if !c.BlindingFactor.Equals(&other.BlindingFactor) {
		return false
	}
	return c.EqualValue(other)"""))
q("s2-ped-vectors-gens", "C17 C13", (P, """	for i, vector := range vectors {
		if i == 0 {

			// Commit to vector + blinding factor
			commit := p.commitToScalars(&blind, vector...)
			sum.Add(&sum, &commit)
		} else {

			// copy: appending in place could write into the caller's array
			genData := append([]byte{}, p.GenData...)
			genData = append(genData, uint8(i))
			ped2 := New(genData)

			commit := ped2.commitToScalars(nil, vector...)
			sum.Add(&sum, &commit)
		}
	}
""", """	for i, vector := range vectors {
		ped, r := p, &blind
		if i > 0 {
			genData := make([]byte, len(p.GenData)+1)
			copy(genData, p.GenData)
			genData[len(p.GenData)] = uint8(i)
			ped, r = New(genData), nil
		}
		commit := ped.commitToScalars(r, vector...)
		sum.Add(&sum, &commit)
	}
"""))
q("s2-bit-mask", "C20 C13", (BC, """		var rem uint64

		rem = num % 2
		num = num >> 1

		if rem == 0 {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
		} else {
			bc.AL[i] = one
			bc.AR[i] = zero
		}
""", """		if (num>>uint(i))&1 == 1 {
			bc.AL[i], bc.AR[i] = one, zero
			continue
		}
		bc.AL[i], bc.AR[i] = zero, minusOne
"""))
q("s2-bit-debug-shift", "C20", (BC, """		var basePow, e = big.NewInt(2), big.NewInt(int64(i))
		basePow.Exp(basePow, e, nil)
""", """		basePow := new(big.Int).Lsh(big.NewInt(1), uint(i))
"""))
q("s2-rp-pad-make", "C13", (R, """	padAmount := innerproduct.DiffNextPow2(uint32(m))
	m = m + int(padAmount)
	// work on a copy: appending in place could write into the caller's array
	v = append(make([]ristretto.Scalar, 0, m), v...)
	for i := uint32(0); i < padAmount; i++ {
		var zeroScalar ristretto.Scalar
		zeroScalar.SetZero()
		v = append(v, zeroScalar)
	}
""", """	m += int(innerproduct.DiffNextPow2(uint32(m)))
	// the rest stays zero
	padded := make([]ristretto.Scalar, m)
	copy(padded, v)
	v = padded
"""))
q("s2-rp-bits-loop", "C13", (R, """	for _, amount := range v {
		// compute commmitment to v
		V := ped.CommitToScalar(amount)

		Vs = append(Vs, V)

		// update Fiat-Shamir
		hs.Append(V.Value.Bytes())
	}

	aLs := make([]ristretto.Scalar, 0, N*m)
	aRs := make([]ristretto.Scalar, 0, N*m)

	for i := range v {
		// Compute Bitcommits aL and aR to v
		BC := BitCommit(v[i].BigInt())
		aLs = append(aLs, BC.AL...)
		aRs = append(aRs, BC.AR...)
	}
""", """	var aLs, aRs []ristretto.Scalar
	for i := range v {
		V := ped.CommitToScalar(v[i])
		hs.Append(V.Value.Bytes())
		Vs = append(Vs, V)

		bits := BitCommit(v[i].BigInt())
		aLs = append(aLs, bits.AL...)
		aRs = append(aRs, bits.AR...)
	}
"""))
q("s2-rp-verify-shape", "C14", (R, """	if p.IPProof == nil || len(p.IPProof.L) > 31 || 1<<uint(len(p.IPProof.L)) != N*m {
		return false, errors.New("inner product proof does not match the number of commitments")
	}
""", """	if p.IPProof == nil {
		return false, errors.New("no inner product proof")
	}
	rounds := 0
	for size := N * m; size > 1; size >>= 1 {
		rounds++
	}
	if len(p.IPProof.L) != rounds {
		return false, errors.New("inner product proof does not match the number of commitments")
	}
"""))
q("s2-rp-verify-bases", "C14", (R, """	genData := []byte("dusk.BulletProof.vec1")
	ped := pedersen.New(genData)
	ped.BaseVector.Compute(uint32(N * m))

	genData = append(genData, uint8(1))

	ped2 := pedersen.New(genData)
	ped2.BaseVector.Compute(uint32(N * m))

	G := ped.BaseVector.Bases
	H := ped2.BaseVector.Bases

	// Reconstruct""", """	ped, G, H := bases(m)

	// Reconstruct"""), (R, """func megacheckWithC(""", """func bases(m int) (*pedersen.Pedersen, []ristretto.Point, []ristretto.Point) {
	size := uint32(N * m)
	first := pedersen.New([]byte("dusk.BulletProof.vec1"))
	first.BaseVector.Compute(size)
	second := pedersen.New(append([]byte("dusk.BulletProof.vec1"), 1))
	second.BaseVector.Compute(size)
	return first, first.BaseVector.Bases, second.BaseVector.Bases
}

func megacheckWithC("""))
q("s2-rp-mega-reverse", "C14", (R, """	sInv := make([]ristretto.Scalar, len(s))
	copy(sInv, s)

	// reverse s
	for i, j := 0, len(sInv)-1; i < j; i, j = i+1, j-1 {
		sInv[i], sInv[j] = sInv[j], sInv[i]
	}

	// g vector""", """	sInv := make([]ristretto.Scalar, len(s))
	for i := range s {
		sInv[len(s)-1-i] = s[i]
	}

	// g vector"""))
q("s2-rp-mega-powers", "C14", (R, """	zM := vector.ScalarPowers(z, uint32(m))
	var zSq ristretto.Scalar
	zSq.Square(&z)
	zM = vector.MulScalar(zM, zSq)
	c9.SetZero()
	for i := range zM {
		var temp ristretto.Point
		temp.PublicScalarMult(&V[i].Value, &zM[i])
		c9.Add(&c9, &temp)
	}
""", """	var zPow ristretto.Scalar
	zPow.Square(&z)
	c9.SetZero()
	for i := 0; i < m; i++ {
		var temp ristretto.Point
		temp.ScalarMult(&V[i].Value, &zPow)
		c9.Add(&c9, &temp)
		zPow.Mul(&zPow, &z)
	}
"""))
q("s2-rp-s-fill", "C13", (R, """	for i := 0; i < N*m; i++ {
		var randA ristretto.Scalar
		randA.Rand()
		sL[i] = randA

		var randB ristretto.Scalar
		randB.Rand()
		sR[i] = randB
	}
""", """	for i := range sL {
		sL[i].Rand()
	}
	for i := range sR {
		sR[i].Rand()
	}
"""))
q("s2-rp-equals-switch", "C15", (R, """	ok := p.A.Equals(&other.A)
	if !ok {
		return ok
	}
	ok = p.S.Equals(&other.S)
	if !ok {
		return ok
	}
	ok = p.T1.Equals(&other.T1)
	if !ok {
		return ok
	}
	ok = p.T2.Equals(&other.T2)
	if !ok {
		return ok
	}
""", """	mine := [...]*ristretto.Point{&p.A, &p.S, &p.T1, &p.T2}
	theirs := [...]*ristretto.Point{&other.A, &other.S, &other.T1, &other.T2}
	for i, pt := range mine {
		if !pt.Equals(theirs[i]) {
			return false
		}
	}
	var ok bool
"""))
q("s2-rp-encode-writer", "C15", (R, """	err := binary.Write(w, binary.BigEndian, p.A.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.S.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.T1.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.T2.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.taux.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.mu.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.t.Bytes())
	if err != nil {
		return err
	}
	return p.IPProof.Encode(w)""", """	write := func(b []byte) error {
		_, err := w.Write(b)
		return err
	}
	for _, b := range [][]byte{p.A.Bytes(), p.S.Bytes(), p.T1.Bytes(), p.T2.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes()} {
		if err := write(b); err != nil {
			return err
		}
	}
	return p.IPProof.Encode(w)"""))
q("s2-rp-poly-t1", "C13", (PO, """	var t1 ristretto.Scalar
	t1.Add(&t1Left, &t1Right)

	// calculate t2 // t_2 = <l_1, r_1>
	t2, err := vector.InnerProduct(l1, r1)
	if err != nil {
		return nil, errors.Wrap(err, "[ComputePoly] - t2")
	}
	return &polynomial{
		l0: l0,
		l1: l1[:],
		r0: r0,
		r1: r1,
		t0: t0,
		t1: t1,
		t2: t2,
	}, nil""", """	t2, err := vector.InnerProduct(l1, r1)
	if err != nil {
		return nil, errors.Wrap(err, "[ComputePoly] - t2")
	}

	p := new(polynomial)
	p.l0, p.l1 = l0, l1
	p.r0, p.r1 = r0, r1
	p.t0, p.t2 = t0, t2
	p.t1.Add(&t1Right, &t1Left)
	return p, nil"""))
q("s2-rp-eval-horner", "C13", (PO, """	var t1x ristretto.Scalar
	t1x.Mul(&x, &p.t1)

	var xsq ristretto.Scalar
	xsq.Square(&x)

	var t2xsq ristretto.Scalar
	t2xsq.Mul(&xsq, &p.t2)

	var t ristretto.Scalar
	t.Add(&t1x, &t2xsq)
	t.Add(&t, &p.t0)

	return t""", """	var t ristretto.Scalar
	t.MulAdd(&p.t2, &x, &p.t1)
	t.MulAdd(&t, &x, &p.t0)
	return t"""))
q("s2-rp-sumz-append", "C13 C14", (PO, """	res := make([]ristretto.Scalar, N*m)

	zM := vector.ScalarPowers(z, uint32(m+3))

	var two ristretto.Scalar
	two.SetBigInt(big.NewInt(2))
	twoN := vector.ScalarPowers(two, N)

	for i := 0; i < m*N; i++ {
		res[i].SetZero()
		for j := 1; j <= m; j++ {
			if (i >= (j-1)*N) && (i < j*N) {
				res[i].MulAdd(&zM[j+1], &twoN[i-(j-1)*N], &res[i])
			}
		}

	}
	return res
""", """	res := make([]ristretto.Scalar, 0, N*m)

	var two ristretto.Scalar
	two.SetBigInt(big.NewInt(2))
	twoN := vector.ScalarPowers(two, N)

	zj := z
	for j := 0; j < m; j++ {
		zj.Mul(&zj, &z)
		res = append(res, vector.MulScalar(twoN, zj)...)
	}
	return res
"""))
q("s2-rp-taux-horner", "C13", (R, """	var zN ristretto.Scalar
	zN.Square(&z) // start at zSq

	var zNBlindSum ristretto.Scalar
	zNBlindSum.SetZero()

	for i := range vBlinds {
		zNBlindSum.MulAdd(&zN, &vBlinds[i].BlindingFactor, &zNBlindSum)
		zN.Mul(&zN, &z)
	}
""", """	// Horner: z^2 * (b_0 + z * (b_1 + ...))
	var zNBlindSum ristretto.Scalar
	for i := len(vBlinds) - 1; i >= 0; i-- {
		zNBlindSum.MulAdd(&zNBlindSum, &z, &vBlinds[i].BlindingFactor)
	}
	zNBlindSum.Mul(&zNBlindSum, &z)
	zNBlindSum.Mul(&zNBlindSum, &z)
"""))
q("s2-rp-hprime-running", "C13", (R, """	var yInv ristretto.Scalar
	yInv.Inverse(&y)

	invYInt := yInv.BigInt()

	for i, p := range H {
		// compute y^-i
		var invYPowInt big.Int
		invYPowInt.Exp(invYInt, big.NewInt(int64(i)), nil)

		var invY ristretto.Scalar
		invY.SetBigInt(&invYPowInt)

		var hprime ristretto.Point
		hprime.ScalarMult(&p, &invY)

		Hprimes[i] = hprime
	}
""", """	var yInv, pow ristretto.Scalar
	yInv.Inverse(&y)
	pow.SetOne()

	for i := range H {
		Hprimes[i].ScalarMult(&H[i], &pow)
		pow.Mul(&pow, &yInv)
	}
"""), (R, """	"math/big"
""", ""))
q("s2-ip-verifscalars-onepass", "C16 C14", (I, """	// 1. compute x's
	xChals := make([]ristretto.Scalar, 0, lgN)
	for k := range proof.L {
		hs.Append(proof.L[k].Bytes(), proof.R[k].Bytes())
		xChals = append(xChals, hs.Derive())
	}

	// 2. compute inverse of x's
	invXChals := make([]ristretto.Scalar, 0, lgN)

	var invProd ristretto.Scalar // this will be the product of all of the inverses
	invProd.SetOne()

	for k := range xChals {

		var xinv ristretto.Scalar
		xinv.Inverse(&xChals[k])

		invProd.Mul(&invProd, &xinv)

		invXChals = append(invXChals, xinv)
	}

	// 3. compute x^2 and inv(x)^2
	chalSq := make([]ristretto.Scalar, 0, lgN)
	invChalSq := make([]ristretto.Scalar, 0, lgN)

	for k := range xChals {
		var sq ristretto.Scalar
		var invSq ristretto.Scalar

		sq.Square(&xChals[k])
		invSq.Square(&invXChals[k])

		chalSq = append(chalSq, sq)
		invChalSq = append(invChalSq, invSq)
	}
""", """	chalSq := make([]ristretto.Scalar, lgN)
	invChalSq := make([]ristretto.Scalar, lgN)

	var invProd ristretto.Scalar // this will be the product of all of the inverses
	invProd.SetOne()

	for k := 0; k < lgN; k++ {
		hs.Append(proof.L[k].Bytes(), proof.R[k].Bytes())
		x := hs.Derive()

		var xinv ristretto.Scalar
		xinv.Inverse(&x)
		invProd.Mul(&invProd, &xinv)

		chalSq[k].Square(&x)
		invChalSq[k].Square(&xinv)
	}
"""))
q("s2-ip-verify-direct", "C16", (I, """	negUSq := make([]ristretto.Scalar, len(uSq))
	for i := range negUSq {
		negUSq[i].Neg(&uSq[i])
	}

	negUInvSq := make([]ristretto.Scalar, len(uInvSq))
	for i := range negUInvSq {
		negUInvSq[i].Neg(&uInvSq[i])
	}
""", """	negUSq := vector.Neg(uSq)
	negUInvSq := vector.Neg(uInvSq)
"""))
q("s2-ip-lr-helper", "C16 C13", (I, """		var e3 ristretto.Point
		e3.ScalarMult(&Q, &cL)

		var L ristretto.Point
		L.SetZero()
		L.Add(&e1, &e2)
		L.Add(&L, &e3)

		Lj = append(Lj, L)

		// R = aR * GL + bL * HR + cR * Q = e4 + e5 + e6
""", """		L := addScaled(&e1, &e2, &Q, &cL)
		Lj = append(Lj, L)

		// R = aR * GL + bL * HR + cR * Q = e4 + e5 + e6
"""), (I, """// VerifScalars generates""", """func addScaled(a, b, q *ristretto.Point, c *ristretto.Scalar) ristretto.Point {
	var res ristretto.Point
	res.ScalarMult(q, c)
	res.Add(&res, a)
	res.Add(&res, b)
	return res
}

// VerifScalars generates"""))
q("s2-ip-equals-loop", "C15", (I, """	for i := range proof.L {
		if ok := proof.L[i].Equals(&other.L[i]); !ok {
			return false
		}
	}

	for i := range proof.R {
		if ok := proof.R[i].Equals(&other.R[i]); !ok {
			return false
		}
	}

	return true""", """	return samePoints(proof.L, other.L) && samePoints(proof.R, other.R)
}

func samePoints(a, b []ristretto.Point) bool {
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true"""))
q("s2-ip-decode-step", "C15", (I, """	for i := uint32(0); i < lenL; i++ {
		var LBytes, RBytes [32]byte
		err = binary.Read(buf, binary.BigEndian, &LBytes)
		if err != nil {
			return err
		}
		err = binary.Read(buf, binary.BigEndian, &RBytes)
		if err != nil {
			return err
		}
		if !proof.L[i].SetBytes(&LBytes) || !proof.R[i].SetBytes(&RBytes) {
			return errors.New("point not encodable")
		}
	}
""", """	data := buf.Bytes()
	for i := range proof.L {
		var LBytes, RBytes [32]byte
		copy(LBytes[:], data[64*i:64*i+32])
		copy(RBytes[:], data[64*i+32:64*i+64])
		if !proof.L[i].SetBytes(&LBytes) {
			return errors.New("point not encodable")
		}
		if !proof.R[i].SetBytes(&RBytes) {
			return errors.New("point not encodable")
		}
	}
"""))
q("s2-ip-generate-copies", "C16 C13", (I, """	a := make([]ristretto.Scalar, len(aVec))
	copy(a, aVec)
	b := make([]ristretto.Scalar, len(bVec))
	copy(b, bVec)
	G := make([]ristretto.Point, len(GVec))
	copy(G, GVec)
	H := make([]ristretto.Point, len(HVec))
	copy(H, HVec)
""", """	a := append([]ristretto.Scalar(nil), aVec...)
	b := append([]ristretto.Scalar(nil), bVec...)
	G := append([]ristretto.Point(nil), GVec...)
	H := append([]ristretto.Point(nil), HVec...)
"""))
q("s2-ip-checks-order", "C16", (I, """	if !isPower2(uint32(n)) {
		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
	}

	if n == 0 || len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) != len(GVec) {
		return nil, errors.New("[IPProof]: vectors must be non-empty and of the same size")
	}
""", """	if n == 0 {
		return nil, errors.New("[IPProof]: vectors must be non-empty")
	}
	for _, size := range []int{len(HVec), len(aVec), len(bVec), len(HprimeFactors)} {
		if size != len(GVec) {
			return nil, errors.New("[IPProof]: vectors must be of the same size")
		}
	}
	if n&(n-1) != 0 {
		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
	}
"""))
q("s2-ip-diffpow2-loop", "C20 C13", (I, """	pow2 := nextPow2(uint(n))
	padAmount := uint32(pow2) - n + 1
	return padAmount""", """	p := uint32(1)
	for p < n {
		p <<= 1
	}
	return p - n"""))
q("s2-debug-prove", "C13", (D, """	for i := range v {

		ok = debugsizeOfV(v[i].BigInt())
		if !ok {
			return errors.New("[DEBUG]: Value v is more than 2^N - 1")
		}
	}
""", """	for _, value := range v {
		if value.BigInt().BitLen() > N {
			return errors.New("[DEBUG]: Value v is more than 2^N - 1")
		}
	}
"""))
