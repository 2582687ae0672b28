"""writes properties.jsonl"""
import json, sys
P = []


def p(id, title, statement, over, text, why, files, mech):
    if len(title) > 80:
        print(len(title), title)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


p("C01", "BLS: a signature is accepted exactly when the pairing equation holds",
  "Verifying a BLS signature against an aggregated public key (or an unsafe signature against a plain public key) returns success if and only if e(signature, g2) = e(H(message), key), for every key, message and signature. "
  "Every signature produced with the secret key of a key pair - safe or unsafe - is the hash of the message times the secret (for the safe kind also times the hash of the public key) and is accepted for that key and message. "
  "A generated key pair is a freshly sampled secret, drawn from the given source of randomness, with its public key g2 times that secret.",
  ["inputs"], "all secret keys, public keys, messages of any length and group elements",
  "The tests sign and verify a few messages with random keys and one wrong-message case; they cannot cover every message length, key and signature, nor the direction 'equation fails implies rejected'.",
  ["bls/bls.go"], [("Sign/UnsafeSign and Verify/VerifyUnsafe", "bls/bls.go: Sign, UnsafeSign, Verify, VerifyUnsafe, verify"), ("hash to the curve", "bls/bls.go: h0, h1"), ("key generation", "bls/bls.go: GenKeyPair")])
p("C02", "BLS: aggregates are exactly the prescribed sums",
  "An aggregated public key is the sum of every key multiplied by the hash of that key, whatever the number and order of keys and whether they are added at once, one at a time, or in serialised form; an aggregated signature is the sum of the parts, with an unsafe signature first multiplied by the hash of its signer's key. "
  "An aggregated signature of several signers on one message is accepted under the aggregate of exactly their keys. "
  "Aggregating never changes any operand other than the receiver being accumulated into.",
  ["inputs", "histories"], "all numbers and orders of keys and signatures and all sequences of aggregation calls",
  "Tests aggregate two or three random keys; the rogue-key protection (the hash factor on every key, in every path) must hold for every count, order and path.",
  ["bls/bls.go"], [("key aggregation", "bls/bls.go: NewApk, AggregateApk, Apk.Aggregate, Apk.AggregateBytes, pkt, PublicKey.Aggregate"), ("signature aggregation", "bls/bls.go: Signature.Aggregate, Signature.AggregateBytes, Signature.Add, UnsafeAggregate, UnsafeBatch, apkSigWrap")])
p("C03", "BLS: batches pass only with matching counts, distinct messages, exact product",
  "Batch verification (safe, unsafe and of a compressed signature) returns success if and only if there is at least one message, there are exactly as many messages as keys, the messages are pairwise distinct (unless the caller of the compressed form explicitly allows repetition), and e(signature, g2) is the product of e(H(message_i), key_i) over all i. "
  "Every other combination of counts, messages, keys and signature is rejected with an error and never a panic.",
  ["inputs"], "all lists of keys and messages of any length, all signatures",
  "Tests cover a small batch and one repeated message; distinctness of every pair, count mismatches and every position of the product are not sampled.",
  ["bls/bls.go"], [("batch verification", "bls/bls.go: verifyBatch, VerifyBatch, VerifyUnsafeBatch, VerifyCompressed"), ("distinctness", "bls/bls.go: distinct")])
p("C04", "BLS: serialised keys and signatures round-trip; malformed ones are errors",
  "Serialising a public key, aggregated key or signature (binary, text or compressed form) and reading it back yields the same group element, and what is read is always the element the bytes denote. "
  "Bytes that do not encode a valid element - too short, of the wrong length for the compressed form, not on the curve, not valid text - are rejected with an error, never a panic and never a partly filled value returned as good. "
  "A copy of a key or signature is equal to the original and shares no memory with it.",
  ["inputs"], "all group elements other than the identity, all byte strings",
  "Tests round-trip a few random values; malformed input of every length and the independence of copies under later mutation are not covered.",
  ["bls/bls.go"], [("serialisation", "bls/bls.go: Marshal, Unmarshal, MarshalText, UnmarshalText, Compress, Decompress, UnmarshalPk, UnmarshalApk, UnmarshalSignature"), ("copies", "bls/bls.go: Apk.Copy, Signature.Copy")])
p("C05", "Hash helpers return the named digest of exactly their input",
  "Each hashing helper returns, for every byte string, the digest of exactly those bytes under the algorithm it is named after (full length, no state carried between calls) in memory of its own; hashing with a caller-supplied hash state returns the digest of what that state already held followed by the data. "
  "The checksum is the big-endian value of the first four bytes of the 64-bit xxHash digest, and the comparison is true if and only if the wanted value equals it. "
  "The entropy helper returns exactly the requested number of bytes from the cryptographic random source, or an error.",
  ["inputs", "histories"], "all byte strings, all wanted values, all lengths",
  "Tests compare a handful of fixed digests; they cannot settle that every input and every byte of it is covered.",
  ["hash/hash.go"], [("digests", "hash/hash.go: PerformHash, Sha3256, Sha3512, Blake2b256, Blake2b512, Xxhash"), ("checksum", "hash/hash.go: Checksum, CompareChecksum"), ("entropy", "hash/hash.go: RandEntropy")])
p("C06", "Merkle tree: the root is the prescribed function of all payloads in order",
  "For every non-empty list of payloads the tree's root is the SHA3-256 Merkle hash of the payload hashes in order, an odd last node at any level being paired with itself; building from the same payloads always gives the same root. "
  "Rebuilding a tree from its own leaves keeps the root, and rebuilding it from other payloads gives exactly the tree those payloads would give. "
  "An empty list, or a payload whose hash fails, is an error and leaves no half-built tree.",
  ["inputs", "histories"], "all lists of payloads of any length",
  "Tests use four fixed small payload tables; the padding rule at every level and every length, and rebuild after rebuild, are not enumerated.",
  ["merkletree/merkletree.go"], [("construction", "merkletree/merkletree.go: NewTree, create, createIntermediate, concat"), ("rebuilding", "merkletree/merkletree.go: RebuildTree, RebuildTreeUsing")])
p("C07", "Merkle tree: verification answers truthfully about integrity and membership",
  "Verifying a tree answers true if and only if recomputing the hashes bottom-up from the leaf payloads gives the stored root, whatever has been altered in the tree. "
  "Asking for a payload in a freshly built tree answers true if and only if a payload with an equal hash is among the leaves - at any position, including a duplicated last one. "
  "Once payloads or stored hashes have been altered, membership is answered true only if some leaf has an equal hash and every stored hash from its parent up to the root node is still the hash of what its children give.",
  ["inputs", "histories"], "all trees and alterations of them, all queried payloads",
  "Tests corrupt one root and query one payload per table; every node of every shape of tree has to be covered.",
  ["merkletree/merkletree.go"], [("integrity", "merkletree/merkletree.go: VerifyTree, VerifyNode, CalculateNodeHash"), ("membership", "merkletree/merkletree.go: VerifyContent, equals")])
p("C08", "bLSAG: every signature over any ring verifies and carries the signer's key image",
  "Signing any message with any secret key and any (possibly empty) list of decoy keys yields a ring of exactly the decoys plus the signer's key, one response per member, and a signature that verifies for that message. "
  "The key image is the secret times the hash-to-point of the signer's public key - the same for every message and every ring - and every response is blinded by or consists of randomness sampled for this signature. "
  "The caller's slice of decoy keys is left as it was.",
  ["inputs", "schedules"], "all messages, secret keys, decoy lists and positions of the signer in the ring",
  "The position of the signer is chosen at random, so a test samples one position of one ring size per run; the tests use one ring size.",
  ["ringsig/blsag/blsag.go"], [("signing", "ringsig/blsag/blsag.go: Sign, computeCLR")])
p("C09", "bLSAG: verification accepts exactly a closed ring; malformed input is false",
  "Verification answers true if and only if the ring is non-empty, has exactly one response per public key, and recomputing every member's challenge from the message, key image, keys and responses in order leads back to the stored challenge. "
  "Any other signature - including one with missing or surplus keys or responses - yields false without a panic. "
  "Verification does not modify the signature.",
  ["inputs"], "all messages and all values of every field of a signature",
  "Tests verify one honest signature and one altered field.",
  ["ringsig/blsag/blsag.go"], [("verification", "ringsig/blsag/blsag.go: Verify, computeCLR")])
p("C10", "MLSAG: proofs by a dual-key owner verify, for every ring size and position",
  "With two non-zero secrets set and any number of two-key decoys added (also none), proving succeeds and yields a ring of exactly the decoys plus the signer, a key image equal to the primary secret times the hash-to-point of its public key, fresh randomness in every response, and a signature that verifies with that key image; a point subtracted from the second key of every decoy shows up so in the ring. "
  "A zero secret, or a decoy with another number of keys, is refused with an error. "
  "The caller's decoy keys are never modified by adding them, subtracting from them or proving.",
  ["inputs", "schedules", "histories"], "all secrets, messages, decoy lists and shuffled positions of the signer",
  "The signer's position is random and the tests use one ring size; aliasing of decoy keys and the refusals are not covered for every shape.",
  ["mlsag/mlsag.go", "mlsag/dualkey.go", "mlsag/proof.go", "mlsag/pubkeys.go"], [("proving", "mlsag/mlsag.go: prove, generateNonces, generateResponses, generateChallenge, calculateKeyImages"), ("dual key", "mlsag/dualkey.go: SetPrimaryKey, SetCommToZero, SubCommToZero, Prove"), ("decoys", "mlsag/proof.go: AddDecoy, AddSecret, shuffleSet")])
p("C11", "MLSAG: verification accepts exactly a closed ring; malformed input is an error",
  "Verification returns true without error if and only if the signature has at least one member, the same number of response rows as members, the same number of keys and responses in every row, at least one and at most that many key images, and recomputing the challenge chain from the message, key images, keys and responses returns to the stored challenge. "
  "Every other signature or list of key images gives false with an error, never a panic. "
  "Verification modifies neither the signature nor the key images.",
  ["inputs"], "all messages, key images and shapes and values of a signature",
  "Tests verify honest signatures and a couple of corruptions of one shape.",
  ["mlsag/mlsag.go"], [("verification", "mlsag/mlsag.go: Verify, generateChallenge")])
p("C12", "MLSAG: encoding round-trips, equality is exact, hostile streams are errors",
  "Encoding any well-formed signature (with or without its keys) and decoding it from a stream that continues afterwards gives back an equal signature and consumes exactly the encoding; a failing writer makes encoding fail. "
  "Decoding a truncated stream, an invalid point or a count that the stream does not back up returns an error without panicking and without reserving memory in proportion to the claimed count. "
  "Two signatures compare equal if and only if challenge, all responses and - when asked for - all keys agree in number, order and value.",
  ["inputs", "fault_sequences"], "all signatures, all byte streams, all points of failure of the writer",
  "Tests round-trip one signature; every truncation point, every count in the header and every differing field are out of reach.",
  ["mlsag/mlsag.go", "mlsag/pubkeys.go", "mlsag/responses.go"], [("codec", "mlsag/mlsag.go: Encode, Decode; mlsag/pubkeys.go and mlsag/responses.go: Encode, Decode"), ("equality", "mlsag/mlsag.go, pubkeys.go, responses.go: Equals")])
p("C13", "Range proof: proving any 1 to 16 values below 2^64 gives a proof that verifies",
  "For every list of 1 to 16 values below 2^64 proving succeeds, with and without the debugging self-checks, and the proof verifies; the number of commitments is the number of values padded with zeros to a power of two, and each opens to its value with its blinding factor. "
  "The blinding vectors and factors are sampled freshly for each proof. "
  "No values, or more than 16, is an error, and the caller's values are left as they were.",
  ["inputs"], "all lists of values and all random choices",
  "Tests prove random values for a few counts; boundary values, each padding amount and each debug setting cannot be settled by sampling.",
  ["rangeproof/rangeproof.go", "rangeproof/poly.go", "rangeproof/bitCommitment.go", "rangeproof/innerproduct/innerproduct.go"], [("proving", "rangeproof/rangeproof.go: Prove, computeA, computeS, computeTaux, computeMu"), ("polynomials", "rangeproof/poly.go: computePoly, computeL, computeR, sumZMTwoN, computeDelta"), ("self-checks", "rangeproof/debug.go")])
p("C14", "Range proof: verification accepts exactly what satisfies both equations",
  "Verification returns true without error exactly when the number of commitments is a power of two from 1 to 16, the inner-product proof has the matching number of rounds, and both Bulletproof equations - the commitment of the polynomial value and the inner-product relation - hold for the challenges derived from the proof's own contents; anything else gives false with an error and no panic. "
  "Every commitment, point and scalar of the proof takes part in those equations. "
  "The answer does not depend on what was proved or verified before.",
  ["inputs", "histories"], "all proofs (every field arbitrary) and all call histories",
  "Tests verify honest proofs; that a change of any single component is rejected cannot be settled by sampling, since rejection has to follow from the equations for all values.",
  ["rangeproof/rangeproof.go", "rangeproof/poly.go"], [("verification", "rangeproof/rangeproof.go: Verify, megacheckWithC"), ("shared terms", "rangeproof/poly.go: sumZMTwoN, computeDelta"), ("verification scalars", "rangeproof/innerproduct/innerproduct.go: VerifScalars")])
p("C15", "Range proof: encoding round-trips, equality is exact, hostile streams are errors",
  "Encoding a range proof (with or without its commitments) and decoding the bytes gives a proof that compares equal in every encoded component, and so do the encodings of commitments and of inner-product proofs; a failing writer makes encoding fail. "
  "Truncated streams, invalid points and commitment counts not backed by data are errors, without a panic and without reserving memory in proportion to the claimed count. "
  "Two proofs (or commitments) compare equal if and only if all their components - commitments only when asked for - agree in number, order and value.",
  ["inputs", "fault_sequences"], "all proofs, all byte streams, all points of failure of the writer",
  "Tests round-trip one proof; truncation points, counts and every differing field are out of reach.",
  ["rangeproof/rangeproof.go", "rangeproof/innerproduct/innerproduct.go", "rangeproof/pedersen/pedersen.go"], [("codec", "rangeproof/rangeproof.go, innerproduct.go, pedersen.go: Encode, Decode, EncodeCommitments, DecodeCommitments"), ("equality", "rangeproof/rangeproof.go, innerproduct.go, pedersen.go: Equals, EqualValue")])
p("C16", "Inner-product proofs: complete, verified by the exact equation, sizes checked",
  "For vectors of any power-of-two length, generating an inner-product proof succeeds, has log2(length) rounds, leaves the inputs untouched and verifies against the commitment <a,G> + <b,H'> + <a,b>Q, where H' is H scaled by the given factors. "
  "Verification answers true if and only if that equation, folded with the challenges derived from the proof's round points, holds. "
  "Empty vectors, lengths that differ or that are not a power of two are refused with an error.",
  ["inputs"], "all vectors, generators and factors of every power-of-two length",
  "Tests use one length with random vectors.",
  ["rangeproof/innerproduct/innerproduct.go"], [("generation", "rangeproof/innerproduct/innerproduct.go: Generate"), ("verification", "rangeproof/innerproduct/innerproduct.go: Verify, VerifScalars")])
p("C17", "Pedersen commitments and generators are the prescribed deterministic functions",
  "Committing to a value v returns v times the value base plus r times the blinding base with r sampled freshly and returned; committing to vectors returns r times the blinding base plus the inner product of each vector with the generators of its own index, each family derived from the seed data. "
  "The generators derived from a seed form one fixed chain - the first is the hash-to-point of the seed, each next one of its predecessor - however many are computed at a time. "
  "Equal commitments have equal points, and full equality also compares the blinding factors; committing does not alter the caller's data.",
  ["inputs", "histories"], "all values, vectors (up to 255 of them), seeds and sequences of generator requests",
  "Tests commit to a few scalars and compare against the same library calls.",
  ["rangeproof/pedersen/pedersen.go", "rangeproof/generators/generator.go"], [("commitments", "rangeproof/pedersen/pedersen.go: New, CommitToScalar, CommitToVectors, commitToScalars, EqualValue, Equals"), ("generators", "rangeproof/generators/generator.go: New, Iterate, Compute, Clear")])
p("C18", "Vector operations compute their algebraic definition for every length",
  "Each vector operation (add, subtract, negate, scale, add or subtract a scalar, entrywise product, inner product, multi-exponentiation, powers of a non-zero base, sum of powers, repetition, splitting) returns exactly what its definition prescribes, entry by entry, for every length including zero. "
  "Operands of different lengths, or a split point outside the vector, are an error and never a panic. "
  "No operation changes its operands.",
  ["inputs"], "all vectors of all lengths and all scalars",
  "Tests use vectors of a few small integers.",
  ["rangeproof/vector/vector.go"], [("vector operations", "rangeproof/vector/vector.go: Add, AddScalar, Sub, Neg, SubScalar, MulScalar, InnerProduct, Exp, ScalarPowers, ScalarPowersSum, Hadamard, FromScalar, SplitPoints, SplitScalars")])
p("C19", "Fiat-Shamir transcript is exactly what was appended; challenges hash all of it",
  "After any sequence of appends (of any number of byte strings, also empty ones) the transcript is the concatenation of everything appended since it was created or last cleared, in order, and the derived challenge is the hash-to-scalar of exactly that. "
  "Later changes by the caller to an appended byte string do not change the transcript. "
  "Deriving a challenge or reading the transcript does not change it.",
  ["inputs", "histories"], "all sequences of transcript operations",
  "Tests append four words once.",
  ["rangeproof/fiatshamir/fiatshamir.go"], [("transcript", "rangeproof/fiatshamir/fiatshamir.go: Append, Result, Clear, Derive")])
p("C20", "Bit decomposition and padding are exact for every value",
  "For every v below 2^64 the bit commitment consists of 64 entries, the i-th being the i-th bit of v, with a companion vector equal to it minus one entrywise - so their entrywise product is zero and the bits weighted with powers of two sum to v. "
  "Its self-check accepts exactly the value whose bits it holds. "
  "The padding amount of a count n (1 to 2^31) is the smallest p for which n+p is a power of two.",
  ["inputs"], "all 64-bit values and all counts from 1 to 2^31",
  "Tests decompose one random value and check a few counts; 2^64 values cannot be enumerated.",
  ["rangeproof/bitCommitment.go", "rangeproof/innerproduct/innerproduct.go"], [("bit decomposition", "rangeproof/bitCommitment.go: BitCommit, Debug"), ("padding", "rangeproof/innerproduct/innerproduct.go: DiffNextPow2, nextPow2")])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
