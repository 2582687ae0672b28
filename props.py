"""what the checks need to know about each property"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
MODULES = ["bls", "hash", "vector", "blsag", "merkle", "mlsag", "fiatshamir", "generators", "pedersen", "innerproduct", "rangeproof"]
DRIVERS = {"C01": ["bls"], "C02": ["bls"], "C03": ["bls"], "C04": ["bls"], "C05": ["hash"], "C06": ["merkletree"], "C07": ["merkletree"],
           "C08": ["ringsig/blsag"], "C09": ["ringsig/blsag"], "C10": ["mlsag"], "C11": ["mlsag"], "C12": ["mlsag"],
           "C13": ["rangeproof"], "C14": ["rangeproof"], "C15": ["rangeproof"], "C16": ["rangeproof/innerproduct"],
           "C17": ["rangeproof/pedersen"], "C18": ["rangeproof/vector"], "C19": ["rangeproof/fiatshamir"], "C20": ["rangeproof"]}
# packages whose constants direct the sizes a driver tries, besides its own
ALSO = {"rangeproof/pedersen": ["rangeproof/generators"], "rangeproof/innerproduct": ["rangeproof/vector", "rangeproof/fiatshamir"]}
LEVEL = {}
NA = {}
NOTE = {
    "C06": "Bounded in one size: trees of 0 to 17 and 31 to 33 payloads, rebuilt from up to 11 (payload contents, hashes and failures arbitrary).",
    "C07": "VerifyNode, CalculateNodeHash and VerifyTree for all trees (structural induction); VerifyContent bounded to trees of up to 10 leaves with arbitrary contents and stored hashes.",
    "C10": "Bounded in one size: 0 to 4 decoys (every signer position, message, key and randomness); the verifier's side (C11) holds for all sizes.",
    "C12": "Encoding, equality and the decoding of rows for all sizes; decoding a whole signature, and the round trip, bounded to 4 rows of up to 3 responses.",
    "C13": "The property's range of 1 to 16 values is enumerated completely; values, blinding factors and challenges are symbolic.",
    "C16": "Bounded in one size: power-of-two lengths up to 1024 (all a range proof of up to 16 values needs); contents symbolic; the refusal of other lengths and the codecs hold for all sizes.",
}
NOTE_ALL = "Trusted: go/ssa, the executor and normaliser in /verif/engine, z3, and the contracts assumed for go-ristretto, bn256 and the standard library (listed in the evidence). Functions the verifier cannot reach on a changed tree are covered by the bounded replay driver only, and reported so."
ASSUME = [
    "group and field arithmetic of go-ristretto and bn256 is the mathematical one (scalars mod l, prime-order groups, bilinear pairing); encodings of points and scalars are injective",
    "hash functions are deterministic functions of their input; collision-freedom is used only to conclude that different inputs give different digests where a property needs it",
    "random sources return fresh values; equations that hold for a freshly sampled multiplier hold coefficient-wise (Schwartz-Zippel)",
    "slice lengths fit in 31 bits; memory allocation of sizes that exist already in memory succeeds",
    "the unit's source is as parsed by go/ssa for linux/amd64 without build tags",
]


def known(prop):
    """KNOWN-FINDING lines for the property"""
    out = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(l)
    except FileNotFoundError:
        pass
    return out
