"""Contracts of package hash."""
from terms import *
from values import *
from contract import *


def plain(fn, alg, n):
    Contract(fn, ["C05"], lambda h: [h.bytes("data")],
             lambda C, a: [Case(True, Tup(FBytes(hashB(alg, n, C.bytes(a[0]))), NIL))])


plain("hash.Sha3256", "sha3-256", 32)
plain("hash.Sha3512", "sha3-512", 64)
plain("hash.Blake2b256", "blake2b-256", 32)
plain("hash.Blake2b512", "blake2b-512", 64)
plain("hash.Xxhash", "xxhash64", 8)


def ph_in(h):
    b = h.bsym("already written")
    return [IfaceV("hash", PtrV(h.ex.alloc(h.st, "hash", HashV("any-hash", 32, b), "caller"))), h.bytes("data")]


def ph_spec(C, a):
    c = C.rd(a[0].v)
    d = c.b + C.bytes(a[1])
    return [Case(True, Tup(FBytes(hashB(c.alg, c.size, d)), NIL), [(a[0].v, HashV(c.alg, c.size, d))])]


Contract("hash.PerformHash", ["C05"], ph_in, ph_spec)


def csum(b):
    x = hashB("xxhash64", 8, b)
    return Int.of(atom("nat", "decuint", slice_bytes(x, 0, 4, lambda c: None), 4, False, rng=(0, 2**32 - 1)))


Contract("hash.Checksum", ["C05"], lambda h: [h.bytes("data")],
         lambda C, a: [Case(True, Tup(csum(C.bytes(a[0])), NIL))])


def cc_in(h):
    w = Int.of(atom("nat", "want", rng=(0, 2**32 - 1)))
    return [h.bytes("data"), w]


Contract("hash.CompareChecksum", ["C05"], cc_in, lambda C, a: [Case(True, ieq(csum(C.bytes(a[0])), a[1]))])


def re_spec(C, a):
    def good(M, v):
        s, err = v.v
        if err is not NIL:
            return [("error only when the source fails",
                     any(isinstance(c, Atom) and c.head == "p" and c.args[0] == "randfail" for c in M.st.pc))]
        b = M.ex.sl_bytes(M.st, s)
        okb = len(b.segs) == 1 and b.segs[0].head == "bsym" and b.segs[0].args[0].startswith("randbytes")
        return [("length", ieq(b.len, a[0])), ("every byte comes from the random source", b_or(okb, ieq(a[0], 0)))]
    return [Case(True, Pred(good))]


Contract("hash.RandEntropy", ["C05"], lambda h: [Int.of(atom("nat", "n", rng=(0, 2**32 - 1)))], re_spec, apply=False)
