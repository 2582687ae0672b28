"""Contracts of package rangeproof/fiatshamir: the transcript is the concatenation of what was appended."""
from terms import *
from values import *
from contract import *

HC = "rangeproof/fiatshamir.HashCacher"


def own_bytes(h, name):
    """byte slice owned by the object (its spare capacity may be used)"""
    b = h.bsym(name)
    return SliceV(h.ex.alloc(h.st, name, BArr(b), "local"), (), 0, b.len, None)


def cacher(h, empty=False):
    if empty:
        return h.new(h.struct(HC), "hs")
    return h.new(h.struct(HC, Cache=own_bytes(h, "transcript")), "hs")


def cache(C, p):
    return C.bytes(C.field(p, HC, "Cache"))


def byte_strings(h, k, name="val"):
    """k byte strings of any lengths, each in its own memory"""
    ln = lambda i: Int.of(atom("nat", "len " + name, I(i)))
    f = h.fam(name + "!", k, lambda i: BArr(Bytes((atom("bsym", name, ln(i), I(i)),))))
    root = f(0).root
    return h.slice(k, lambda i: SliceV(root, (("i", I(i)),), 0, ln(i), None), name + "s")


def app_in(h, k, empty):
    return [cacher(h, empty), byte_strings(h, k)]


def app_spec(C, a):
    n, vs = C.vec(a[1])
    b = cache(C, a[0]) + cat_(n, lambda i: C.bytes(vs(i)))
    place = C.fptr(a[0], HC, "Cache")
    old = C.field(a[0], HC, "Cache")

    def owned(M, r):
        n = M.ex.read(M.st, place)
        return [("the transcript does not share memory with what was appended",
                 not isinstance(n, SliceV) or n.root is None or n.root == old.root or n.root not in M.pre.mem)]
    return [Case(True, ANY, [(place, VBytes(b))], extra=owned)]


Contract("(*%s).Append" % HC, ["C19"], app_in, app_spec, dims={"k": [0, 1, 2, 3, 4, 5], "empty": [0, 1]}, finite=["empty"],
         apply=False)
Contract("(*%s).Result" % HC, ["C19"], lambda h, empty: [cacher(h, empty)],
         lambda C, a: [Case(True, VBytes(cache(C, a[0])))], dims={"empty": [0, 1]}, finite=["empty"], apply=False)
Contract("(*%s).Clear" % HC, ["C19"], lambda h, empty: [cacher(h, empty)],
         lambda C, a: [Case(True, ANY, [(C.fptr(a[0], HC, "Cache"), VBytes(Bytes()))])], dims={"empty": [0, 1]},
         finite=["empty"], apply=False)
Contract("(*%s).Derive" % HC, ["C19"], lambda h, empty: [cacher(h, empty)],
         lambda C, a: [Case(True, Hs(cache(C, a[0])))], dims={"empty": [0, 1]}, finite=["empty"], apply=False)


def history(L, k):
    """append, change the appended bytes, read, append, clear, append: the transcript is what was appended since the clear"""
    h = L.h
    hs = cacher(h, True)
    x = h.bytes("x")
    y = h.bytes("y", 5)
    z = h.bytes("z")
    bx, by, bz = (L.ctx(L.st).bytes(v) for v in (x, y, z))
    one = lambda *v: L.ex.mk_slice(L.st, list(v))
    a1, a2 = one(x, y), one(z)
    F = lambda n: "(*%s).%s" % (HC, n)
    for s1, _ in L.calls(L.st, F("Append"), [hs, a1]):
        s1 = s1.copy()
        # the caller overwrites what it appended
        L.ex.write(s1, PtrV(y.root, y.path), BArr(h.bsym("other", 5)))
        for s2, r in L.calls(s1, F("Result"), [hs]):
            L.need(s2, "transcript is the concatenation", eqB(L.ex.sl_bytes(s2, r), bx + by))
            for s3, d in L.calls(s2, F("Derive"), [hs]):
                L.need(s3, "challenge hashes all of it", eqS(d, Hs(bx + by)))
                for s4, _ in L.calls(s3, F("Append"), [hs, a2]):
                    for s5, d in L.calls(s4, F("Derive"), [hs]):
                        L.need(s5, "challenge hashes the longer transcript", eqS(d, Hs(bx + by + bz)))
                        L.need(s5, "the earlier result is unchanged", eqB(L.ex.sl_bytes(s5, r), bx + by))
                        for s6, _ in L.calls(s5, F("Clear"), [hs]):
                            for s7, _ in L.calls(s6, F("Append"), [hs, a2]):
                                for s8, r2 in L.calls(s7, F("Result"), [hs]):
                                    L.need(s8, "only what was appended since the clear", eqB(L.ex.sl_bytes(s8, r2), bz))


Lemma("transcript history", ["C19"], history, dims={"k": [0]}, finite=["k"])
