"""Contracts of package rangeproof/pedersen."""
from terms import *
from values import *
from contract import *
from externs import decP, okP
from generators import GEN, gen, chain, chain_at, parts, vec

PD = "rangeproof/pedersen."
PED, COM = PD + "Pedersen", PD + "Commitment"


def VB():
    """base of the committed value"""
    return HP(Bytes.lit(b"blindPoint"))


def BB():
    """base of the blinding factor"""
    return BASE()


def new_spec(C, a):
    d = C.bytes(a[0])
    return [Case(True, Fresh(St(PED, BaseVector=Fresh(St(GEN, data=VBytes(d), Bases=vec([]))), GenData=VBytes(d),
                                BlindPoint=BB(), BasePoint=VB())))]


Contract(PD + "New", ["C17"], lambda h: [h.bytes("seed")], new_spec, apply=False)


def ped(h, k=0):
    return h.new(h.struct(PED, BaseVector=gen(h, k), GenData=h.bytes("seed"), BlindPoint=h.pt("blindbase"), BasePoint=h.pt("valuebase")), "ped")


def cs_spec(C, a):
    f = lambda x: C.field(a[0], PED, x)
    r = randpat("r")
    return [Case(True, St(COM, Value=f("BasePoint").scale(a[1]) + f("BlindPoint").scale(r), BlindingFactor=Rand("r")))]


Contract("(*%s).CommitToScalar" % PED, ["C17", "C13"], lambda h: [ped(h), h.sc("v")], cs_spec)


def byte(i):
    return Bytes.lit(bytes([i.cval() & 255])) if i.is_const() else Bytes((atom("b1", imod(i, 256)),))


def cv_in(h, lens, k):
    if isinstance(lens, Int):
        w = lambda i: Int.of(atom("nat", "w", I(i)))
        rows = fam_rows(h, "vs", lens, w, lambda i, j: Sc.of(atom("sv", "v", i, j)))
        h.assume(lt(lens, 1 << 31))
        h.assume(forall_(lens, lambda i: lt(w(i), 1 << 31)))
        return [ped(h, k), h.slice(lens, rows, "vectors")]
    vs = [h.scs("v%d" % i, n) for i, n in enumerate(lens)]
    return [ped(h, k), h.slice(len(vs), lambda i: vs[i.cval()], "vectors")]


def cv_spec(C, a):
    f = lambda x: C.field(a[0], PED, x)
    g = f("BaseVector")
    seed = C.bytes(f("GenData"))
    data, k, base = parts(C, g)
    m, vs = C.vec(a[1])
    r = randpat("r")
    blind = f("BlindPoint").scale(r)
    place = C.fptr(g, GEN, "Bases")

    def dot(v, gs):
        n, at = C.vec(v)
        return psum_(n, lambda j: gs(j).scale(at(j)), "R")

    def grown(k, base):
        def post(M, ret):
            c2 = Ctx(M.ex, M.st, "check")
            n, at = c2.vec(M.ex.read(M.st, place))
            out = [("no generator is lost", le(k, n))]
            for i in range(n.cval()) if n.is_const() else [Int.of(atom("nat", "idx"))]:
                out.append(("generators only grow along the chain", b_or(le(n, i), eqP(at(i), chain_at(data, k, base, i)))))
            return out
        return post

    def case(cond, k, base, label):
        tot = blind + dot(vs(I(0)), lambda j: chain_at(data, k, base, j))
        tot = tot + psum_(m - 1, lambda i: dot(vs(I(i) + 1), lambda j: chain_at(seed + byte(I(i) + 1), 0, None, j)), "R")
        return Case(cond, St(COM, Value=tot, BlindingFactor=Rand("r")), [(place, ANY)], extra=grown(k, base), label=label)
    out = []
    if ieq(m, 0) is not False:
        out.append(Case(ieq(m, 0), St(COM, Value=Pt.zero(), BlindingFactor=Rand("r")), label="no vectors"))
    if ieq(m, 0) is not True:
        if ieq(k, 0) is not False:
            out.append(case(b_and(b_not(ieq(m, 0)), ieq(k, 0)), Int.const(0), None, "no points yet"))
        if ieq(k, 0) is not True:
            out.append(case(b_and(b_not(ieq(m, 0)), b_not(ieq(k, 0))), k, base, "continuing"))
    return out


Contract("(*%s).CommitToVectors" % PED, ["C17"], cv_in, cv_spec,
         dims={"lens": [(), (0,), (1,), (3,), (2, 2), (3, 1), (0, 2), (1, 2, 3), (2, 2, 2, 2), (64, 64)], "k": [0, 1, 2, 3]}, apply=False)


# ------------------------------------------------------------------ encoding
def com(h, name):
    return h.struct(COM, Value=h.pt(name), BlindingFactor=h.sc("blind " + name))


def coms(h, n, name="V"):
    return h.slice(n, lambda i: h.struct(COM, Value=Pt.of(atom("pv", name, i)), BlindingFactor=Sc.of(atom("sv", "blind " + name, i))), name)


def wrote(w, b):
    def good(M, v):
        if v is NIL:
            return [("bytes written", eqB(M.ex.read(M.st, w.v).b, b))]
        return [("error only when a write fails", isinstance(v, ErrV) and
                 any(isinstance(c, Atom) and c.head == "p" and c.args[0] == "wfail" for c in M.st.pc))]
    return Pred(good)


def coms_bytes(C, s):
    n, at = C.vec(s)
    return u32(n) + cat_(n, lambda i: encP(C.field(at(i), COM, "Value")))


Contract("(*%s).Encode" % COM, ["C15"], lambda h: [h.new(com(h, "V"), "c"), h.writer("w")],
         lambda C, a: [Case(True, wrote(a[1], encP(C.field(a[0], COM, "Value"))), [(a[1].v, ANY)])], apply=False)
Contract(PD + "EncodeCommitments", ["C15"], lambda h, n: [h.writer("w"), coms(h, n)],
         lambda C, a: [Case(True, wrote(a[0], coms_bytes(C, a[1])), [(a[0].v, ANY)])],
         dims={"n": [0, 1, 2, 3, 4, 8, 16]}, apply=False)


def at(tail, k):
    k = I(k)
    return Bytes((atom("bsub", tail.segs[0], 32 * k, 32 * k + 32),))


def dec1_spec(C, a):
    b = C.rd(a[1].v).b
    ok = b_and(le(32, b.len), okP(at(b, 0)))
    rest = Bytes((atom("bsub", b.segs[0], Int.const(32), b.len),))

    def consumed(M, v):
        return [("exactly the encoding is consumed", eqB(M.ex.read(M.st, a[1].v).b, rest))]
    return [Case(ok, NIL, [(C.fptr(a[0], COM, "Value"), decP(at(b, 0))), (a[1].v, ANY)], extra=consumed, label="well-formed"),
            Case(b_not(ok), ERR, [(a[0], ANY), (a[1].v, ANY)], label="truncated or invalid")]


Contract("(*%s).Decode" % COM, ["C15"], lambda h: [h.new(com(h, "old"), "c"), h.reader("r")], dec1_spec, apply=False)


def decs_in(h, n):
    return [h.reader("r", u32(n) + h.bsym("tail"))]


def decs_spec(C, a):
    b = C.rd(a[0].v).b
    n = I(int.from_bytes(b.segs[0].args[0][:4], "big")) if b.segs[0].head != "u32" else b.segs[0].args[0]
    tail = Bytes((b.segs[-1],))
    ok = b_and(le(32 * n, tail.len), forall_(n, lambda k: okP(at(tail, k))))
    rest = Bytes((atom("bsub", tail.segs[0], 32 * n, tail.len),)) if n != 0 else tail

    def consumed(M, v):
        return [("exactly the encoding is consumed", eqB(M.ex.read(M.st, a[0].v).b, rest))]
    return [Case(ok, Tup(VVec(n, lambda i: St(COM, Value=decP(at(tail, i)))), NIL), [(a[0].v, ANY)], extra=consumed, label="well-formed"),
            Case(b_not(ok), Tup(ANY, ERR), [(a[0].v, ANY)], label="truncated or invalid")]


Contract(PD + "DecodeCommitments", ["C15"], decs_in, decs_spec, dims={"n": [0, 1, 2, 3, 4, 8, 16]}, apply=False)


def hostile(L, t, head):
    """a stream that ends before what its header claims: an error, and no memory reserved for the claim"""
    h = L.h
    if head:
        b = h.bsym("x", Int.of(atom("nat", "head", rng=(0, 3))))
    else:
        n = Int.of(atom("nat", "count", rng=(1, 2**32 - 1)))
        b = u32(n) + h.bsym("tail", I(t))
        h.assume(lt(t, 32 * n))
    for st, v in L.calls(L.st, PD + "DecodeCommitments", [h.reader("r", b)]):
        L.need(st, "rejected", isinstance(v.v[1], ErrV))
        L.need(st, "no allocation sized by the claim", not any(e[0] == "make" for e in st.events))


Lemma("commitments hostile header", ["C15"], hostile, dims={"t": [0, 31, 32, 100], "head": [0, 1]}, finite=["head"])

Contract("(*%s).EqualValue" % COM, ["C17", "C15"], lambda h: [h.new(com(h, "a"), "a"), com(h, "b")],
         lambda C, a: [Case(True, eqP(C.field(a[0], COM, "Value"), C.field(a[1], COM, "Value")))])
Contract("(*%s).Equals" % COM, ["C17", "C15"], lambda h: [h.new(com(h, "a"), "a"), com(h, "b")],
         lambda C, a: [Case(True, b_and(eqP(C.field(a[0], COM, "Value"), C.field(a[1], COM, "Value")),
                                        eqS(C.field(a[0], COM, "BlindingFactor"), C.field(a[1], COM, "BlindingFactor"))))])
