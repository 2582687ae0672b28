"""Contracts of package rangeproof/generators: one fixed chain of points per seed."""
from terms import *
from values import *
from contract import *

GEN = "rangeproof/generators.Generator"


def chain(data, n, start=None):
    """first n points of the chain, continuing the given ones"""
    out = list(start or [])
    while len(out) < n:
        out.append(HP(encP(out[-1]) if out else data))
    return out


def nxt(i, p):
    return HP(encP(p))


def chain_at(data, k, base, i):
    """point i of the chain whose first k points are base(0) ... base(k-1)"""
    k, i = I(k), I(i)
    if k == 0:
        return iter_(i, HP(data), nxt)
    if k.is_const() and i.is_const():
        return base(i) if i.cval() < k.cval() else iter_(i - k + 1, base(k - 1), nxt)
    return ite(lt(i, k), base(i), iter_(i - k + 1, base(k - 1), nxt))


def gen(h, k, name="gen"):
    """generator holding k points (arbitrary ones)"""
    k = I(k)
    if k == 0:
        bases = SliceV(h.ex.alloc(h.st, "bases", CArr(()), "local"), (), 0, 0, 0)
    else:
        b = lambda i: Pt.of(atom("pv", "base", I(i)))
        arr = CArr([b(i) for i in range(k.cval())]) if k.is_const() else SArr(k, b)
        bases = SliceV(h.ex.alloc(h.st, "bases", arr, "local"), (), 0, k, None)
    return h.new(h.struct(GEN, data=h.bytes("seed"), Bases=bases), name)


def parts(C, g):
    return (C.bytes(C.field(g, GEN, "data")),) + C.vec(C.field(g, GEN, "Bases"))


def data_or_last(d, k, b):
    return d if k == 0 else encP(b(k - 1))


def vec(l):
    return VVec(len(l), lambda i: l[i.cval()])


def by_size(C, g, mk):
    """cases: no points yet, some points"""
    d, k, b = parts(C, g)
    out = []
    if ieq(k, 0) is not False:
        out.append(Case(ieq(k, 0), *mk(d, Int.const(0), None), label="no points yet"))
    if le(1, k) is not False:
        out.append(Case(le(1, k), *mk(d, k, b), label="continuing"))
    return out


def comp_spec(C, a):
    p = C.fptr(a[0], GEN, "Bases")
    return by_size(C, a[0], lambda d, k, b: (ANY, [(p, VVec(k + a[1], lambda i: chain_at(d, k, b, i)))]))


Contract("(*%s).Compute" % GEN, ["C17"], lambda h, k, n: [gen(h, k), I(n)], comp_spec,
         dims={"k": [0, 1, 2, 3], "n": [0, 1, 2, 3, 64]}, requires=lambda C, a: lt(a[1], 1 << 31))
Contract("(*%s).Iterate" % GEN, ["C17"], lambda h, k: [gen(h, k)],
         lambda C, a: by_size(C, a[0], lambda d, k, b: (HP(data_or_last(d, k, b)),)), dims={"k": [0, 1, 2, 3]}, apply=False)
Contract("(*%s).Clear" % GEN, ["C17"], lambda h, k: [gen(h, k)],
         lambda C, a: [Case(True, ANY, [(C.fptr(a[0], GEN, "Bases"), vec([]))])], dims={"k": [0, 1, 2]}, apply=False)
Contract("rangeproof/generators.New", ["C17"], lambda h: [h.bytes("seed")],
         lambda C, a: [Case(True, Fresh(St(GEN, data=VBytes(C.bytes(a[0])), Bases=vec([]))))], apply=False)


def steps(L, cuts):
    """the chain is the same however many points are computed at a time"""
    h = L.h
    d = h.bytes("seed")
    F = lambda n: "(*%s).%s" % (GEN, n)
    states = []
    for st, g in L.calls(L.st, "rangeproof/generators.New", [d]):
        todo = [st]
        for c in cuts:
            todo = [s2 for s in todo for s2, _ in L.calls(s, F("Compute"), [g, Int.const(c)])]
        for s in todo:
            C = L.ctx(s)
            L.need(s, "one fixed chain", C.elems(C.field(g, GEN, "Bases")) == chain(L.ctx(L.st).bytes(d), sum(cuts)))
            for s2, _ in L.calls(s, F("Clear"), [g]):
                for s3, _ in L.calls(s2, F("Compute"), [g, Int.const(3)]):
                    C = L.ctx(s3)
                    L.need(s3, "clearing starts the chain again",
                           C.elems(C.field(g, GEN, "Bases")) == chain(L.ctx(L.st).bytes(d), 3))


Lemma("generator chain", ["C17"], steps, dims={"cuts": [(), (1,), (5,), (2, 3), (1, 0, 4), (1, 1, 1, 1, 1), (128,), (64, 64)]}, sym=False)


def two_steps(L, a, b):
    """computing a points and then b more is computing a+b points, for all a and b"""
    h = L.h
    d = h.bytes("seed")
    seed = L.ctx(L.st).bytes(d)
    a, b = I(a), I(b)
    i = Int.of(atom("nat", "idx"))
    h.assume(lt(a, 1 << 30))
    h.assume(lt(b, 1 << 30))
    h.assume(lt(i, a + b))
    F = lambda n: "(*%s).%s" % (GEN, n)
    for st, g in L.calls(L.st, "rangeproof/generators.New", [d]):
        for s1, _ in L.calls(st, F("Compute"), [g, a]):
            for s2, _ in L.calls(s1, F("Compute"), [g, b]):
                C = L.ctx(s2)
                bases = C.field(g, GEN, "Bases")
                L.need(s2, "as many points as asked for", ieq(bases.len, a + b))
                if a.is_const() and b.is_const():
                    L.need(s2, "one fixed chain", C.elems(bases) == chain(seed, a.cval() + b.cval()))
                    continue
                L.need(s2, "point i of one fixed chain", eqP(L.ex.sl_get(s2, bases, i), iter_(i, HP(seed), nxt)))


Lemma("generator chain in two steps", ["C17"], two_steps, dims={"a": [1, 2], "b": [0, 1, 2]})
