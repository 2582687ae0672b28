"""Contracts of package rangeproof/innerproduct."""
import itertools
from terms import *
from values import *
from contract import *
from externs import decP, okP, dec_scalar
from pedersen import wrote, at

IP = "rangeproof/innerproduct."
IPP = IP + "Proof"
_k = itertools.count()


def challenges(Ls, Rs):
    b = Bytes()
    us = []
    for l, r in zip(Ls, Rs):
        b = b + encP(l) + encP(r)
        us.append(Hs(b))
    return us


def folded(us):
    """s_i: product over the rounds of u_k (bit of the round set in i) or its inverse"""
    s = [Sc.const(1)]
    for u in us:
        ui = inverse(u)
        s = [x * y for x in s for y in (ui, u)]
    return s


def relation(A, B, Ls, Rs, G, H, fac, Q):
    """left side of the verification equation: the point it says is the commitment P"""
    us = challenges(Ls, Rs)
    s = folded(us)
    d = {}
    p = Q.scale(A * B)
    p = p + lin(zip([A * x for x in s], G)) + lin(zip([B * x * f for x, f in zip(reversed(s), fac)], H))
    for u, l, r in zip(us, Ls, Rs):
        ui = inverse(u)
        p = p - l.scale(u * u) - r.scale(ui * ui)
    return p


def lin(pairs):
    """sum of multiples (linear time)"""
    acc = {}
    for s, p in pairs:
        for a, c in p.d.items():
            acc.setdefault(a, []).append(s * c)
    d = {}
    for a, cs in acc.items():
        t = cs[0]
        for c in cs[1:]:
            t = t + c
        if t.d:
            d[a] = t
    return Pt("R", d)


def commitment(a, b, G, H, fac, Q):
    c = {}
    for x, y in zip(a, b):
        for m, v in (x * y).d.items():
            c[m] = (c.get(m, 0) + v) % Sc.mod
    ab = Sc({m: v for m, v in c.items() if v})
    return lin(zip(a, G)) + lin(zip([y * f for y, f in zip(b, fac)], H)) + Q.scale(ab)


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def gen_in(h, n):
    l = n if isinstance(n, tuple) else (n,) * 5
    return [h.pts("G", l[0]), h.pts("H", l[1]), h.scs("a", l[2]), h.scs("b", l[3]), h.scs("y", l[4]), h.pt("Q")]


def gen_spec(C, x):
    G, H, a, b, fac = [C.elems(s) for s in x[:5]]
    Q = x[5]
    n = len(G)
    if not pow2(n) or any(len(v) != n for v in (H, a, b, fac)):
        return [Case(True, Tup(ANY, ERR), label="sizes differ or are no power of two")]
    k = n.bit_length() - 1

    def good(M, v):
        if not isinstance(v, PtrV):
            return [("a proof is returned", False)]
        C2 = Ctx(M.ex, M.st, "check")
        f = lambda y: C2.field(v, IPP, y)
        Ls, Rs = C2.elems(f("L")), C2.elems(f("R"))
        out = [("log2(n) rounds", len(Ls) == k and len(Rs) == k)]
        if len(Ls) == k and len(Rs) == k:
            out.append(("the proof satisfies the verification equation for <a,G> + <b,H'> + <a,b>Q",
                        eqP(relation(f("A"), f("B"), Ls, Rs, G, H, fac, Q), commitment(a, b, G, H, fac, Q))))
        return out

    def make(ex, st):
        i = next(_k)
        Ls = [Pt.of(atom("ip", "L", i, j)) for j in range(k)]
        Rs = [Pt.of(atom("ip", "R", i, j)) for j in range(k)]
        A, B = Sc.of(atom("ip", "a", i)), Sc.of(atom("ip", "b", i))
        st.pc = st.pc + (eqP(relation(A, B, Ls, Rs, G, H, fac, Q), commitment(a, b, G, H, fac, Q)),)
        u = ex.prog.under(ex.prog.bystr[IPP])
        val = {"L": ex.mk_slice(st, Ls), "R": ex.mk_slice(st, Rs), "A": A, "B": B}
        return PtrV(ex.alloc(st, "ipproof", StructV([val[y["name"]] if y["name"] in val else ex.prog.zero(y["t"]) for y in u["fields"]])))
    return [Case(True, Tup(Pred(good, make), NIL), label="well-formed")]


SIZES = [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]
BADS = [(0,) * 5, (3,) * 5, (6,) * 5, (1, 0, 1, 1, 1), (2, 1, 2, 2, 2), (2, 2, 1, 2, 2), (2, 2, 2, 1, 2), (2, 2, 2, 2, 1), (2, 4, 2, 2, 2),
        (2, 2, 4, 2, 2), (2, 2, 2, 4, 2), (2, 2, 2, 2, 4), (0, 2, 2, 2, 2), (4, 2, 2, 2, 2), (1, 2, 2, 2, 2), (12,) * 5, (3, 4, 4, 4, 4)]
Contract(IP + "Generate", ["C16", "C13"], gen_in, gen_spec, dims={"n": SIZES + BADS}, sym=False, opts={"naming": True})


# ------------------------------------------------------------------ verification
def proof(h, l, r, name=""):
    return h.struct(IPP, L=h.pts(name + "L", l), R=h.pts(name + "R", r), A=h.sc(name + "a"), B=h.sc(name + "b"))


def vs_spec(C, a):
    Ls, Rs = C.elems(C.field(a[0], IPP, "L")), C.elems(C.field(a[0], IPP, "R"))
    if len(Ls) != len(Rs):
        return [Case(True, Tup(VVec(0, None), VVec(0, None), VVec(0, None)), label="rounds do not match")]
    us = challenges(Ls, Rs)
    s = folded(us)
    k = len(us)
    return [Case(True, Tup(FVec(k, lambda i: us[i.cval()] * us[i.cval()]), FVec(k, lambda i: inverse(us[i.cval()]) * inverse(us[i.cval()])),
                           FVec(len(s), lambda i: s[i.cval()])), label="well-formed")]


Contract("(*%s).VerifScalars" % IPP, ["C16", "C14"], lambda h, l, r: [h.new(proof(h, l, r), "proof")], vs_spec,
         dims={"l": list(range(11)), "r": list(range(11))}, sym=False)


def ver_in(h, k, d):
    n = 1 << k
    l, r, g, hh = k + d.get("l", 0), k + d.get("r", 0), n + d.get("g", 0), n + d.get("h", 0)
    return [h.new(proof(h, l, r), "proof"), h.pts("G", g), h.pts("H", hh), h.pts("unusedL", 0), h.pts("unusedR", 0), h.scs("y", n),
            h.pt("Q"), h.pt("P"), I(n)]


def ver_spec(C, a):
    f = lambda x: C.field(a[0], IPP, x)
    Ls, Rs = C.elems(f("L")), C.elems(f("R"))
    G, H, fac = C.elems(a[1]), C.elems(a[2]), C.elems(a[5])
    n = 1 << len(Ls)
    if len(Ls) != len(Rs) or len(G) + len(H) != 2 * n:
        return [Case(True, False, label="sizes do not match")]
    return [Case(True, eqP(relation(f("A"), f("B"), Ls, Rs, G, H, fac, a[6]), a[7]), label="well-formed")]


class D(dict):
    def __hash__(self):
        return hash(tuple(self.items()))


Contract("(*%s).Verify" % IPP, ["C16"], ver_in, ver_spec,
         dims={"k": list(range(11)), "d": [D(), D(l=1), D(r=1), D(g=1), D(h=1), D(g=-1), D(h=-1)]}, sym=False)


def complete(L, k):
    """generated proofs verify"""
    h = L.h
    n = 1 << k
    args = gen_in(h, n)
    G, H, a, b, fac = [L.ctx(L.st).elems(s) for s in args[:5]]
    P = commitment(a, b, G, H, fac, args[5])
    none = h.pts("x", 0)
    for st, v in L.calls(L.st, IP + "Generate", args):
        L.need(st, "generating succeeds", v.v[1] is NIL)
        C = L.ctx(st)
        L.need(st, "log2(n) rounds", len(C.elems(C.field(v.v[0], IPP, "L"))) == k)
        for s2, ok in L.calls(st, "(*%s).Verify" % IPP,
                              [v.v[0], args[0], args[1], C.field(v.v[0], IPP, "L"), C.field(v.v[0], IPP, "R"), args[4], args[5], P, I(n)]):
            L.need(s2, "the proof verifies", ok)


Lemma("inner product completeness", ["C16"], complete, dims={"k": [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]}, sym=False)


# ------------------------------------------------------------------ encoding
def ip_bytes(C, p):
    f = lambda x: C.field(p, IPP, x)
    (n, l), (m, r) = C.vec(f("L")), C.vec(f("R"))
    return encS(f("A")) + encS(f("B")) + cat_(n, lambda i: encP(l(i)) + encP(r(i)))


Contract("(*%s).Encode" % IPP, ["C15"], lambda h, k: [h.new(proof(h, k, k), "proof"), h.writer("w")],
         lambda C, a: [Case(True, wrote(a[1], ip_bytes(C, a[0])), [(a[1].v, ANY)])], dims={"k": [0, 1, 2, 3, 10]}, apply=False)


def dec_in(h, k, cut):
    n = I(64 + cut) + 64 * I(k)
    b = h.bsym("b", n) if not n.is_const() or n.cval() > 0 else Bytes()
    return [h.new(proof(h, 1, 1, "old "), "proof"), h.reader("r", b)]


def bytes_at(b, o):
    o = I(o)
    return Bytes((atom("bsub", b.segs[0], 32 * o, 32 * o + 32),)) if b.len != 32 else b


def ipdec(C, b, p):
    """(ok, writes) of decoding the inner product proof from exactly b"""
    q = lindivmod(b.len, 64)
    if q[1] != 0:
        return False, []
    k = q[0] - 1
    if k.is_const() and k.cval() < 0:
        return False, []
    ok = b_and(le(0, k), forall_(2 * k, lambda j: okP(bytes_at(b, 2 + j))) if k.is_const() else
               forall_(k, lambda j: b_and(okP(bytes_at(b, 2 + 2 * j)), okP(bytes_at(b, 3 + 2 * j)))))
    place = lambda x: C.fptr(p, IPP, x)
    return ok, [(place("A"), dec_scalar(bytes_at(b, 0))), (place("B"), dec_scalar(bytes_at(b, 1))),
                (place("L"), VVec(k, lambda i: decP(bytes_at(b, 2 + 2 * i)))),
                (place("R"), VVec(k, lambda i: decP(bytes_at(b, 3 + 2 * i))))]


def dec_spec(C, a):
    b = C.rd(a[1].v).b
    ok, w = ipdec(C, b, a[0])
    return [Case(ok, NIL, w + [(a[1].v, StreamV(Bytes(), "r", False))], label="well-formed"),
            Case(b_not(ok), ERR, [(a[0], ANY), (a[1].v, ANY)], label="truncated or invalid")]


Contract("(*%s).Decode" % IPP, ["C15", "C16"], dec_in, dec_spec, dims={"k": [0, 1, 2, 3], "cut": [0, 1, -1, -32, 32, -64]}, finite=["cut"], apply=False)


def same_pts(C, u, v):
    """two slices of points agree in number, order and value"""
    (n, p), (m, q) = C.vec(u), C.vec(v)
    if ieq(n, m) is False:
        return False
    return b_and(ieq(n, m), forall_(n, lambda i: eqP(p(i), q(i))))


def same_proof(C, p, q):
    f = lambda x: C.field(p, IPP, x)
    g = lambda x: C.field(q, IPP, x)
    return b_and(eqS(f("A"), g("A")), eqS(f("B"), g("B")), same_pts(C, f("L"), g("L")), same_pts(C, f("R"), g("R")))


Contract("(*%s).Equals" % IPP, ["C15", "C16"],
         lambda h, l1, r1, l2, r2: [h.new(proof(h, l1, r1, name="a"), "a"), proof(h, l2, r2, name="b")],
         lambda C, a: [Case(True, same_proof(C, a[0], a[1]))],
         dims={"l1": [0, 1, 2], "r1": [0, 1, 2], "l2": [0, 1, 2], "r2": [0, 1, 2]})


def roundtrip(L, k):
    h = L.h
    p = h.new(proof(h, k, k), "proof")
    q = h.new(proof(h, 1, 1, "old "), "out")
    w = h.writer("w", fail=False)
    for st, v in L.calls(L.st, "(*%s).Encode" % IPP, [p, w]):
        L.need(st, "encodes", v is NIL)
        rd = IfaceV("reader", PtrV(L.ex.alloc(st, "rd", StreamV(L.ex.read(st, w.v).b, "r", False))))
        for s2, e in L.calls(st, "(*%s).Decode" % IPP, [q, rd]):
            L.need(s2, "decodes", e is NIL)
            C = L.ctx(s2)
            for s3, ok in L.calls(s2, "(*%s).Equals" % IPP, [p, C.rd(q)]):
                L.need(s3, "equal to the original", ok)
            f = lambda x, y: C.field(x, IPP, y)
            L.need(s2, "same components", f(p, "A") == f(q, "A") and f(p, "B") == f(q, "B"))
            for x in "LR":
                (n, u), (m, v) = C.vec(f(p, x)), C.vec(f(q, x))
                L.need(s2, "as many " + x, ieq(n, m))
                L.need(s2, "same " + x, forall_(n, lambda i: eqP(u(i), v(i))))


Lemma("inner product encode/decode", ["C15", "C16"], roundtrip, dims={"k": [0, 1, 2, 3, 6, 10]})


def malformed(L, k, short):
    """a stream whose length is not 64 + 64k: an error"""
    h = L.h
    n = Int.of(atom("nat", "short", rng=(0, 63))) if short else 64 * (I(k) + 1) + Int.of(atom("nat", "stray", rng=(1, 63)))
    p = h.new(proof(h, 1, 1, "old "), "proof")
    for st, v in L.calls(L.st, "(*%s).Decode" % IPP, [p, h.reader("r", h.bsym("b", n))]):
        L.need(st, "rejected", isinstance(v, ErrV))


Lemma("inner product malformed stream", ["C15", "C16"], malformed, dims={"k": [0, 1, 3], "short": [0, 1]}, finite=["short"])


# ------------------------------------------------------------------ padding
def next_pow2(n):
    return 1 << (n - 1).bit_length()


Contract(IP + "DiffNextPow2", ["C20", "C13"], lambda h, n: [I(n)],
         lambda C, a: [Case(True, Int.const(next_pow2(a[0].cval()) - a[0].cval()))],
         requires=lambda C, a: a[0].is_const() and 1 <= a[0].cval() <= 16, dims={"n": list(range(1, 17))}, finite=["n"], sym=False)


def padding(L, k):
    """bit-precise, for every n from 1 to 2^31"""
    import bv
    import z3
    n = z3.BitVec("n", 32)
    e = bv.BV(L.ex.prog, [z3.UGE(n, 1), z3.ULE(n, 1 << 31)])
    for pc, r in e.call(IP + "DiffNextPow2", [n], ()):
        if r == "panic":
            L.obs.append(Ob(L.lem.fn, "safety", "no panic", L.cfg, False))
            continue
        q = z3.ZeroExt(32, n) + z3.ZeroExt(32, r[0])
        for label, goal in (("n + p is a power of two", q & (q - 1) == 0), ("p is the smallest such", z3.ULT(r[0], n))):
            ok, m = e.prove(pc, goal)
            L.obs.append(Ob(L.lem.fn, "bit-vector", label, L.cfg, ok, "" if ok else "counterexample: %s" % m, definite=m is not None or ok))


Lemma("padding is exact", ["C20"], padding, dims={"k": [0]}, finite=["k"], sym=False)


def refused(L, k):
    """bit-precise, for all lengths below 2^31: unequal ones, and those that are no power of two, are errors"""
    import bv
    import z3
    ls = [z3.BitVec("len_" + x, 64) for x in ("G", "H", "a", "b", "fac")]
    n = ls[0]
    bad = z3.Or(n == 0, n & (n - 1) != 0, *[x != n for x in ls[1:]])
    e = bv.BV(L.ex.prog, [z3.ULE(x, (1 << 31) - 1) for x in ls] + [bad])
    for pc, r in e.call(IP + "Generate", [bv.Slice(x) for x in ls] + [bv.OPAQUE], ()):
        if r == "panic":
            L.obs.append(Ob(L.lem.fn, "safety", "no panic", L.cfg, False))
            continue
        ok = len(r) == 2 and r[1] is bv.ERRV
        m = None
        if not ok:
            ok, m = e.prove(pc, z3.BoolVal(False))
        L.obs.append(Ob(L.lem.fn, "bit-vector", "refused with an error", L.cfg, ok, "" if ok else "counterexample: %s" % m, definite=False))


Lemma("lengths that do not fit are refused", ["C16"], refused, dims={"k": [0]}, finite=["k"], sym=False)
