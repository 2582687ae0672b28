"""Contracts of package rangeproof."""
from terms import *
from values import *
from contract import *
from externs import decP, okP, dec_scalar
from generators import chain
from pedersen import COM, VB, BB, coms, coms_bytes, wrote
from innerproduct import IPP, proof as ipproof, relation, challenges, folded, lin, ip_bytes, next_pow2, same_proof

R = "rangeproof."
PR, BC = R + "Proof", R + "BitCommitment"
N = 64
SEED = Bytes.lit(b"dusk.BulletProof.vec1")
SEED1 = Bytes.lit(b"dusk.BulletProof.vec1\x01")


# ------------------------------------------------------------------ bit decomposition
def bit(name, *i):
    return Int.of(atom("bit", name, *[Int.const(k) for k in i], idem=True))


def bits_of(name, *i):
    """value below 2^64 as the sum of its bits"""
    t = Int.const(0)
    for k in range(N):
        t = t + bit(name, *i, k) * (1 << k)
    return t


def bits_list(x):
    """the 64 bits of an integer term, or None"""
    out = []
    for k in range(N):
        r = int_divmod_pow2(x, 1)
        if r is None:
            return None
        x, b = r
        out.append(b)
    return out if x == 0 else None


def bc_spec(C, a):
    bs = bits_list(C.rd(a[0]))
    s = [int_to_field(b, Sc) for b in bs]
    return [Case(True, St(BC, AL=FVec(N, lambda i: s[i.cval()]), AR=FVec(N, lambda i: s[i.cval()] - Sc.const(1))))]


Contract(R + "BitCommit", ["C20", "C13"], lambda h: [h.new(bits_of("v"), "v")], bc_spec,
         requires=lambda C, a: isinstance(a[0], PtrV) and bits_list(C.rd(a[0])) is not None)


def dbg_in(h):
    al = h.slice(N, lambda i: int_to_field(bit("p", i.cval()), Sc), "AL")
    ar = h.slice(N, lambda i: int_to_field(bit("q", i.cval()), Sc) - Sc.const(1), "AR")
    return [h.new(h.struct(BC, AL=al, AR=ar), "bc"), h.new(h.nat("v"), "v")]


def dbg_spec(C, a):
    v = C.rd(a[1])
    ok = b_and(ieq(bits_of("p"), v), ieq(bits_of("q"), v))
    return [Case(ok, NIL, label="holds these bits"), Case(b_not(ok), ERR, label="holds other bits")]


Contract("(*%s).Debug" % BC, ["C20"], dbg_in, dbg_spec, apply=False, sym=False)


# ------------------------------------------------------------------ Verify
def powers(x, n):
    out = [Sc.const(1)]
    while len(out) < n:
        out.append(out[-1] * x)
    return out[:n]


def ssum(it):
    d = {}
    for p in it:
        for m, c in p.d.items():
            d[m] = (d.get(m, 0) + c) % Sc.mod
    return Sc({m: c for m, c in d.items() if c})


def equations(C, f):
    """the two points that must vanish"""
    V = [C.field(x, COM, "Value") for x in C.elems(f("V"))]
    m = len(V)
    nm = N * m
    ip = f("IPProof")
    Ls, Rs = C.elems(C.field(ip, IPP, "L")), C.elems(C.field(ip, IPP, "R"))
    a, b = C.field(ip, IPP, "A"), C.field(ip, IPP, "B")
    tr = Bytes()
    for p in V:
        tr = tr + encP(p)
    tr = tr + encP(f("A")) + encP(f("S"))
    y = Hs(tr)
    z = Hs(encS(y))
    tr = tr + encS(z) + encP(f("T1")) + encP(f("T2"))
    x = Hs(tr)
    tr = tr + encS(x) + encS(f("taux")) + encS(f("mu")) + encS(f("t"))
    w = Hs(tr)
    yp, zp = powers(y, nm), powers(z, m + 3)
    one = Sc.const(1)
    delta = (z - z * z) * ssum(yp) - ssum(zp[3 + j] * ((1 << N) - 1) for j in range(m))
    e1 = VB().scale(f("t") - delta) + BB().scale(f("taux")) - f("T1").scale(x) - f("T2").scale(x * x) - \
        lin((zp[j + 2], V[j]) for j in range(m))
    us = challenges(Ls, Rs)
    s = folded(us)
    G, H = chain(SEED, nm), chain(SEED1, nm)
    yi = powers(inverse(y), nm)
    e2 = lin((a * s[i] + z, G[i]) for i in range(nm))
    e2 = e2 + lin(((b * s[nm - 1 - i] - zp[2 + i // N] * (1 << (i % N))) * yi[i] - z, H[i]) for i in range(nm))
    e2 = e2 + VB().scale(w * (a * b - f("t"))) + BB().scale(f("mu")) - f("A") - f("S").scale(x)
    for u, l, r in zip(us, Ls, Rs):
        ui = inverse(u)
        e2 = e2 - l.scale(u * u) - r.scale(ui * ui)
    return e1, e2


def rp(h, m, l, r, name=""):
    ip = NIL if l is None else h.new(ipproof(h, l, r, name + "ip"), "ip")
    return h.struct(PR, V=coms(h, m, name + "V"), A=h.pt(name + "A"), S=h.pt(name + "S"), T1=h.pt(name + "T1"), T2=h.pt(name + "T2"),
                    taux=h.sc(name + "taux"), mu=h.sc(name + "mu"), t=h.sc(name + "t"), IPProof=ip)


def ver_spec(C, a):
    f = lambda x: C.field(a[0], PR, x)
    V = C.elems(f("V"))
    bad = Case(True, Tup(False, ERR), label="malformed")
    m = len(V)
    if m < 1 or m > 16 or m & (m - 1) or f("IPProof") is NIL:
        return [bad]
    Ls, Rs = C.elems(C.field(f("IPProof"), IPP, "L")), C.elems(C.field(f("IPProof"), IPP, "R"))
    if len(Ls) != len(Rs) or 1 << len(Ls) != N * m:
        return [bad]
    e1, e2 = equations(C, f)
    z = Pt.zero()
    ok = b_and(eqP(e1, z), eqP(e2, z))
    return [Case(ok, Tup(True, NIL), label="both equations hold"), Case(b_not(ok), Tup(False, ERR), label="an equation fails")]


GOOD = [(1, 6, 6), (2, 7, 7), (4, 8, 8), (8, 9, 9), (16, 10, 10)]
BADV = [(0, 0, 0), (0, 6, 6), (3, 7, 7), (3, 8, 8), (5, 8, 8), (6, 8, 8), (7, 9, 9), (9, 9, 9), (12, 10, 10), (15, 10, 10), (17, 10, 10), (32, 11, 11), (64, 12, 12),
        (1, None, 0), (4, None, 0), (1, 0, 0), (1, 5, 5), (1, 7, 7), (2, 6, 6), (4, 7, 7), (16, 9, 9), (16, 11, 11), (1, 6, 5), (1, 6, 7), (1, 5, 6),
        (1, 6, 0), (2, 7, 6), (4, 8, 9), (8, 9, 8), (16, 10, 9), (16, 10, 11), (1, 32, 32), (1, 38, 38), (1, 64, 64), (1, 70, 70)]
Contract(R + "Verify", ["C14", "C13"], lambda h, shape: [rp(h, *shape)], ver_spec, dims={"shape": GOOD + BADV}, finite=["shape"], sym=False)
# (the shapes not enumerated here are the subject of the two lemmas on shapes below)


def shapes(L, m, l, r):
    """every number of commitments and rounds but the five that fit is refused"""
    h = L.h
    m, l, r = I(m), I(l), I(r)
    for x in (m, l, r):
        h.assume(lt(x, 1 << 31))
    for g in GOOD:
        h.assume(b_not(b_and(ieq(m, g[0]), ieq(l, g[1]), ieq(r, g[2]))))
    if not L.pv.sat(L.st.pc):
        return
    for st, v in L.calls(L.st, R + "Verify", [rp(h, m, l, r)]):
        L.need(st, "refused with an error", b_and(b_not(v.v[0]), isinstance(v.v[1], ErrV)))


Lemma("range proof shapes", ["C14"], shapes, dims={"m": list(range(17)), "l": [0, 6, 7], "r": [0, 6, 7]}, finite=["m"], inline=[R + "Verify"])


def many(L, m, l, r):
    """more than 16 commitments are refused"""
    L.h.assume(lt(16, I(m)))
    shapes(L, m, l, r)


Lemma("range proof large shapes", ["C14"], many, dims={"m": [17, 32], "l": [6, 11], "r": [6, 11]}, inline=[R + "Verify"])


# ------------------------------------------------------------------ Prove
def prove_lemma(L, n, debug):
    h = L.h
    bs = [bits_of("v", j) for j in range(n)]
    vals = [int_to_field(b, Sc) for b in bs]
    v = h.slice(n, lambda i: vals[i.cval()], "values")
    pre = L.st.copy()
    m = next_pow2(n)
    for st, res in L.calls(L.st, R + "Prove", [v, bool(debug)]):
        p, err = res.v
        L.need(st, "proving succeeds", err is NIL)
        if err is not NIL:
            continue
        C = L.ctx(st)
        f = lambda x: C.field(p, PR, x)
        V = C.elems(f("V"))
        L.need(st, "as many commitments as values padded to a power of two", len(V) == m)
        rands = set(st.rands)
        seen = set()

        def fresh(s, what):
            a = s.single_atom()
            L.need(st, what + " is freshly sampled", a is not None and a in rands and a not in seen)
            seen.add(a)
        base = BB().single_atom()
        for j, c in enumerate(V):
            r = C.field(c, COM, "BlindingFactor")
            fresh(r, "blinding factor of each commitment")
            L.need(st, "each commitment opens to its value", eqP(C.field(c, COM, "Value"), VB().scale(vals[j] if j < n else Sc.const(0)) + BB().scale(r)))
        for x in ("A", "S", "T1", "T2"):
            fresh(f(x).d.get(base, Sc.const(0)), "blinding factor of " + x)
        G, H = chain(SEED, N * m), chain(SEED1, N * m)
        for g in G + H:
            fresh(f("S").d.get(g.single_atom(), Sc.const(0)), "blinding vector")
        for i in range(n):
            L.need(st, "the caller's values are unchanged", val_eq(L.ex, st, L.ex.sl_get(pre, v, i), L.ex.sl_get(st, v, i)))
        L.need(st, "memory behind the caller's slice is untouched", not any(e[0] == "clobber" for e in st.events))
        for s2, ok in L.calls(st, R + "Verify", [p]):
            L.need(s2, "the proof verifies", b_and(ok.v[0], ok.v[1] is NIL))


Lemma("range proof completeness", ["C13"], prove_lemma, dims={"n": list(range(1, 17)), "debug": [0, 1]}, finite=["n", "debug"], sym=False)


def prove_reject(L, n):
    h = L.h
    n = I(n)
    h.assume(b_or(ieq(n, 0), lt(16, n)))
    h.assume(lt(n, 1 << 31))
    v = h.scs("v", n)
    for st, res in L.calls(L.st, R + "Prove", [v, pred("debug")]):
        L.need(st, "refused", isinstance(res.v[1], ErrV))


Lemma("range proof refuses bad counts", ["C13"], prove_reject, dims={"n": [0, 17, 18, 32, 64]})


# ------------------------------------------------------------------ encoding
def pr_bytes(C, p, incl):
    f = lambda x: C.field(p, PR, x)
    b = coms_bytes(C, f("V")) if incl else Bytes()
    for x in ("A", "S", "T1", "T2"):
        b = b + encP(f(x))
    for x in ("taux", "mu", "t"):
        b = b + encS(f(x))
    return b + ip_bytes(C, f("IPProof"))


Contract("(*%s).Encode" % PR, ["C15"], lambda h, m, k, incl: [h.new(rp(h, m, k, k), "proof"), h.writer("w"), bool(incl)],
         lambda C, a: [Case(True, wrote(a[1], pr_bytes(C, a[0], a[2])), [(a[1].v, ANY)])],
         dims={"m": [0, 1, 2, 4], "k": [0, 1, 2, 6], "incl": [0, 1]}, finite=["incl"], apply=False)


def dec_in(h, m, k, cut, incl):
    n = (32 * I(m) if incl else I(0)) + 224 + 64 + 64 * I(k) + cut
    if n.is_const() and n.cval() <= 0:
        n = Int.const(0)
    b = (u32(m) if incl else Bytes()) + h.bsym("b", n)
    return [h.new(rp(h, 1, 1, 1, "old "), "proof"), h.reader("r", b), bool(incl)]


def dec_spec(C, a):
    b = C.rd(a[1].v).b
    m = Int.const(0)
    if a[2]:
        m = b.segs[0].args[0] if b.segs[0].head == "u32" else Int.const(int.from_bytes(b.segs[0].args[0][:4], "big"))
    body = b.segs[-1] if b.segs and b.segs[-1].head == "bsym" else None
    n = seglen(body) if body is not None else Int.const(0)
    k, left = lindivmod(n - 32 * m - 224 - 64, 64)
    bad = Case(True, ERR, [(a[0], ANY), (a[1].v, ANY)], label="truncated or invalid")
    if left != 0 or k.is_const() and k.cval() < 0:
        return [bad]
    at = lambda o: Bytes((atom("bsub", body, 32 * I(o), 32 * I(o) + 32),))
    ok = b_and(le(0, k), forall_(m, lambda i: okP(at(i))), *[okP(at(m + i)) for i in range(4)],
               forall_(k, lambda i: okP(at(m + 9 + 2 * i))), forall_(k, lambda i: okP(at(m + 10 + 2 * i))))
    place = lambda x: C.fptr(a[0], PR, x)
    w = [(place(x), decP(at(m + i))) for i, x in enumerate(("A", "S", "T1", "T2"))]
    w += [(place(x), dec_scalar(at(m + 4 + i))) for i, x in enumerate(("taux", "mu", "t"))]
    o = m + 7
    w.append((place("IPProof"), Fresh(St(IPP, A=dec_scalar(at(o)), B=dec_scalar(at(o + 1)), L=VVec(k, lambda i: decP(at(o + 2 + 2 * i))),
                                         R=VVec(k, lambda i: decP(at(o + 3 + 2 * i)))))))
    if a[2]:
        w.append((place("V"), VVec(m, lambda i: St(COM, Value=decP(at(i))))))
    return [Case(ok, NIL, w + [(a[1].v, ANY)], label="well-formed"), Case(b_not(ok), ERR, [(a[0], ANY), (a[1].v, ANY)], label="invalid point")]


Contract("(*%s).Decode" % PR, ["C15"], dec_in, dec_spec,
         dims={"m": [0, 1, 2], "k": [0, 1, 2], "cut": [0, 1, -1, -32, -64, -96, -200, -288, 32], "incl": [0, 1]}, finite=["cut", "incl"], apply=False)


def hostile(L, t, k, stray):
    """a stream that ends too early for what its header claims, or goes on with a part of a round: an error,
    and no memory reserved for the claim"""
    h = L.h
    n = Int.of(atom("nat", "count", rng=(0, 2**32 - 1)))
    ln = I(t)
    if stray:
        if not L.ex.symbolic:
            n = Int.const(2)
        ln = 32 * n + 288 + 64 * I(k) + Int.of(atom("nat", "stray", rng=(1, 63)))
    else:
        h.assume(lt(t, 32 * n + 288))
    p = h.new(rp(h, 1, 1, 1, "old "), "proof")
    for st, v in L.calls(L.st, "(*%s).Decode" % PR, [p, h.reader("r", u32(n) + h.bsym("tail", ln)), True]):
        L.need(st, "rejected", isinstance(v, ErrV))
        L.need(st, "no allocation sized by the claim", not any(e[0] == "make" for e in st.events))


Lemma("range proof hostile header", ["C15"], hostile, dims={"t": [0, 31, 32, 100, 287, 319], "k": [0, 1], "stray": [0, 1]}, finite=["stray"])


def roundtrip(L, m, k, incl):
    h = L.h
    p = h.new(rp(h, m, k, k), "proof")
    q = h.new(rp(h, 1, 1, 1, "old "), "out")
    w = h.writer("w", fail=False)
    for st, v in L.calls(L.st, "(*%s).Encode" % PR, [p, w, bool(incl)]):
        L.need(st, "encodes", v is NIL)
        rd = IfaceV("reader", PtrV(L.ex.alloc(st, "rd", StreamV(L.ex.read(st, w.v).b, "r", False))))
        for s2, e in L.calls(st, "(*%s).Decode" % PR, [q, rd, bool(incl)]):
            L.need(s2, "decodes", e is NIL)
            C = L.ctx(s2)
            for s3, ok in L.calls(s2, "(*%s).Equals" % PR, [p, C.rd(q), bool(incl)]):
                L.need(s3, "equal to the original", ok)
            for x in ("A", "S", "T1", "T2", "taux", "mu", "t"):
                L.need(s2, "same " + x, C.field(p, PR, x) == C.field(q, PR, x))


Lemma("range proof encode/decode", ["C15"], roundtrip, dims={"m": [0, 1, 2, 4, 16], "k": [0, 1, 6, 10], "incl": [0, 1]}, finite=["incl"])


def eq_spec(C, a):
    f = lambda x: C.field(a[0], PR, x)
    g = lambda x: C.field(a[1], PR, x)
    r = b_and(*[eqP(f(x), g(x)) for x in ("A", "S", "T1", "T2")], *[eqS(f(x), g(x)) for x in ("taux", "mu", "t")])
    p, q = f("IPProof"), g("IPProof")
    r = b_and(r, p is q if p is NIL or q is NIL else same_proof(C, p, q))
    (n, V), (m, W) = C.vec(f("V")), C.vec(g("V"))
    same = ieq(n, m)
    cv = same if same is False else b_and(same, forall_(n, lambda i: eqP(C.field(V(i), COM, "Value"), C.field(W(i), COM, "Value"))))
    return [Case(True, b_and(r, b_or(b_not(a[2]), cv)))]


EQ = lambda h, a, b: [h.new(rp(h, *a, name="a"), "a"), rp(h, *b, name="b"), pred("includeCommits")]
Contract("(*%s).Equals" % PR, ["C15"], lambda h, m1, l1, m2, l2, none: EQ(h, (m1, None if none & 1 else l1, 0 if none & 1 else l1), (m2, None if none & 2 else l2, 0 if none & 2 else l2)),
         eq_spec, dims={"m1": [0, 1, 2], "l1": [0, 1, 2], "m2": [0, 1, 2], "l2": [0, 1, 2], "none": [0, 1, 2, 3]}, finite=["none"])
