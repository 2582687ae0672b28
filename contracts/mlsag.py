"""Contracts of package mlsag."""
from terms import *
from values import *
from contract import *
from terms import _sub
from externs import decP, okP, dec_scalar

P = "mlsag."
SIG, PKS, DK, PROOF = P + "Signature", P + "PubKeys", P + "DualKey", P + "Proof"


def chal(msg, rs, kis, ks, c):
    """challenge following the member with responses rs and keys ks"""
    n = len(ks)
    b = msg
    for r, k in zip(rs, ks):
        b = b + encP(BASE().scale(r) + k.scale(c))
    for r, k, ki in zip(rs, ks, kis):
        b = b + encP(HP(encP(k)).scale(r) + ki.scale(c))
    return Hs(b)


def chal_sym(C, msg, rs, kis, ks, c):
    n, k = C.vec(ks)
    _, r = C.vec(rs)
    m, ki = C.vec(kis)
    return Hs(msg + cat_(n, lambda i: encP(BASE().scale(r(i)) + k(i).scale(c)))
              + cat_(m, lambda i: encP(HP(encP(k(i))).scale(r(i)) + ki(i).scale(c))))


def gc_in(h, n, k):
    keys = h.struct(PKS, keys=h.pts("K", n))
    return [h.bytes("m"), h.scs("r", n), h.pts("KI", k), keys, h.sc("c")]


def gc_spec(C, a):
    keys = C.field(a[3], PKS, "keys")
    ok = le(a[2].len, a[1].len)
    return [Case(True, Tup(chal_sym(C, C.bytes(a[0]), a[1], a[2], keys, a[4]), NIL))]


Contract(P + "generateChallenge", ["C10", "C11"], gc_in, gc_spec, dims={"n": [0, 1, 2, 3], "k": [0, 1, 2, 3]},
         requires=lambda C, a: b_and(le(a[2].len, a[1].len), ieq(a[1].len, C.field(a[3], PKS, "keys").len)))

Contract(P + "CalculateKeyImage", ["C10"], lambda h: [h.sc("x"), h.pt("K")],
         lambda C, a: [Case(True, HP(encP(a[1])).scale(a[0]))])


# ------------------------------------------------------------------ Verify
def rows(h, name, lens, elem):
    """[][]elem with the given row lengths (as slices)"""
    out = []
    for i, n in enumerate(lens):
        out.append(h.slice(n, lambda j, i=i: elem(i, j), name + str(i)))
    return out


def sig_in(h, rl, kl, name=""):
    r = rows(h, name + "r", rl, lambda i, j: Sc.of(atom("sv", name + "r", Int.const(i), I(j))))
    k = rows(h, name + "K", kl, lambda i, j: Pt.of(atom("pv", name + "K", Int.const(i), I(j))))
    return h.struct(SIG, c=h.sc(name + "c"), r=h.slice(len(r), lambda i: r[i.cval()], name + "r"),
                    PubKeys=h.slice(len(k), lambda i: h.struct(PKS, keys=k[i.cval()], decoy=pred("decoyflag", name, i)), name + "K"),
                    Msg=h.bytes(name + "msg"))


def sig_any(h, nr, nk, name="", wr=None, wk=None):
    """signature with nr rows of responses and nk rows of keys; row i has any length of its own (or wr(i), wk(i))"""
    wr = wr or (lambda i: Int.of(atom("nat", name + "wr", i)))
    wk = wk or (lambda i: Int.of(atom("nat", name + "wk", i)))
    r = fam_rows(h, name + "rs", nr, wr, lambda i, j: Sc.of(atom("sv", name + "r", i, j)))
    k = fam_rows(h, name + "Ks", nk, wk, lambda i, j: Pt.of(atom("pv", name + "K", i, j)))
    return h.struct(SIG, c=h.sc(name + "c"), r=h.slice(nr, r, name + "r"),
                    PubKeys=h.slice(nk, lambda i: h.struct(PKS, keys=k(i), decoy=pred("decoyflag", name, i)), name + "K"),
                    Msg=h.bytes(name + "msg"))


SHAPES = [((), ()), ((1,), ()), ((), (1,)), ((0,), (0,)), ((1,), (1,)), ((2,), (2,)), ((1, 1), (1, 1)), ((2, 2), (2, 2)),
          ((2, 2, 2), (2, 2, 2)), ((2, 2), (2, 2, 2)), ((2, 2, 2), (2, 2)), ((1, 2), (2, 2)), ((2, 1), (2, 2)), ((2, 2), (1, 2)),
          ((2, 2), (2, 1)), ((2, 2), (3, 3)), ((3, 3), (2, 2)), ((1, 1, 1, 1), (1, 1, 1, 1)), ((3, 3), (3, 3))]


def v_in(h, shape, k):
    if isinstance(shape, Int):
        return [h.new(sig_any(h, shape, h.nat("members")), "sig"), h.pts("KI", k)]
    if isinstance(shape, int):
        shape = ((2,) * shape,) * 2
    return [h.new(sig_in(h, *shape), "sig"), h.pts("KI", k)]


def v_spec(C, a):
    f = lambda x: C.field(a[0], SIG, x)
    (n, r), (m, k) = C.vec(f("r")), C.vec(f("PubKeys"))
    keys = lambda i: C.field(k(i), PKS, "keys")
    bad = Case(True, Tup(False, ERR), label="malformed")
    ok = b_and(le(1, n), ieq(n, m), le(1, a[1].len))
    if ok is False:
        return [bad]
    w = keys(0).len
    ok = b_and(ok, le(a[1].len, w), forall_(n, lambda i: b_and(ieq(keys(i).len, w), ieq(r(i).len, w))))
    if ok is False:
        return [bad]
    c = iter_(n, f("c"), lambda i, c: chal_sym(C, C.bytes(f("Msg")), r(i), a[1], keys(i), c))
    eq = eqS(c, f("c"))
    return [Case(b_and(ok, eq), Tup(True, NIL), label="ring closes"), Case(b_and(ok, b_not(eq)), Tup(False, ERR), label="ring does not close"),
            Case(b_not(ok), Tup(False, ERR), label="malformed")]


Contract("(*mlsag.Signature).Verify", ["C11"], v_in, v_spec, dims={"shape": SHAPES, "k": [0, 1, 2, 3]})


# ------------------------------------------------------------------ Prove
def prove_run(L, n, sub=0):
    """run a history of calls ending in Prove; yields the state, the result and the ring that is due.
    sub: 0 decoys only; 1 a point subtracted; 2 everything set twice, decoys added in two goes with a point subtracted
    after each; 3 a decoy with the signer's own keys, and one given twice"""
    h = L.h
    x, z, m = h.sc("x"), h.sc("z"), h.bytes("m")
    h.assume(b_not(eqS(x, Sc.const(0))))
    h.assume(b_not(eqS(z, Sc.const(0))))
    X, Z = BASE().scale(x), BASE().scale(z)
    ks = rows(h, "D", [2] * n, lambda i, j: (X, Z)[I(j).cval()] if sub == 3 and i == 0 else Pt.of(atom("pv", "D", Int.const(i), I(j))))
    if sub == 3 and n > 2:
        ks[2] = ks[1]
    decoys = lambda a, b: h.slice(b - a, lambda i: h.struct(PKS, keys=ks[a + i.cval()]), "decoys")
    q, q2 = h.pt("q"), h.pt("q2")
    D = "(*mlsag.DualKey)."
    set_ = [(D + "SetPrimaryKey", [x]), (D + "SetCommToZero", [z]), (D + "SetMsg", [m])]
    due = lambda k, off: (Pt.of(atom("pv", "D", Int.const(k), I(0))), Pt.of(atom("pv", "D", Int.const(k), I(1))) - off)
    if sub == 0:
        cs = set_ + [(D + "AddDecoys", [decoys(0, n)])]
        want = [due(i, Pt.zero()) for i in range(n)]
    elif sub == 1:
        cs = set_ + [(D + "AddDecoys", [decoys(0, n)]), (D + "SubCommToZero", [q])]
        want = [due(i, q) for i in range(n)]
    elif sub == 2:
        x0, z0 = h.sc("x0"), h.sc("z0")
        m0 = h.bytes("m0")
        k = n // 2
        cs = [(D + "AddDecoys", [decoys(0, k)]), (D + "SubCommToZero", [q]), (D + "SetMsg", [m0]), (D + "SetCommToZero", [z0]),
              (D + "SetPrimaryKey", [x0])] + [(D + "AddDecoy", [h.struct(PKS, keys=ks[i])]) for i in range(k, n)] + \
             [(D + "SubCommToZero", [q2])] + set_[::-1]
        want = [due(i, q + q2) for i in range(k)] + [due(i, q2) for i in range(k, n)]
    else:
        cs = [(D + "AddDecoys", [decoys(0, n)])] + set_
        want = [(X, Z)][:n] + [due(1, Pt.zero()) if i == 2 else due(i, Pt.zero()) for i in range(1, n)]
    pre = L.st.copy()

    def seq(st, d, calls):
        if not calls:
            yield st
            return
        f, args = calls[0]
        for s2, r in L.calls(st, f, [d] + args):
            if args == [x] and f.endswith("PrimaryKey"):
                L.need(s2, "primary public key", val_eq(L.ex, s2, X, r))
            if args == [z] and f.endswith("SetCommToZero"):
                L.need(s2, "second public key", val_eq(L.ex, s2, Z, r))
            yield from seq(s2, d, calls[1:])
    for st, d in L.calls(L.st, P + "NewDualKey", []):
        for st4 in seq(st, d, cs):
            for st5, v in L.calls(st4, D + "Prove", [d]):
                yield st5, v, x, z, m, ks, [(X, Z)] + want, pre


def prove_lemma(L, n, sub):
    pos = set()
    for st, v, x, z, m, ks, want, pre in prove_run(L, n, sub):
        C = L.ctx(st)
        sig, ki, err = v.v
        L.need(st, "proving succeeds", err is NIL)
        if err is not NIL:
            continue
        X, Z = BASE().scale(x), BASE().scale(z)
        L.need(st, "key image is x*Hp(xG)", eqP(ki, HP(encP(X)).scale(x)))
        f = lambda y: C.field(sig, SIG, y)
        L.need(st, "message", eqB(C.bytes(f("Msg")), C.bytes(m)))
        ring = [tuple(C.elems(C.field(k, PKS, "keys"))) for k in C.elems(f("PubKeys"))]
        L.need(st, "ring is the decoys plus the signer", sorted(ring, key=hash) == sorted(want, key=hash))
        rs = [C.elems(r) for r in C.elems(f("r"))]
        rands = set(st.rands)
        seen = set()
        signers = []
        for at, (k, row) in enumerate(zip(ring, rs)):
            L.need(st, "two responses per member", len(row) == 2)
            signer = k == (X, Z) and not (sub == 3 and all(s.single_atom() in rands for s in row))
            if signer:
                signers.append(at)
            for s in row:
                if signer:
                    fr = [t for mm in s.d for t, e in mm if t in rands and len(mm) == 1]
                    L.need(st, "signer's response is blinded by fresh randomness", len(fr) == 1 and fr[0] not in seen)
                    seen |= set(fr)
                else:
                    t = s.single_atom()
                    L.need(st, "decoy response is freshly sampled", t is not None and t in rands and t not in seen)
                    seen.add(t)
        L.need(st, "one member is the signer", len(signers) == 1)
        pos |= set(signers)
        for k in ks:
            for i in range(2):
                L.need(st, "the caller's decoy keys are untouched",
                       val_eq(L.ex, st, L.ex.sl_get(pre, k, i), L.ex.sl_get(st, k, i)))
        kisl = L.ex.mk_slice(st, [ki])
        for s2, r in L.calls(st, "(*mlsag.Signature).Verify", [sig, kisl]):
            L.need(s2, "the signature verifies", b_and(r.v[0], r.v[1] is NIL))
    L.need(L.st, "the signer can end up at every position", pos == set(range(n + 1)))


Lemma("mlsag completeness", ["C10"], prove_lemma, dims={"n": [0, 1, 2, 3, 4], "sub": [0, 1, 2, 3]}, finite=["sub"], sym=False)


def prove_reject(L, which):
    """secrets that are zero and decoys of the wrong size are refused"""
    h = L.h
    x = h.sc("x") if which != "x" else Sc.const(0)
    z = h.sc("z") if which != "z" else Sc.const(0)
    if which != "x":
        h.assume(b_not(eqS(x, Sc.const(0))))
    if which != "z":
        h.assume(b_not(eqS(z, Sc.const(0))))
    w = {"short": 1, "long": 3, "empty": 0}.get(which, 2)
    ks = rows(h, "D", [2, w], lambda i, j: Pt.of(atom("pv", "D", Int.const(i), I(j))))
    dec = h.slice(2, lambda i: h.struct(PKS, keys=ks[i.cval()]), "decoys")
    for st, d in L.calls(L.st, P + "NewDualKey", []):
        for st, _ in L.calls(st, "(*mlsag.DualKey).SetPrimaryKey", [d, x]):
            for st, _ in L.calls(st, "(*mlsag.DualKey).SetCommToZero", [d, z]):
                for st, _ in L.calls(st, "(*mlsag.DualKey).AddDecoys", [d, dec]):
                    for s2, v in L.calls(st, "(*mlsag.DualKey).Prove", [d]):
                        L.need(s2, "refused", isinstance(v.v[2], ErrV))


Lemma("mlsag refuses bad inputs", ["C10"], prove_reject, dims={"which": ["x", "z", "short", "long", "empty"]}, finite=["which"],
      sym=False)


# ------------------------------------------------------------------ encoding
def sig_bytes(C, f, keys):
    """encoding of a signature with at least one row"""
    (n, r), (m, k) = C.vec(f("r")), C.vec(f("PubKeys"))
    row = lambda s, enc: cat_(s.len, lambda j: enc(C.vec(s)[1](j)))
    b = encS(f("c")) + u32(n) + u32(r(0).len) + cat_(n, lambda i: row(r(i), encS))
    return b + cat_(m, lambda i: row(C.field(k(i), PKS, "keys"), encP)) if keys else b


def wrote(w, b):
    """result of an encoder: nil and exactly b written, or an error after a failed write"""
    def good(M, v):
        if v is NIL:
            return [("bytes written", eqB(M.ex.read(M.st, w.v).b, b))]
        return [("error only when a write fails", isinstance(v, ErrV) and
                 any(isinstance(c, Atom) and c.head == "p" and c.args[0] == "wfail" for c in M.st.pc))]
    return Pred(good)


def enc_spec(C, a):
    f = lambda x: C.field(a[0], SIG, x)
    n = f("r").len
    out = []
    if ieq(n, 0) is not False:
        out.append(Case(ieq(n, 0), wrote(a[1], encS(f("c")) + u32(n)), [(a[1].v, ANY)], label="no responses"))
    if ieq(n, 0) is not True:
        out.append(Case(b_not(ieq(n, 0)), wrote(a[1], sig_bytes(C, f, a[2])), [(a[1].v, ANY)], label="rows"))
    return out


def any_sig(h, shape, name=""):
    if isinstance(shape, Int):
        return sig_any(h, shape, h.nat("members" + name), name)
    return sig_in(h, *(((2,) * shape,) * 2 if isinstance(shape, int) else shape), name=name)


ESH = [((), ()), ((1,), (1,)), ((2, 2), (2, 2)), ((3, 3), (3, 3)), ((2, 2, 2), (2, 2, 2))]
Contract("(*mlsag.Signature).Encode", ["C12"],
         lambda h, shape, keys: [h.new(any_sig(h, shape), "sig"), h.writer("w"), bool(keys)], enc_spec,
         dims={"shape": ESH, "keys": [0, 1]}, finite=["keys"], apply=False)


Contract("(mlsag.Responses).Encode", ["C12"], lambda h, n: [h.scs("r", n), h.writer("w")],
         lambda C, a: [Case(True, wrote(a[1], cat_(a[0].len, lambda j: encS(C.vec(a[0])[1](j)))), [(a[1].v, ANY)])],
         dims={"n": [0, 1, 2]}, apply=False)
Contract("(mlsag.PubKeys).Encode", ["C12"], lambda h, n: [h.struct(PKS, keys=h.pts("K", n), decoy=pred("decoyflag")), h.writer("w")],
         lambda C, a: [Case(True, wrote(a[1], cat_(C.field(a[0], PKS, "keys").len, lambda j: encP(C.vec(C.field(a[0], PKS, "keys"))[1](j)))),
                            [(a[1].v, ANY)])],
         dims={"n": [0, 1, 2]}, apply=False)


def dec_in(h, r, n, keys):
    b = h.bsym("c", 32) + u32(r)
    if r:
        b = b + u32(n)
    b = b + h.bsym("tail")
    return [h.new(sig_in(h, (), (), "old "), "sig"), h.reader("r", b), bool(keys)]


def dec_spec(C, a):
    b = C.rd(a[1].v).b
    lit = [s for s in b.segs if s.head == "bl"][0].args[0]
    r = int.from_bytes(lit[:4], "big")
    n = int.from_bytes(lit[4:8], "big") if r else 0
    keys = a[2]
    tail = Bytes((b.segs[-1],))
    c = dec_scalar(Bytes((b.segs[0],)))
    place = lambda x: C.fptr(a[0], SIG, x)
    if r == 0:
        w = [(place("c"), c), (place("r"), VVec(0, None)), (a[1].v, StreamV(tail, "r", False))]
        if keys:
            w.append((place("PubKeys"), VVec(0, None)))
        return [Case(True, NIL, w, label="no responses")]
    if n == 0:
        return [Case(True, ERR, [(a[0], ANY), (a[1].v, ANY)], label="zero responses per user")]
    need = 32 * r * n * (2 if keys else 1)
    long = le(need, tail.len)
    nodec = lambda x: None
    sl = lambda k: slice_bytes(tail, 32 * k, 32 * k + 32, lambda c: True if c is not False else False)

    def at(k):
        return Bytes((atom("bsub", tail.segs[0], Int.const(32 * k), Int.const(32 * k + 32)),))
    ok = long
    if keys:
        ok = b_and(long, *[okP(at(r * n + k)) for k in range(r * n)])
    w = [(place("c"), c), (place("r"), FVec(r, lambda i: FVec(n, lambda j: dec_scalar(at(i.cval() * n + j.cval())))))]
    if keys:
        w.append((place("PubKeys"), FVec(r, lambda i: St(PKS, keys=FVec(n, lambda j: decP(at(r * n + i.cval() * n + j.cval())))))))
    rest = Bytes((atom("bsub", tail.segs[0], Int.const(need), tail.len),))

    def consumed(M, v):
        return [("exactly the encoding is consumed", eqB(M.ex.read(M.st, a[1].v).b, rest))]
    w.append((a[1].v, ANY))
    return [Case(ok, NIL, w, label="well-formed"),
            Case(b_not(ok), ERR, [(a[0], ANY), (a[1].v, ANY)], label="truncated or invalid")]


Contract("(*mlsag.Signature).Decode", ["C12"], dec_in, dec_spec, dims={"r": [0, 1, 2, 3, 4], "n": [0, 1, 2, 3], "keys": [0, 1]},
         sym=False, apply=False)


def row_in(obj):
    def f(h, n, m, cut):
        b = h.bsym("b", 32 * I(m) + cut)
        h.assume(lt(n, 1 << 32))
        return [h.new(obj(h), "row"), h.reader("r", b), I(n)]
    return f


def row_spec(points):
    def f(C, a):
        b = C.rd(a[1].v).b
        seg = b.segs[0] if b.segs else None
        at = lambda j: _sub(seg, 32 * I(j), 32 * I(j) + 32)
        n = a[2]
        ok = le(32 * n, b.len)
        if points and ok is not False:
            ok = b_and(ok, forall_(n, lambda j: okP(at(j))))
        place = C.fptr(a[0], PKS, "keys") if points else a[0]
        w = [(place, VVec(n, lambda j: (decP if points else dec_scalar)(at(j)))), (a[1].v, ANY)]
        return [Case(ok, NIL, w, label="well-formed"),
                Case(b_not(ok), ERR, [(a[0], ANY), (a[1].v, ANY)], label="truncated or invalid")]
    return f


Contract("(*mlsag.Responses).Decode", ["C12"], row_in(lambda h: NILSLICE), row_spec(False),
         dims={"n": [0, 1, 2], "m": [0, 1, 2, 3], "cut": [0, 31]}, finite=["cut"], apply=False)
Contract("(*mlsag.PubKeys).Decode", ["C12"], row_in(lambda h: h.struct(PKS, decoy=pred("decoyflag"))), row_spec(True),
         dims={"n": [0, 1, 2], "m": [0, 1, 2, 3], "cut": [0, 31]}, finite=["cut"], apply=False)


def hostile(L, cut, keys):
    """a short stream claiming any number of entries: an error, and no memory reserved for the claim"""
    h = L.h
    big = lambda k: Bytes((atom("u32", Int.of(atom("nat", k, rng=(1, 2**32 - 1)))),))
    b = h.bsym("c", 32) + big("lenR") + big("num") + h.bsym("tail", 31)
    b = {"c": h.bsym("c", 31), "lenR": h.bsym("c", 32) + h.bsym("x", 3), "num": h.bsym("c", 32) + big("lenR") + h.bsym("x", 3),
         "body": b, "empty": Bytes()}[cut]
    sig = h.new(sig_in(h, (), (), "old "), "sig")
    for st, v in L.calls(L.st, "(*mlsag.Signature).Decode", [sig, h.reader("r", b), bool(keys)]):
        L.need(st, "rejected", isinstance(v, ErrV))
        L.need(st, "no allocation sized by the claim", not any(e[0] == "make" for e in st.events))


Lemma("mlsag hostile header", ["C12"], hostile, dims={"cut": ["empty", "c", "lenR", "num", "body"], "keys": [0, 1]}, sym=False)


def roundtrip(L, shape, keys):
    h = L.h
    sv = sig_in(h, shape, shape)
    sig = h.new(sv, "sig")
    w = h.writer("w", fail=False)
    out = h.new(sig_in(h, (1,), (1,), "old "), "out")
    tail = h.bsym("rest")
    for st, v in L.calls(L.st, "(*mlsag.Signature).Encode", [sig, w, bool(keys)]):
        L.need(st, "encodes", v is NIL)
        b = L.ex.read(st, w.v).b
        rd = IfaceV("reader", PtrV(L.ex.alloc(st, "rd", StreamV(b + tail, "r", False))))
        for s2, e in L.calls(st, "(*mlsag.Signature).Decode", [out, rd, bool(keys)]):
            L.need(s2, "decodes", e is NIL)
            C = L.ctx(s2)
            for inc in ((False, True) if keys else (False,)):
                for s3, q in L.calls(s2, "(mlsag.Signature).Equals", [C.rd(sig), C.rd(out), inc]):
                    L.need(s3, "decoded signature equals the original", q)
            L.need(s2, "nothing else consumed", eqB(L.ex.read(s2, rd.v).b, tail))
            ra = [C.elems(x) for x in C.elems(C.field(out, SIG, "r"))]
            rb = [C.elems(x) for x in C.elems(C.field(sig, SIG, "r"))]
            L.need(s2, "same responses", ra == rb)


Lemma("mlsag encode/decode", ["C12"], roundtrip,
      dims={"shape": [(), (1,), (2,), (1, 1), (2, 2), (3, 3, 3), (2, 2, 2, 2), (5,) * 5, (7,), (1,) * 17], "keys": [0, 1]}, sym=False)


def same(C, x, y, eq):
    """rows of elements x and y agree in number, length, order and value"""
    (n, f), (m, g) = C.vec(x), C.vec(y)
    row = lambda u, v: False if ieq(u.len, v.len) is False else b_and(
        ieq(u.len, v.len), forall_(u.len, lambda j: eq(C.vec(u)[1](j), C.vec(v)[1](j))))
    return b_and(ieq(n, m), forall_(n, lambda i: row(f(i), g(i))) if ieq(n, m) is not False else False)


def same_keys(C, x, y):
    (n, f), (m, g) = C.vec(x), C.vec(y)
    k = lambda v: C.field(v, PKS, "keys")
    row = lambda u, v: False if ieq(u.len, v.len) is False else b_and(
        ieq(u.len, v.len), forall_(u.len, lambda j: eqP(C.vec(u)[1](j), C.vec(v)[1](j))))
    return b_and(ieq(n, m), forall_(n, lambda i: row(k(f(i)), k(g(i)))) if ieq(n, m) is not False else False)


def eq_spec(C, a):
    f = lambda x: C.field(a[0], SIG, x)
    g = lambda x: C.field(a[1], SIG, x)
    res = b_and(eqS(f("c"), g("c")), same(C, f("r"), g("r"), eqS), b_or(b_not(a[2]), same_keys(C, f("PubKeys"), g("PubKeys"))))
    return [Case(True, res)]


def eq_in(h, s1, s2):
    mk = lambda s, nm: sig_any(h, s, h.nat("members " + nm), nm) if isinstance(s, Int) else sig_in(h, *s, name=nm)
    return [mk(s1, "a"), mk(s2, "b"), pred("includeKeys")]


ES = [((), ()), ((1,), (1,)), ((2, 2), (2, 2)), ((2,), (2, 2)), ((2, 1), (2, 2)), ((2, 2), (1, 2)), ((2, 2), ()), ((0,), (0,)), ((0, 2), (0, 2))]
Contract("(mlsag.Signature).Equals", ["C12"], eq_in, eq_spec, dims={"s1": ES, "s2": ES})

Contract("(mlsag.Responses).Equals", ["C12"], lambda h, n, m: [h.scs("a", n), h.scs("b", m)],
         lambda C, a: [Case(True, b_and(ieq(a[0].len, a[1].len), forall_(a[0].len, lambda j: eqS(C.vec(a[0])[1](j), C.vec(a[1])[1](j)))
                                        if ieq(a[0].len, a[1].len) is not False else False))],
         dims={"n": [0, 1, 2], "m": [0, 1, 2]})


def pe_spec(C, a):
    x, y = C.field(a[0], PKS, "keys"), C.field(a[1], PKS, "keys")
    return [Case(True, b_and(ieq(x.len, y.len), forall_(x.len, lambda j: eqP(C.vec(x)[1](j), C.vec(y)[1](j)))
                             if ieq(x.len, y.len) is not False else False))]


Contract("(*mlsag.PubKeys).Equals", ["C12"],
         lambda h, n, m: [h.new(h.struct(PKS, keys=h.pts("a", n), decoy=pred("decoyflag", "a")), "pk"),
                          h.struct(PKS, keys=h.pts("b", m), decoy=pred("decoyflag", "b"))], pe_spec,
         dims={"n": [0, 1, 2], "m": [0, 1, 2]})


def ad_spec(C, a):
    def post(M, v):
        c2 = Ctx(M.ex, M.st, "check")
        m = c2.elems(c2.field(a[0], PROOF, "pubKeysMatrix"))
        out = [("one more member", len(m) == 1)]
        if len(m) == 1:
            k = c2.field(m[0], PKS, "keys")
            out.append(("keys copied", c2.elems(k) == C.elems(C.field(a[1], PKS, "keys"))))
            out.append(("keys not shared with the caller", k.root not in M.pre.mem or k.len == 0))
        return out
    return [Case(True, ANY, [(C.fptr(a[0], PROOF, "pubKeysMatrix"), ANY)], extra=post)]


Contract("(*mlsag.Proof).AddDecoy", ["C10"],
         lambda h, n: [h.new(h.struct(PROOF), "proof"), h.struct(PKS, keys=h.pts("K", n))], ad_spec,
         dims={"n": [0, 1, 2, 3]}, sym=False, apply=False)
