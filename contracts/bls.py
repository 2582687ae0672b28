"""Contracts of package bls and hash."""
from terms import *
from values import *
from contract import *
from externs import b64dec
import externs
from externs import B1, B2, okP, genc

PK, APK, SIG, USIG, SK = "bls.PublicKey", "bls.Apk", "bls.Signature", "bls.UnsafeSignature", "bls.SecretKey"


def sha(b, alg="sha3-256", n=32):
    return hashB(alg, n, b)


def h2i(b):
    return int_to_field(Int.of(atom("nat", "beint", sha(b))), Sb)


def H0(m):
    return B1().scale(h2i(m))


def H1(pk):
    return h2i(encG(pk))


# ------------------------------------------------------------------ input builders
def mkpk(h, name, p=None):
    g = h.gp(name, "G2") if p is None else h.gval(p)
    return h.new(h.struct(PK, gx=g), name)


def mkapk(h, name):
    return h.new(h.struct(APK, PublicKey=mkpk(h, name + ".pk")), name)


def mksig(h, name, t=SIG):
    return h.new(h.struct(t, e=h.gp(name, "G1")), name)


def mksk(h, name):
    x = Int.of(atom("nat", name))
    return h.new(h.struct(SK, x=h.new(x, name)), name)


def pkg(C, p):
    return C.g(C.field(p, PK, "gx"))


def apkpk(C, p):
    return C.field(p, APK, "PublicKey")


def apkg(C, p):
    return pkg(C, apkpk(C, p))


def sigg(C, p, t=SIG):
    return C.g(C.field(p, t, "e"))


def skx(C, p):
    return int_to_field(C.rd(C.field(p, SK, "x")), Sb)


def accept(c):
    return [Case(c, NIL, label="equation holds: accepted"), Case(b_not(c), ERR, label="equation fails: rejected")]


def msgfam(h, name, n):
    f = h.fam(name + "!", n, lambda i: BArr(Bytes((atom("bsym", name, atlen(name, i), I(i)),))))
    return h.slice(n, lambda i: SliceV(f(0).root, (("i", I(i)),), 0, atlen(name, i), None), name)


def atlen(name, i):
    return Int.of(atom("nat", "len " + name, I(i)))


def msgat(C, s, i):
    return C.bytes(C.ex.sl_get(C.st, s, i))


# ------------------------------------------------------------------ C01: sign / verify
Contract("bls.verify", ["C01"], lambda h: [h.gp("pk", "G2"), h.bytes("msg"), h.gp("sig", "G1")],
         lambda C, a: accept(eqP(pair(C.g(a[2]), B2()), pair(H0(C.bytes(a[1])), C.g(a[0])))))

Contract("bls.Verify", ["C01"], lambda h: [mkapk(h, "apk"), h.bytes("msg"), mksig(h, "sig")],
         lambda C, a: accept(eqP(pair(sigg(C, a[2]), B2()), pair(H0(C.bytes(a[1])), apkg(C, a[0])))))

Contract("bls.VerifyUnsafe", ["C01"], lambda h: [mkpk(h, "pk"), h.bytes("msg"), mksig(h, "sig", USIG)],
         lambda C, a: accept(eqP(pair(sigg(C, a[2], USIG), B2()), pair(H0(C.bytes(a[1])), pkg(C, a[0])))))

Contract("bls.UnsafeSign", ["C01"], lambda h: [mksk(h, "x"), h.bytes("msg")],
         lambda C, a: [Case(True, Tup(Fresh(St(USIG, e=GP(H0(C.bytes(a[1])).scale(skx(C, a[0]))))), NIL))])

Contract("bls.Sign", ["C01"], lambda h: [mksk(h, "x"), mkpk(h, "pk"), h.bytes("msg")],
         lambda C, a: [Case(True, Tup(Fresh(St(SIG, e=GP(H0(C.bytes(a[2])).scale(skx(C, a[0]) * H1(pkg(C, a[1])))))), NIL))])

Contract("bls.h0", ["C01"], lambda h: [h.bytes("msg")],
         lambda C, a: [Case(True, Tup(GP(H0(C.bytes(a[0]))), NIL))])

Contract("bls.h1", ["C01", "C02"], lambda h: [mkpk(h, "pk")],
         lambda C, a: [Case(True, Tup(Fresh(Int.of(atom("nat", "beint", sha(encG(pkg(C, a[0])))))), NIL))])


def genkey_spec(C, a):
    def good(M, v):
        ex, st = M.ex, M.st
        out = []
        pk, sk, err = v.v
        if err is not NIL:
            # only when the randomness source fails
            out.append(("error only when sampling fails",
                        any(isinstance(c, Atom) and c.head == "p" and c.args[0] == "randfail" for c in st.pc)))
            return out
        c2 = Ctx(ex, st, "check")
        g = pkg(c2, pk)
        x = c2.rd(c2.field(sk, SK, "x"))
        out.append(("public key is secret key times the base point", eqP(g, B2().scale(int_to_field(x, Sb)))))
        xa = x.single_atom()
        out.append(("secret key is freshly sampled", xa is not None and xa in st.rands))
        src = st.ghost.get("randsrc")
        want = a[0] if a[0] is not NIL else IfaceV("randreader", PtrV("global:randreader"))
        out.append(("the given randomness source is used", src == want))
        return out
    return [Case(True, Pred(good))]


def genkey_in(h, nil):
    return [NIL if nil else IfaceV("randsource", h.new(OpaqueV("source"), "source"))]


Contract("bls.GenKeyPair", ["C01"], genkey_in, genkey_spec, dims={"nil": [0, 1]}, finite=["nil"], sym=False, apply=False)

# ------------------------------------------------------------------ C02: aggregation
Contract("bls.pkt", ["C02"], lambda h: [mkpk(h, "pk")],
         lambda C, a: [Case(True, Tup(GP(pkg(C, a[0]).scale(H1(pkg(C, a[0])))), NIL))])
Contract("bls.NewApk", ["C02"], lambda h: [mkpk(h, "pk")],
         lambda C, a: [Case(True, Fresh(St(APK, PublicKey=Fresh(St(PK, gx=GP(pkg(C, a[0]).scale(H1(pkg(C, a[0]))))))))) ])
REG["bls.NewApk"].requires = lambda C, a: a[0] is not NIL


def gput(C, p, t, f, new):
    """the group element held in the field becomes new"""
    return (C.fptr(p, t, f), GOwn(new))


def agg_spec(C, a):
    new = apkg(C, a[0]) + pkg(C, a[1]).scale(H1(pkg(C, a[1])))
    return [Case(True, NIL, [gput(C, apkpk(C, a[0]), PK, "gx", new)])]


# operands that share memory: the receiver's own key as operand, the same object twice, two objects holding the
# same group element
def agg_in(h, alias):
    apk = mkapk(h, "apk")
    own = apkpk(Ctx(h.ex, h.st, "pre"), apk)
    if alias == 0:
        return [apk, mkpk(h, "pk")]
    return [apk, own if alias == 1 else h.new(h.struct(PK, gx=Ctx(h.ex, h.st, "pre").field(own, PK, "gx")), "pk")]


def two(mk, t, f):
    def g(h, alias):
        one = mk(h, "s")
        if alias == 0:
            return [one, mk(h, "o")]
        return [one, one if alias == 1 else h.new(h.struct(t, **{f: Ctx(h.ex, h.st, "pre").field(one, t, f)}), "o")]
    return g


AL = dict(dims={"alias": [0, 1, 2]}, finite=["alias"], sym=False)
Contract("(*bls.Apk).Aggregate", ["C02"], agg_in, agg_spec, **AL)


def aggkeys(h, n):
    f = h.fam("pks", n, lambda i: h.struct(PK, gx=gf(i)))
    return f


def shared(f, share):
    """element i of the list is the object of position share[i]: the same object may occur at several positions"""
    if not share:
        return f
    return lambda i: f(Int.const(share[I(i).cval()]))


# lists in which an object occurs more than once
SHARES = [(0, 0), (0, 0, 0), (0, 1, 1), (0, 0, 2), (0, 1, 0), (0, 1, 1, 3), (0, 1, 0, 1), (0, 1, 2, 2), (0, 1, 2, 1)]


def pkslice(h, n, share=None):
    gf = h.gfam("pk", n, "G2")
    f = h.fam("pks", n, lambda i: h.struct(PK, gx=gf(i)))
    return h.slice(n, shared(f, share), "pkslice")


def apkslice(h, n, share=None):
    gf = h.gfam("apk", n, "G2")
    f = h.fam("apks.pk", n, lambda i: h.struct(PK, gx=gf(i)))
    f2 = h.fam("apks", n, lambda i: h.struct(APK, PublicKey=f(i)))
    return h.slice(n, shared(f2, share), "apkslice")


def aggapk_spec(C, a):
    n, at = C.vec(a[0])
    tot = psum_(n, lambda i: pkg(C, at(i)).scale(H1(pkg(C, at(i)))), "G2")
    return [Case(le(1, n), Tup(Fresh(St(APK, PublicKey=Fresh(St(PK, gx=GP(tot))))), NIL), label="non-empty")
            if n != 0 else Case(True, ANY),
            Case(le(n, 0), ANY, label="no keys") if n != 0 else Case(False)]


Contract("bls.AggregateApk", ["C02"], lambda h, n, share=None: [pkslice(h, n, share)], aggapk_spec, dims={"n": [0, 1, 2, 3, 4]})
REG["bls.AggregateApk"].extra = [{"n": len(s), "share": s} for s in SHARES]

Contract("(*bls.Signature).Aggregate", ["C02"], two(mksig, SIG, "e"),
         lambda C, a: [Case(True, Same(a[0]), [gput(C, a[0], SIG, "e", sigg(C, a[0]) + sigg(C, a[1]))])], **AL)
Contract("bls.UnsafeAggregate", ["C02"], two(lambda h, n: mksig(h, n, USIG), USIG, "e"),
         lambda C, a: [Case(True, Fresh(St(USIG, e=GP(sigg(C, a[0], USIG) + sigg(C, a[1], USIG)))))], **AL)
Contract("(*bls.PublicKey).Aggregate", ["C02"], two(mkpk, PK, "gx"),
         lambda C, a: [Case(True, Fresh(St(PK, gx=GP(pkg(C, a[0]) + pkg(C, a[1])))))], **AL)
Contract("(*bls.Signature).Add", ["C02"], lambda h: [mksig(h, "s"), mkpk(h, "pk"), mksig(h, "o", USIG)],
         lambda C, a: [Case(True, NIL, [gput(C, a[0], SIG, "e", sigg(C, a[0]) + sigg(C, a[2], USIG).scale(H1(pkg(C, a[1]))))])])
Contract("bls.apkSigWrap", ["C01", "C02"], lambda h: [mkpk(h, "pk"), mksig(h, "o", USIG)],
         lambda C, a: [Case(True, Tup(Fresh(St(SIG, e=GP(sigg(C, a[1], USIG).scale(H1(pkg(C, a[0])))))), NIL))])


def ubatch_spec(C, a):
    n, at = C.vec(a[0])
    tot = psum_(n, lambda i: sigg(C, at(i), USIG), "G1")

    def good(M, v):
        if not isinstance(v, PtrV):
            return [("result is not nil", False)]
        c2 = Ctx(M.ex, M.st, "check")
        return [("sum of the signatures", eqP(sigg(c2, v, USIG), tot))]
    return [Case(le(1, n), Tup(Pred(good), NIL), label="non-empty"), Case(le(n, 0), ANY, label="empty")]


def sigslice(h, n, share=None):
    gf = h.gfam("usig", n, "G1")
    f = h.fam("usigs", n, lambda i: h.struct(USIG, e=gf(i)))
    return h.slice(n, shared(f, share), "usigslice")


Contract("bls.UnsafeBatch", ["C02"], lambda h, n, share=None: [sigslice(h, n, share)], ubatch_spec, dims={"n": [0, 1, 2, 3, 4]},
         apply=False)
REG["bls.UnsafeBatch"].extra = [{"n": len(s), "share": s} for s in SHARES]


def okG(g, b):
    return b_and(le({"G1": 64, "G2": 1}[g], b.len), externs.dec_group(b, g)[0])


def dec(g, b):
    return externs.dec_group(b, g)[1]


def okGc(b):
    return b_and(ieq(b.len, 33), externs.dec_compressed(b)[0])


def decGc(b):
    return externs.dec_compressed(b)[1]


def sigdec(C, b, compressed):
    """(accepts, point) of a signature encoding"""
    c33 = ieq(b.len, 33)
    okc = okGc(b)
    oku = b_and(b_not(c33) if compressed else True, okG("G1", b))
    return okc, oku


def aggbytes_apk(C, a):
    b = C.bytes(a[1])
    pk = dec("G2", b)
    new = apkg(C, a[0]) + pk.scale(H1(pk))
    ok = okG("G2", b)
    return [Case(ok, NIL, [gput(C, apkpk(C, a[0]), PK, "gx", new)], label="valid key"), Case(b_not(ok), ERR, label="malformed key")]


Contract("(*bls.Apk).AggregateBytes", ["C02", "C04"], lambda h: [mkapk(h, "apk"), h.bytes("data")], aggbytes_apk)


def aggbytes_sig(C, a):
    b = C.bytes(a[1])
    okc, oku = sigdec(C, b, True)
    cell = lambda g: gput(C, a[0], SIG, "e", g)
    return [Case(okc, NIL, [cell(sigg(C, a[0]) + decGc(b))], label="compressed"),
            Case(oku, NIL, [cell(sigg(C, a[0]) + dec("G1", b))], label="uncompressed"),
            Case(b_and(b_not(okc), b_not(oku)), ERR, label="malformed")]


Contract("(*bls.Signature).AggregateBytes", ["C02", "C04"], lambda h: [mksig(h, "s"), h.bytes("data")], aggbytes_sig)


# ------------------------------------------------------------------ C03: batch verification
def distinct_f(C, s):
    n, _ = C.vec(s)
    if n.is_const():
        return b_and(*[b_not(eqB(msgat(C, s, i), msgat(C, s, j))) for i in range(n.cval()) for j in range(i)])
    return forall_(n, lambda i: forall_(i, lambda j: b_not(eqB(msgat(C, s, i), msgat(C, s, j)))))


def batch(C, pkf, np, msgs, sig, allow):
    n, _ = C.vec(msgs)
    cnt = b_and(le(1, n), ieq(n, np))
    if cnt is False:
        return [Case(True, ERR, label="counts differ")]
    eq = eqP(pair(sig, B2()), psum_(n, lambda i: pair(H0(msgat(C, msgs, i)), pkf(i)), "GT"))
    d = b_or(allow, distinct_f(C, msgs))
    ok = b_and(cnt, d, eq)
    return [Case(ok, NIL, label="accepted"), Case(b_not(ok), ERR, label="rejected")]


def vb_in(h, n, m, share=None):
    gf = h.gfam("pk", n, "G2")
    return [h.slice(n, shared(gf, share), "pkslice"), msgfam(h, "msg", m), h.gp("sig", "G1"), pred("allowDistinct")]


NM = {"n": [0, 1, 2, 3], "m": [0, 1, 2, 3]}
Contract("bls.verifyBatch", ["C03"], vb_in,
         lambda C, a: batch(C, lambda i: C.g(C.vec(a[0])[1](i)), a[0].len, a[1], C.g(a[2]), a[3]), dims=NM)
Contract("bls.VerifyBatch", ["C03"], lambda h, n, m, share=None: [apkslice(h, n, share), msgfam(h, "msg", m), mksig(h, "sig")],
         lambda C, a: batch(C, lambda i: apkg(C, C.vec(a[0])[1](i)), a[0].len, a[1], sigg(C, a[2]), False), dims=NM)
Contract("bls.VerifyUnsafeBatch", ["C03"], lambda h, n, m, share=None: [pkslice(h, n, share), msgfam(h, "msg", m), mksig(h, "sig", USIG)],
         lambda C, a: batch(C, lambda i: pkg(C, C.vec(a[0])[1](i)), a[0].len, a[1], sigg(C, a[2], USIG), False), dims=NM)
for f_ in ("bls.verifyBatch", "bls.VerifyBatch", "bls.VerifyUnsafeBatch"):
    REG[f_].extra = [{"n": len(s), "m": len(s), "share": s} for s in SHARES if len(s) < 4 or s == (0, 1, 2, 2)]


def vc_spec(C, a):
    b = C.bytes(a[2])
    ok = okGc(b)
    sig = decGc(b)
    out = [Case(b_not(ok), ERR, label="malformed signature")]
    for c in batch(C, lambda i: C.g(C.vec(a[0])[1](i)), a[0].len, a[1], sig, a[3]):
        out.append(Case(b_and(ok, c.guard), c.ret, c.writes, c.label))
    return out


def vc_in(h, n, m, share=None):
    x = vb_in(h, n, m, share)
    return [x[0], x[1], h.bytes("sig"), x[3]]


Contract("bls.VerifyCompressed", ["C03", "C04"], vc_in, vc_spec, dims=NM)
REG["bls.VerifyCompressed"].extra = REG["bls.verifyBatch"].extra
Contract("bls.distinct", ["C03"], lambda h, n: [msgfam(h, "msg", n)],
         lambda C, a: [Case(True, distinct_f(C, a[0]))], dims={"n": [0, 1, 2, 3, 4]})


# ------------------------------------------------------------------ C04: serialisation
def unm(C, a, g, t, f, compressed=False):
    b = C.bytes(a[1])
    place = C.fptr(a[0], t, f)
    if compressed:
        okc, oku = sigdec(C, b, True)
        return [Case(okc, NIL, [(place, GP(decGc(b)))], label="compressed"),
                Case(oku, NIL, [(place, GP(dec(g, b)))], label="uncompressed"),
                Case(b_and(b_not(okc), b_not(oku)), ERR, label="malformed")]
    ok = okG(g, b)
    bad = [(place, ANY)] if g == "G2" else []
    return [Case(ok, NIL, [(place, GP(dec(g, b)))], label="valid"), Case(b_not(ok), ERR, bad, label="malformed")]


Contract("(*bls.PublicKey).Unmarshal", ["C04"], lambda h: [mkpk(h, "pk"), h.bytes("data")],
         lambda C, a: unm(C, a, "G2", PK, "gx"))
Contract("(*bls.Signature).Unmarshal", ["C04"], lambda h: [mksig(h, "s"), h.bytes("data")],
         lambda C, a: unm(C, a, "G1", SIG, "e", True))
Contract("(*bls.UnsafeSignature).Unmarshal", ["C04"], lambda h: [mksig(h, "s", USIG), h.bytes("data")],
         lambda C, a: unm(C, a, "G1", USIG, "e"))


def mk_unm(fn, g, wrap, compressed=False):
    def spec(C, a):
        b = C.bytes(a[0])
        if compressed:
            okc, oku = sigdec(C, b, True)
            return [Case(okc, Tup(wrap(decGc(b)), NIL), label="compressed"),
                    Case(oku, Tup(wrap(dec(g, b)), NIL), label="uncompressed"),
                    Case(b_and(b_not(okc), b_not(oku)), Tup(NIL, ERR), label="malformed")]
        ok = okG(g, b)
        return [Case(ok, Tup(wrap(dec(g, b)), NIL), label="valid"), Case(b_not(ok), Tup(NIL, ERR), label="malformed")]
    Contract(fn, ["C04"], lambda h: [h.bytes("data")], spec)


mk_unm("bls.UnmarshalPk", "G2", lambda p: Fresh(St(PK, gx=GP(p))))
mk_unm("bls.UnmarshalApk", "G2", lambda p: Fresh(St(APK, PublicKey=Fresh(St(PK, gx=GP(p))))))
mk_unm("bls.UnmarshalSignature", "G1", lambda p: Fresh(St(SIG, e=GP(p))), True)

Contract("(*bls.PublicKey).Marshal", ["C04"], lambda h: [mkpk(h, "pk")],
         lambda C, a: [Case(True, FBytes(encG(pkg(C, a[0]))))])
Contract("(*bls.Signature).Marshal", ["C04"], lambda h: [mksig(h, "s")],
         lambda C, a: [Case(True, FBytes(encG(sigg(C, a[0]))))])
Contract("(*bls.UnsafeSignature).Marshal", ["C04"], lambda h: [mksig(h, "s", USIG)],
         lambda C, a: [Case(True, FBytes(encG(sigg(C, a[0], USIG))))])
Contract("(*bls.Signature).Compress", ["C04"], lambda h: [mksig(h, "s")],
         lambda C, a: [Case(True, FBytes(encGc(sigg(C, a[0]))))])
Contract("(*bls.UnsafeSignature).Compress", ["C04"], lambda h: [mksig(h, "s", USIG)],
         lambda C, a: [Case(True, FBytes(encGc(sigg(C, a[0], USIG))))])


def decomp(t):
    def spec(C, a):
        b = C.bytes(a[1])
        ok = okGc(b)
        return [Case(ok, NIL, [(C.fptr(a[0], t, "e"), GP(decGc(b)))], label="valid"),
                Case(b_not(ok), ERR, label="malformed")]
    return spec


Contract("(*bls.Signature).Decompress", ["C04"], lambda h: [mksig(h, "s"), h.bytes("data")], decomp(SIG))
Contract("(*bls.UnsafeSignature).Decompress", ["C04"], lambda h: [mksig(h, "s", USIG), h.bytes("data")], decomp(USIG))
Contract("(*bls.Signature).Copy", ["C04"], lambda h: [mksig(h, "s")],
         lambda C, a: [Case(True, Fresh(St(SIG, e=GP(sigg(C, a[0])))))])
Contract("(*bls.Apk).Copy", ["C04"], lambda h: [mkapk(h, "s")],
         lambda C, a: [Case(True, Fresh(St(APK, PublicKey=Fresh(St(PK, gx=GP(apkg(C, a[0])))))))])


def b64(b):
    return Bytes((atom("b64", "global:encoding/base64.RawURLEncoding", b),))


Contract("(*bls.PublicKey).MarshalText", ["C04"], lambda h: [mkpk(h, "pk")],
         lambda C, a: [Case(True, Tup(FBytes(b64(encG(pkg(C, a[0])))), NIL))])


def unmtext_in(h, valid):
    # valid: text produced by MarshalText for an arbitrary key; otherwise arbitrary bytes
    if valid:
        b = b64(encG(h.pt("key", "G2")))
        return [mkpk(h, "pk"), SliceV(h.ex.alloc(h.st, "text", BArr(b), "caller"), (), 0, b.len, None)]
    return [mkpk(h, "pk"), h.bytes("text")]


def unmtext_spec(C, a):
    b = C.bytes(a[1])
    place = C.fptr(a[0], PK, "gx")
    if b.segs and b.segs[0].head == "b64":
        return [Case(True, NIL, [(place, GP(b.segs[0].args[1].segs[0].args[0]))], label="round trip")]

    def either(M, v):
        # whatever the text: an error, or the key becomes what the decoded bytes denote
        if v is not NIL:
            return [("an error value", isinstance(v, ErrV))]
        g = M.ex.read(M.st, place)
        p = M.ex.read(M.st, M.ex.read(M.st, g))
        a0 = p.single_atom()
        ok, d = b64dec("global:encoding/base64.RawURLEncoding", b)
        return [("accepted text is base64", ok),
                ("accepted text decodes to the key", a0 is not None and a0.head == "dec" and a0.args[0] == "G2" and
                 pred("okG2", a0.args[1]) in M.pc),
                ("the key is what the decoded bytes denote", a0 is not None and eqB(a0.args[1], d))]
    return [Case(True, Pred(either), [(place, ANY)])]


Contract("(*bls.PublicKey).UnmarshalText", ["C04"], unmtext_in, unmtext_spec, dims={"valid": [1, 0]}, finite=["valid"],
         sym=False, apply=False)


# round trips as lemmas: run the encoder's specification through the decoder's code
def rt_in(mk, enc):
    def f(h):
        b = enc(h)
        return [mk(h), SliceV(h.ex.alloc(h.st, "data", BArr(b), "caller"), (), 0, b.len, None)]
    return f
