"""Assumed contracts of everything outside the repository (standard library, ristretto, bn256, hashes).

Every entry is an assumption; the ones a check actually used are listed in its evidence."""
import itertools
from terms import *
from values import *
from execu import Panic

TABLE = {}
RIST = "github.com/bwesterb/go-ristretto."
BNP = "github.com/dusk-network/bn256."
G1HEX = bytes.fromhex("00000000000000000000000000000000000000000000000000000000000000018fb501e34aa387f9aa6fecb86184dc21ee5b88d120b5b59e185cac6c5e089665")
G2HEX = bytes.fromhex("012ecca446ff6f3d4d03c76e9b5c752f28bc37b364cb05ac4a37eb32e1c32459708f25386f72c9462b81597d65ae2092c4b97792155dcdaad32b8a6dd41792534c2db10ef5233b0fe3962b9ee6a4bbc2b5bde01a54f3513d42df972e128f31bf12274e5747e8cafacc3716cc8699db79b22f0e4ff3c23e898f694420a3be3087a5")

_rc = itertools.count(1)


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def lookup(name):
    if name.endswith(".init"):
        return lambda ex, st, a: tup()
    return TABLE.get(name)


def method_name(prog, t, m):
    s = prog.types[t]["str"]
    if s.startswith("*"):
        return "(*%s).%s" % (s[1:], m)
    return "(%s).%s" % (s, m)


def tup(*v):
    return TupleV(v)


class NilDeref(Exception):
    pass


def rd(ex, st, p):
    if p is NIL:
        raise NilDeref()
    return ex.read(st, p)


def wrap_nil(f):
    def g(ex, st, args):
        try:
            return f(ex, st, args)
        except NilDeref:
            return [(st, Panic("nil dereference"))]
    return g


def rist(kind):
    def d(names):
        def dd(f):
            for n in names.split():
                TABLE["(*%s%s).%s" % (RIST, kind, n)] = wrap_nil(f)
            return f
        return dd
    return d


def fresh_rand(ex, st, kind="sc"):
    ctx = getattr(ex, "draws", None)
    if ctx is None:
        a = atom("rand", kind, next(_rc))
    else:
        # in an arbitrary iteration of a loop: the family of what that place draws, by iteration
        name, idx, n0 = ctx
        a = atom("rand", kind, "%s.%d" % (name, len(st.rands) - n0), *idx)
    st.rands = st.rands + (a,)
    return a


# ---------------------------------------------------------------- ristretto.Scalar
S = rist("Scalar")
P = rist("Point")


def bin_(f):
    def h(ex, st, a):
        if a[0] is NIL:
            raise NilDeref()
        ex.write(st, a[0], f(*[rd(ex, st, x) for x in a[1:]]))
        return a[0]
    return h


S("Add")(bin_(lambda x, y: x + y))
S("Sub")(bin_(lambda x, y: x - y))
S("Mul")(bin_(lambda x, y: x * y))
S("MulAdd")(bin_(lambda x, y, z: x * y + z))
S("MulSub")(bin_(lambda x, y, z: x * y - z))
S("Neg")(bin_(lambda x: -x))
S("Square")(bin_(lambda x: x * x))
S("Set")(bin_(lambda x: x))
S("SetZero")(bin_(lambda: Sc.const(0)))
S("SetOne")(bin_(lambda: Sc.const(1)))


def sc_inv(x):
    return inverse(x)


S("Inverse")(bin_(sc_inv))


@S("Rand")
def _(ex, st, a):
    ex.write(st, a[0], Sc.of(fresh_rand(ex, st)))
    return a[0]


@S("Derive")
def _(ex, st, a):
    ex.write(st, a[0], Hs(ex.sl_bytes(st, a[1])))
    return a[0]


@S("DeriveShort")
def _(ex, st, a):
    ex.write(st, a[0], Sc.of(atom("HsShort", ex.sl_bytes(st, a[1]), nonzero=True)))
    return a[0]


@S("Bytes MarshalBinary")
def _(ex, st, a):
    return ex.mk_bytes(st, encS(rd(ex, st, a[0])), cap=32)


TABLE["(*%sScalar).MarshalBinary" % RIST] = lambda ex, st, a: tup(ex.mk_bytes(st, encS(ex.read(st, a[0])), cap=32), NIL)
TABLE["(*%sPoint).MarshalBinary" % RIST] = lambda ex, st, a: tup(ex.mk_bytes(st, encP(ex.read(st, a[0])), cap=32), NIL)


@S("BytesInto")
def _(ex, st, a):
    ex.write(st, a[1], BArr(encS(rd(ex, st, a[0]))))
    return a[0]


def dec_scalar(b):
    if len(b.segs) == 1 and b.segs[0].head == "encS":
        return b.segs[0].args[0]
    if b.is_lit():
        v = int.from_bytes(b.litval(), "little") & ((1 << 253) - 1)
        return Sc.const(v)
    return Sc.of(atom("decS", b))


@S("SetBytes")
def _(ex, st, a):
    ex.write(st, a[0], dec_scalar(rd(ex, st, a[1]).b))
    return a[0]


def s_equal(x, y):
    return eqS(x, y)


S("Equals")(lambda ex, st, a: eqS(rd(ex, st, a[0]), rd(ex, st, a[1])))
S("EqualsI")(lambda ex, st, a: ite(eqS(rd(ex, st, a[0]), rd(ex, st, a[1])), Int.const(1), Int.const(0)))
S("IsNonZeroI")(lambda ex, st, a: ite(eqS(rd(ex, st, a[0]), Sc.const(0)), Int.const(0), Int.const(1)))
S("BigInt")(lambda ex, st, a: PtrV(ex.alloc(st, "big", field_to_int(rd(ex, st, a[0])))))
S("SetBigInt")(lambda ex, st, a: (ex.write(st, a[0], int_to_field(rd(ex, st, a[1]), Sc)), a[0])[1])
TABLE["(%sScalar).String" % RIST] = lambda ex, st, a: opaque_str()
TABLE["(%sPoint).String" % RIST] = lambda ex, st, a: opaque_str()

_oc = itertools.count(1)


def opaque_str():
    k = next(_oc)
    return Bytes((atom("bsym", "text%d" % k, Int.of(atom("nat", "textlen%d" % k))),))


# ---------------------------------------------------------------- ristretto.Point
P("Add")(bin_(lambda x, y: x + y))
P("Sub")(bin_(lambda x, y: x - y))
P("Neg")(bin_(lambda x: -x))
P("Set")(bin_(lambda x: x))
P("SetZero")(bin_(lambda: Pt.zero()))
P("SetBase")(bin_(lambda: BASE()))
P("ScalarMult PublicScalarMult")(bin_(lambda p, s: p.scale(s)))
P("ScalarMultBase PublicScalarMultBase")(bin_(lambda s: BASE().scale(s)))
P("Equals")(lambda ex, st, a: eq_points(st, rd(ex, st, a[0]), rd(ex, st, a[1])))
P("EqualsI")(lambda ex, st, a: ite(eq_points(st, rd(ex, st, a[0]), rd(ex, st, a[1])), Int.const(1), Int.const(0)))


def eq_points(st, x, y):
    """equality of points; an equation holds for a freshly sampled multiplier only if it holds coefficient by coefficient
    (assumption: Schwartz-Zippel, negligible error)"""
    d = x - y
    mine = set(st.rands)
    top = {a for c in d.d.values() for m in c.d for a, e in m if a in mine and a.args[0] == "sc"}
    if not top:
        return eqP(x, y)
    inner = set()
    for a, c in d.d.items():
        inner |= nested(a) & top
        for m in c.d:
            for b, e in m:
                if b not in top:
                    inner |= nested(b) & top
    for c in st.pc:
        if top <= inner:
            break
        if isinstance(c, Atom):
            inner |= nested(c) & top
    top -= inner
    parts = {}
    for a, c in d.d.items():
        for m, k in c.d.items():
            key = tuple(z for z in m if z[0] in top)
            rest = tuple(z for z in m if z[0] not in top)
            q = parts.setdefault(key, {}).setdefault(a, {})
            q[rest] = k
    cls = Pt.fld(d.g)
    return b_and(*[eqP(Pt(d.g, {a: cls(q) for a, q in ps.items()}), Pt.zero(d.g)) for ps in parts.values()])


_nest = {}
_none = frozenset()


def nested(t):
    """random atoms inside a term"""
    if isinstance(t, Atom):
        r = _nest.get(t)
        if r is None:
            r = frozenset((t,)) if t.head == "rand" else _none
            for x in t.args:
                if isinstance(x, (Atom, Poly, Pt, Bytes, tuple)):
                    q = nested(x)
                    if q:
                        r = r | q
            _nest[t] = r
        return r
    if isinstance(t, Poly):
        it = (a for m in t.d for a, e in m)
    elif isinstance(t, Pt):
        it = itertools.chain(t.d.keys(), t.d.values())
    elif isinstance(t, Bytes):
        it = t.segs
    elif isinstance(t, tuple):
        it = t
    else:
        return _none
    out = set()
    for x in it:
        out |= nested(x)
    return frozenset(out) if out else _none


@P("Derive")
def _(ex, st, a):
    ex.write(st, a[0], HP(ex.sl_bytes(st, a[1])))
    return a[0]


@P("DeriveDalek")
def _(ex, st, a):
    ex.write(st, a[0], Pt.of(atom("HPDalek", ex.sl_bytes(st, a[1]), nonzero=True)))
    return a[0]


@P("Rand")
def _(ex, st, a):
    ex.write(st, a[0], Pt.of(fresh_rand(ex, st, "pt")))
    return a[0]


P("Bytes")(lambda ex, st, a: ex.mk_bytes(st, encP(rd(ex, st, a[0])), cap=32))


@P("BytesInto")
def _(ex, st, a):
    ex.write(st, a[1], BArr(encP(rd(ex, st, a[0]))))
    return a[0]


def okP(b):
    if len(b.segs) == 1 and b.segs[0].head == "encP":
        return True
    if b.is_lit() and b.litval() == b"\0" * 32:
        return True
    return pred("okP", b)


def decP(b):
    if len(b.segs) == 1 and b.segs[0].head == "encP":
        return b.segs[0].args[0]
    if b.is_lit() and b.litval() == b"\0" * 32:
        return Pt.zero()
    return Pt.of(atom("decP", b))


@P("SetBytes")
def _(ex, st, a):
    b = rd(ex, st, a[1]).b
    out = []
    for s2, t in ex.branch(st, okP(b)):
        s2 = s2.copy()
        ex.write(s2, a[0], decP(b) if t else Pt.of(atom("Garbage", b)))
        out.append((s2, t))
    return out


# ---------------------------------------------------------------- bn256
def gval(ex, st, p):
    """group element behind *G (Panic if nil inside)"""
    v = rd(ex, st, p)
    if v is NIL:
        raise NilDeref()
    return ex.read(st, v)


def gset(ex, st, p, val):
    v = rd(ex, st, p)
    if v is NIL:
        ex.write(st, p, PtrV(ex.alloc(st, "grp", val)))
    else:
        ex.write(st, v, val)
    return p


def big(ex, st, p):
    return int_to_field(rd(ex, st, p), Sb)


def B1():
    return Pt.of(atom("B1", nonzero=True), "G1")


def B2():
    return Pt.of(atom("B2", nonzero=True), "G2")


def bn(g, n):
    def d(f):
        TABLE["(*%s%s).%s" % (BNP, g, n)] = wrap_nil(f)
        return f
    return d


def bn_add(ex, st, a):
    """sum; in G1 and G2 the result is a wrong point when the operands are equal and the first one is overwritten"""
    x, y = gval(ex, st, a[1]), gval(ex, st, a[2])
    if x.g == "GT" or rd(ex, st, a[0]) != rd(ex, st, a[1]) or x.is_zero() or y.is_zero():
        return gset(ex, st, a[0], x + y)
    out = []
    for s2, t in ex.branch(st, eqP(x, y)):
        s2 = s2.copy()
        out.append((s2, gset(ex, s2, a[0], Pt.of(atom("badDouble", x), x.g) if t else x + y)))
    return out


for _g in ("G1", "G2", "GT"):
    bn(_g, "Add")(lambda ex, st, a: bn_add(ex, st, a))
    bn(_g, "Neg")(lambda ex, st, a: gset(ex, st, a[0], -gval(ex, st, a[1])))
    bn(_g, "Set")(lambda ex, st, a: gset(ex, st, a[0], gval(ex, st, a[1])))
    bn(_g, "ScalarMult")(lambda ex, st, a: gset(ex, st, a[0], gval(ex, st, a[1]).scale(big(ex, st, a[2]))))
    bn(_g, "String")(lambda ex, st, a: opaque_str())
bn("G1", "ScalarBaseMult")(lambda ex, st, a: gset(ex, st, a[0], B1().scale(big(ex, st, a[1]))))
bn("G2", "ScalarBaseMult")(lambda ex, st, a: gset(ex, st, a[0], B2().scale(big(ex, st, a[1]))))
bn("GT", "ScalarBaseMult")(lambda ex, st, a: gset(ex, st, a[0], pair(B1(), B2()).scale(big(ex, st, a[1]))))


def genc(p):
    if p.is_zero() and p.g == "G2":
        return Bytes.lit(b"\0")
    return encG(p)


for _g in ("G1", "G2", "GT"):
    bn(_g, "Marshal")(lambda ex, st, a: ex.mk_bytes(st, genc(gval(ex, st, a[0])), cap=genc(gval(ex, st, a[0])).len))
bn("G1", "Compress")(lambda ex, st, a: ex.mk_bytes(st, encGc(gval(ex, st, a[0])), cap=64))


def dec_group(b, g):
    """(ok, value) of an uncompressed encoding (a prefix of b is enough)"""
    if b.segs and b.segs[0].head == "encG" and b.segs[0].args[0].g == g:
        return True, b.segs[0].args[0], Bytes(b.segs[1:])
    if b.is_lit():
        l = b.litval()
        if g == "G1" and l[:64] == G1HEX:
            return True, B1(), Bytes.lit(l[64:])
        if g == "G1" and l[:64] == b"\0" * 64:
            return True, Pt.zero("G1"), Bytes.lit(l[64:])
        if g == "G2" and l[:129] == G2HEX:
            return True, B2(), Bytes.lit(l[129:])
        if g == "G2" and l[:1] == b"\0":
            return True, Pt.zero("G2"), Bytes.lit(l[1:])
    return pred("ok" + g, b), Pt.of(atom("dec", g, b), g), None


MINLEN = {"G1": 64, "G2": 1, "GT": 384}


def unmarshal(g):
    def h(ex, st, a):
        if a[0] is NIL:
            raise NilDeref()
        b = ex.sl_bytes(st, a[1])
        out = []
        for s1, long in ex.branch(st, le(MINLEN[g], b.len)):
            if not long:
                s1 = s1.copy()
                if g == "G2" and ex.read(s1, a[0]) is NIL:
                    gset(ex, s1, a[0], Pt.of(atom("Garbage", b), g))
                out.append((s1, tup(NILSLICE, ErrV("short"))))
                continue
            ok, v, rest = dec_group(b, g)
            for s2, t in ex.branch(s1, ok):
                s2 = s2.copy()
                gset(ex, s2, a[0], v if t else Pt.of(atom("Garbage", b), g))
                if t:
                    if rest is not None:
                        k = b.len - rest.len
                        r = SliceV(a[1].root, a[1].path, a[1].off + k, rest.len, None)
                    else:
                        r = SliceV(ex.alloc(s2, "rest", BArr(opaque_str())), (), 0, 0, None)
                    out.append((s2, tup(r, NIL)))
                else:
                    out.append((s2, tup(NILSLICE, ErrV("malformed"))))
        return out
    return h


for _g in ("G1", "G2", "GT"):
    bn(_g, "Unmarshal")(unmarshal(_g))


def dec_compressed(b):
    if len(b.segs) == 1 and b.segs[0].head == "encGc":
        return True, b.segs[0].args[0]
    return pred("okGc", b), Pt.of(atom("decGc", b), "G1")


@reg(BNP + "Decompress")
def _(ex, st, a):
    b = ex.sl_bytes(st, a[0])
    out = []
    for s1, l33 in ex.branch(st, ieq(b.len, 33)):
        if not l33:
            out.append((s1.copy(), tup(NIL, ErrV("length"))))
            continue
        ok, v = dec_compressed(b)
        for s2, t in ex.branch(s1, ok):
            s2 = s2.copy()
            if t:
                r = ex.alloc(s2, "grp", v)
                out.append((s2, tup(PtrV(ex.alloc(s2, "G1", PtrV(r))), NIL)))
            else:
                out.append((s2, tup(NIL, ErrV("malformed"))))
    return out


def mkg(ex, st, v):
    return PtrV(ex.alloc(st, v.g, PtrV(ex.alloc(st, "grp", v))))


TABLE[BNP + "Pair"] = wrap_nil(lambda ex, st, a: mkg(ex, st, pair(gval(ex, st, a[0]), gval(ex, st, a[1]))))


@reg(BNP + "RandomG2")
def _(ex, st, a):
    s1, s2 = st.copy(), st.copy()
    k = next(_rc)
    f = pred("randfail", k)
    s1.pc = s1.pc + (b_not(f),)
    s2.pc = s2.pc + (f,)
    x = atom("nat", "randbig", k)
    s1.rands = s1.rands + (x,)
    src = a[0]
    s1.ghost = dict(s1.ghost)
    s1.ghost["randsrc"] = src
    xi = Int.of(x)
    return [(s1, tup(PtrV(ex.alloc(s1, "big", xi)), mkg(ex, s1, B2().scale(int_to_field(xi, Sb))), NIL)),
            (s2, tup(NIL, NIL, ErrV("rand")))]


# ---------------------------------------------------------------- math/big
def bg(n):
    def d(f):
        for x in n.split():
            TABLE["(*math/big.Int)." + x] = wrap_nil(f)
        return f
    return d


bg("Add")(bin_(lambda x, y: x + y))
bg("Sub")(bin_(lambda x, y: x - y))
bg("Mul")(bin_(lambda x, y: x * y))
bg("Neg")(bin_(lambda x: -x))
bg("Set")(bin_(lambda x: x))
bg("Mod")(bin_(lambda x, y: bmod(x, y)))
bg("SetInt64 SetUint64")(lambda ex, st, a: (ex.write(st, a[0], a[1]), a[0])[1])
TABLE["math/big.NewInt"] = lambda ex, st, a: PtrV(ex.alloc(st, "big", a[0]))


def bmod(x, y):
    if x.is_const() and y.is_const() and y.cval():
        return Int.const(x.cval() % abs(y.cval()))
    if y == L:
        return field_to_int(int_to_field(x, Sc))
    return imod(x, y)


@bg("SetBytes")
def _(ex, st, a):
    b = ex.sl_bytes(st, a[1])
    ex.write(st, a[0], Int.const(int.from_bytes(b.litval(), "big")) if b.is_lit() else Int.of(atom("nat", "beint", b)))
    return a[0]


@bg("Exp")
def _(ex, st, a):
    x, y = rd(ex, st, a[1]), rd(ex, st, a[2])
    m = rd(ex, st, a[3]) if a[3] is not NIL else Int.const(0)
    if m == L:
        r = field_to_int(fpow(int_to_field(x, Sc), y))
    elif m != 0:
        raise Unsupported("modular exponentiation")
    elif y.is_const():
        k = max(y.cval(), 0)
        if len(x.d) > 1 and k > 8:
            raise Unsupported("big power")
        r = x ** k
    elif x.is_const():
        r = Int.of(atom("nat", "ipow", x, y))
    else:
        r = Int.of(atom("nat", "ipow", x, y))
    ex.write(st, a[0], r)
    return a[0]


@bg("Lsh")
def _(ex, st, a):
    x, k = rd(ex, st, a[1]), a[2]
    if not k.is_const():
        raise Unsupported("shift")
    ex.write(st, a[0], x * (1 << k.cval()))
    return a[0]


@bg("Rsh")
def _(ex, st, a):
    x, k = rd(ex, st, a[1]), a[2]
    if not k.is_const():
        raise Unsupported("shift")
    r = int_divmod_pow2(x, k.cval())
    ex.write(st, a[0], r[0] if r else idiv(x, Int.const(1 << k.cval())))
    return a[0]


@bg("Bit")
def _(ex, st, a):
    x, k = rd(ex, st, a[0]), a[1]
    if not k.is_const():
        raise Unsupported("bit")
    r = int_divmod_pow2(x, k.cval())
    if r is None:
        return imod(idiv(x, Int.const(1 << k.cval())), Int.const(2))
    q = int_divmod_pow2(r[0], 1)
    return q[1] if q else imod(r[0], Int.const(2))


def icmp(x, y):
    e = ieq(x, y)
    if e is True:
        return Int.const(0)
    l = lt(x, y)
    inner = ite(l, Int.const(-1), Int.const(1))
    return ite(e, Int.const(0), inner)


bg("Cmp")(lambda ex, st, a: icmp_st(ex, st, rd(ex, st, a[0]), rd(ex, st, a[1])))
bg("Sign")(lambda ex, st, a: icmp_st(ex, st, rd(ex, st, a[0]), Int.const(0)))


def icmp_st(ex, st, x, y):
    if ex.decide(st, ieq(x, y)) is True:
        return Int.const(0)
    d = ex.decide(st, lt(x, y))
    if d is True:
        return Int.const(-1)
    if ex.decide(st, lt(y, x)) is True:
        return Int.const(1)
    return icmp(x, y)


@bg("Uint64")
def _(ex, st, a):
    x = rd(ex, st, a[0])
    if x.is_const():
        return Int.const(x.cval() & (2**64 - 1))
    r = int_divmod_pow2(x, 64)
    if r is not None:
        return r[1]
    if ex.decide(st, b_and(le(0, x), lt(x, 2**64))) is True:
        return x
    return imod(x, Int.const(2**64))


bg("IsUint64")(lambda ex, st, a: b_and(le(0, rd(ex, st, a[0])), lt(rd(ex, st, a[0]), 2**64)))


@bg("BitLen")
def _(ex, st, a):
    x = rd(ex, st, a[0])
    if x.is_const():
        return Int.const(abs(x.cval()).bit_length())
    return Int.of(atom("nat", "bitlen", x))


bg("String")(lambda ex, st, a: opaque_str())

# ---------------------------------------------------------------- bytes.Buffer and streams


def bb(n):
    def d(f):
        for x in n.split():
            TABLE["(*bytes.Buffer)." + x] = wrap_nil(f)
        return f
    return d


@bb("Write WriteString")
def _(ex, st, a):
    b = a[1] if isinstance(a[1], Bytes) else ex.sl_bytes(st, a[1])
    c = rd(ex, st, a[0])
    ex.write(st, a[0], BufV(c.b + b))
    return tup(b.len, NIL)


@bb("WriteByte")
def _(ex, st, a):
    c = rd(ex, st, a[0])
    ex.write(st, a[0], BufV(c.b + ex.byte_seg(a[1])))
    return NIL


@bb("Bytes")
def _(ex, st, a):
    # a view of the buffer; the repository only reads it
    return ex.mk_bytes(st, rd(ex, st, a[0]).b)


bb("String")(lambda ex, st, a: rd(ex, st, a[0]).b)
bb("Len")(lambda ex, st, a: rd(ex, st, a[0]).b.len)
bb("Reset")(lambda ex, st, a: (ex.write(st, a[0], BufV(Bytes())), tup())[1])
bb("Grow")(lambda ex, st, a: tup())


@bb("Next")
def _(ex, st, a):
    c = rd(ex, st, a[0]).b
    n = a[1]
    if ex.decide(st, le(n, c.len)) is not True:
        raise Unsupported("Buffer.Next")
    dec = lambda q: ex.decide(st, q)
    r = slice_bytes(c, 0, n, dec)
    ex.write(st, a[0], BufV(slice_bytes(c, n, c.len, dec)))
    return ex.mk_bytes(st, r)


@bb("ReadFrom")
def _(ex, st, a):
    cell = stream_cell(ex, st, a[1])
    b = ex.read(st, cell).b
    c = rd(ex, st, a[0])
    ex.write(st, a[0], BufV(c.b + b))
    set_stream(ex, st, cell, Bytes())
    return tup(b.len, NIL)


@reg("io/ioutil.ReadAll", "io.ReadAll")
def _(ex, st, a):
    cell = stream_cell(ex, st, a[0])
    b = ex.read(st, cell).b
    set_stream(ex, st, cell, Bytes())
    return tup(ex.mk_bytes(st, b), NIL)


@reg("bytes.NewBuffer", "bytes.NewReader")
def _(ex, st, a):
    return PtrV(ex.alloc(st, "buf", BufV(ex.sl_bytes(st, a[0]))))


TABLE["bytes.NewBufferString"] = lambda ex, st, a: PtrV(ex.alloc(st, "buf", BufV(a[0])))


def stream_cell(ex, st, w):
    """pointer to the BufV / StreamV behind an io.Reader / io.Writer interface value"""
    if w is NIL:
        raise NilDeref()
    if isinstance(w, IfaceV) and isinstance(w.v, PtrV):
        c = ex.read(st, w.v)
        if isinstance(c, (BufV, StreamV)):
            return w.v
        if isinstance(c, HashV):
            return w.v
    raise Unsupported("stream")


def set_stream(ex, st, cell, b):
    c = ex.read(st, cell)
    if isinstance(c, BufV):
        ex.write(st, cell, BufV(b))
    elif isinstance(c, HashV):
        ex.write(st, cell, HashV(c.alg, c.size, b))
    else:
        ex.write(st, cell, StreamV(b, c.kind, c.fail))


UINTSZ = {"uint8": 1, "byte": 1, "uint16": 2, "uint32": 4, "uint64": 8, "int32": 4, "int64": 8, "int8": 1, "int16": 2,
          "bool": 1}


def enc_uint(n, size, little):
    n = I(n)
    if n.is_const():
        return Bytes.lit((n.cval() & ((1 << 8 * size) - 1)).to_bytes(size, "little" if little else "big"))
    a = n.single_atom()
    if a is not None and a.head == "nat" and a.args[0] == "decuint" and a.args[2] == size and a.args[3] == little:
        return a.args[1]
    if size == 1:
        return Bytes((atom("b1", n),))
    if size == 4 and not little:
        return u32(n)
    return Bytes((atom("uN", n, size, little),))


def dec_uint(b, size, little):
    if b.is_lit():
        return Int.const(int.from_bytes(b.litval(), "little" if little else "big"))
    if len(b.segs) == 1:
        s = b.segs[0]
        if s.head == "u32" and size == 4 and not little:
            return s.args[0]
        if s.head == "uN" and s.args[1] == size and s.args[2] == little:
            return s.args[0]
        if s.head == "b1" and size == 1:
            return s.args[0]
    return Int.of(atom("nat", "decuint", b, size, little, rng=(0, (1 << 8 * size) - 1)))


def is_little(ex, order):
    t = order.t if isinstance(order, IfaceV) else None
    s = ex.prog.types[t]["str"] if isinstance(t, int) else ""
    if "little" in s:
        return True
    if "big" in s:
        return False
    raise Unsupported("byte order")


def data_bytes(ex, st, d, little):
    t, v = d.t, d.v
    u = ex.prog.under(t)
    if u["k"] == "ptr":
        return val_bytes(ex, st, u["e"], rd(ex, st, v), little)
    return val_bytes(ex, st, t, v, little)


def val_bytes(ex, st, t, v, little):
    u = ex.prog.under(t)
    if u["k"] == "basic" and u["name"] in UINTSZ:
        return enc_uint(v, UINTSZ[u["name"]], little)
    if u["k"] == "slice":
        if ex.prog.is_byte(u["e"]):
            return ex.sl_bytes(st, v)
        out = Bytes()
        for x in ex.sl_elems(st, v):
            out = out + val_bytes(ex, st, u["e"], x, little)
        return out
    if u["k"] == "array":
        if isinstance(v, BArr):
            return v.b
        if isinstance(v, CArr):
            out = Bytes()
            for x in v.e:
                out = out + val_bytes(ex, st, u["e"], x, little)
            return out
    raise Unsupported("binary encoding of " + ex.prog.types[t]["str"])


def write_bytes(ex, st, cell, b, okv, badv):
    c = ex.read(st, cell)
    if isinstance(c, StreamV) and c.fail:
        k = c.fail
        f = pred("wfail", cell.root, c.b)     # fails when this much was already written
        s2 = st.copy()
        out = []
        if b.len == 0:
            set_stream(ex, st, cell, c.b + b)
            return [(st, okv)]
        for s3, t in ex.branch(st, f):
            s3 = s3.copy()
            if t:
                out.append((s3, badv))
            else:
                set_stream(ex, s3, cell, c.b + b)
                out.append((s3, okv))
        return out
    if isinstance(c, HashV):
        ex.write(st, cell, HashV(c.alg, c.size, c.b + b))
    else:
        set_stream(ex, st, cell, c.b + b)
    return [(st, okv)]


@reg("encoding/binary.Write")
def _(ex, st, a):
    little = is_little(ex, a[1])
    b = data_bytes(ex, st, a[2], little)
    return write_bytes(ex, st, stream_cell(ex, st, a[0]), b, NIL, ErrV("write"))


def read_n(ex, st, cell, n):
    """[(state, Bytes or None)]"""
    b = ex.read(st, cell).b
    out = []
    for s2, t in ex.branch(st, le(n, b.len)):
        s2 = s2.copy()
        dec = lambda q: ex.decide(s2, q)
        if t:
            r = slice_bytes(b, 0, n, dec)
            set_stream(ex, s2, cell, slice_bytes(b, n, b.len, dec))
            out.append((s2, r))
        else:
            set_stream(ex, s2, cell, Bytes())
            out.append((s2, None))
    return out


@reg("encoding/binary.Read")
def _(ex, st, a):
    little = is_little(ex, a[1])
    cell = stream_cell(ex, st, a[0])
    d = a[2]
    u = ex.prog.under(d.t)
    out = []
    if u["k"] == "ptr":
        e = u["e"]
        eu = ex.prog.under(e)
        if eu["k"] == "basic" and eu["name"] in UINTSZ:
            sz = UINTSZ[eu["name"]]
            for s2, b in read_n(ex, st, cell, sz):
                if b is None:
                    out.append((s2, ErrV("eof")))
                else:
                    ex.write(s2, d.v, dec_uint(b, sz, little))
                    out.append((s2, NIL))
            return out
        if eu["k"] == "array" and ex.prog.is_byte(eu["e"]):
            for s2, b in read_n(ex, st, cell, eu["n"]):
                if b is None:
                    out.append((s2, ErrV("eof")))
                else:
                    ex.write(s2, d.v, BArr(b))
                    out.append((s2, NIL))
            return out
        if eu["k"] == "slice" and ex.prog.is_byte(eu["e"]):
            return read_into(ex, st, cell, rd(ex, st, d.v), NIL, ErrV("eof"))
    if u["k"] == "slice" and ex.prog.is_byte(u["e"]):
        return read_into(ex, st, cell, d.v, NIL, ErrV("eof"))
    raise Unsupported("binary.Read into " + ex.prog.types[d.t]["str"])


def read_into(ex, st, cell, sl, okv, badv):
    out = []
    for s2, b in read_n(ex, st, cell, sl.len):
        if b is None:
            out.append((s2, badv))
        else:
            src = ex.mk_bytes(s2, b)
            if sl.len != 0:
                ex.store_range(s2, sl, Int.const(0), src, True)
            out.append((s2, okv))
    return out


@reg("io.ReadFull")
def _(ex, st, a):
    if isinstance(a[0], IfaceV) and a[0].t == "randreader":
        return TABLE["crypto/rand.Read"](ex, st, [a[1]])
    return read_into(ex, st, stream_cell(ex, st, a[0]), a[1], tup(a[1].len, NIL),
                     tup(Int.of(atom("nat", "short%d" % next(_oc))), ErrV("eof")))


@reg("io.WriteString")
def _(ex, st, a):
    return write_bytes(ex, st, stream_cell(ex, st, a[0]), a[1], tup(a[1].len, NIL), tup(Int.const(0), ErrV("write")))


TABLE["(encoding/binary.bigEndian).Uint32"] = lambda ex, st, a: be32(ex, st, a[1], 4, False)
TABLE["(encoding/binary.littleEndian).Uint32"] = lambda ex, st, a: be32(ex, st, a[1], 4, True)
TABLE["(encoding/binary.bigEndian).Uint64"] = lambda ex, st, a: be32(ex, st, a[1], 8, False)
TABLE["(encoding/binary.littleEndian).Uint64"] = lambda ex, st, a: be32(ex, st, a[1], 8, True)


def be32(ex, st, s, n, little):
    d = ex.decide(st, le(n, s.len))
    if d is False:
        return Panic("index out of range")
    if d is None:
        raise Unsupported("Uint on a slice of unknown length")
    return dec_uint(slice_bytes(ex.sl_bytes(st, s), 0, n, lambda q: ex.decide(st, q)), n, little)


def put_uint(n, little):
    def h(ex, st, a):
        d = ex.decide(st, le(n, a[1].len))
        if d is False:
            return Panic("index out of range")
        if d is None:
            raise Unsupported("PutUint on a slice of unknown length")
        src = ex.mk_bytes(st, enc_uint(a[2], n, little))
        ex.store_range(st, a[1], Int.const(0), src, True)
        return tup()
    return h


for _n, _s in ((2, "16"), (4, "32"), (8, "64")):
    TABLE["(encoding/binary.bigEndian).PutUint" + _s] = put_uint(_n, False)
    TABLE["(encoding/binary.littleEndian).PutUint" + _s] = put_uint(_n, True)


# ---------------------------------------------------------------- bytes, subtle, base64, hex
@reg("bytes.Equal")
def _(ex, st, a):
    return eqB(ex.sl_bytes(st, a[0]), ex.sl_bytes(st, a[1]))


@reg("bytes.Compare")
def _(ex, st, a):
    x, y = ex.sl_bytes(st, a[0]), ex.sl_bytes(st, a[1])
    e = eqB(x, y)
    if x.is_lit() and y.is_lit():
        l, m = x.litval(), y.litval()
        return Int.const((l > m) - (l < m))
    return ite(e, Int.const(0), ite(pred("bless", x, y), Int.const(-1), Int.const(1)))


@reg("crypto/subtle.ConstantTimeCompare")
def _(ex, st, a):
    return ite(eqB(ex.sl_bytes(st, a[0]), ex.sl_bytes(st, a[1])), Int.const(1), Int.const(0))


@reg("bytes.Join")
def _(ex, st, a):
    sep = ex.sl_bytes(st, a[1])
    out = Bytes()
    for k, x in enumerate(ex.sl_elems(st, a[0])):
        if k:
            out = out + sep
        out = out + ex.sl_bytes(st, x)
    return ex.mk_bytes(st, out)


TABLE["(*encoding/base64.Encoding).EncodedLen"] = lambda ex, st, a: b64chk(a, b64len(a[1], True))
TABLE["(*encoding/base64.Encoding).DecodedLen"] = lambda ex, st, a: b64chk(a, b64len(a[1], False))


def b64chk(a, v):
    return v


def b64enc(kind, b):
    return Bytes((atom("b64", kind, b),))


@reg("(*encoding/base64.Encoding).Encode")
def _(ex, st, a):
    b = ex.sl_bytes(st, a[2])
    e = b64enc(str(a[0].root), b)
    if ex.decide(st, ieq(e.len, a[1].len)) is not True:
        raise Unsupported("base64 buffer size")
    ex.store_range(st, a[1], Int.const(0), ex.mk_bytes(st, e), True)
    return tup()


@reg("(*encoding/base64.Encoding).EncodeToString")
def _(ex, st, a):
    return b64enc(str(a[0].root), ex.sl_bytes(st, a[1]))


def b64dec(kind, b):
    """(ok, bytes)"""
    if len(b.segs) == 1 and b.segs[0].head == "b64" and b.segs[0].args[0] == kind:
        return True, b.segs[0].args[1]
    # line breaks in the text are skipped, so fewer bytes than DecodedLen may result
    n = Int.of(atom("nat", "b64n", kind, b))
    return pred("okb64", kind, b), Bytes((atom("bsym", "b64dec%s" % hash((kind, b)), n),))


@reg("(*encoding/base64.Encoding).Decode")
def _(ex, st, a):
    b = ex.sl_bytes(st, a[2])
    ok, v = b64dec(str(a[0].root), b)
    out = []
    for s2, t in ex.branch(st, ok):
        s2 = s2.copy()
        if t:
            if ok is not True and ex.decide(s2, le(b64len(b.len, False), a[1].len)) is True:
                s2 = s2.assume(le(v.len, a[1].len))
            if ex.decide(s2, le(v.len, a[1].len)) is not True:
                raise Unsupported("base64 buffer size")
            ex.store_range(s2, a[1], Int.const(0), ex.mk_bytes(s2, v), True)
            out.append((s2, tup(v.len, NIL)))
        else:
            if ex.decide(s2, le(b64len(b.len, False), a[1].len)) is not True:
                raise Unsupported("base64 buffer size")
            n = Int.of(atom("nat", "b64partial%d" % next(_oc)))
            s2 = s2.assume(le(n, a[1].len))
            ex.store_range(s2, a[1], Int.const(0), ex.mk_bytes(s2, Bytes((atom("bsym", "b64partial%d" % next(_oc), n),))), True)
            out.append((s2, tup(n, ErrV("base64"))))
    return out


@reg("(*encoding/base64.Encoding).DecodeString")
def _(ex, st, a):
    b = a[1]
    ok, v = b64dec(str(a[0].root), b)
    out = []
    for s2, t in ex.branch(st, ok):
        s2 = s2.copy()
        if t and ok is not True:
            s2 = s2.assume(le(v.len, b64len(b.len, False)))
        out.append((s2, tup(ex.mk_bytes(s2, v), NIL) if t else tup(NILSLICE, ErrV("base64"))))
    return out


@reg("encoding/hex.DecodeString")
def _(ex, st, a):
    if a[0].is_lit():
        try:
            return tup(ex.mk_bytes(st, Bytes.lit(bytes.fromhex(a[0].litval().decode()))), NIL)
        except ValueError:
            return tup(NILSLICE, ErrV("hex"))
    raise Unsupported("hex decoding")


TABLE["encoding/hex.EncodeToString"] = lambda ex, st, a: opaque_str()

# ---------------------------------------------------------------- errors, fmt, strconv
for _n in ("errors.New", "github.com/pkg/errors.New", "fmt.Errorf", "github.com/pkg/errors.Errorf"):
    TABLE[_n] = lambda ex, st, a: ErrV("new")
for _n in ("github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage",
           "github.com/pkg/errors.WithStack"):
    TABLE[_n] = lambda ex, st, a: NIL if a[0] is NIL else ErrV("wrap")
for _n in ("fmt.Sprintf", "strconv.Itoa", "fmt.Sprint"):
    TABLE[_n] = lambda ex, st, a: opaque_str()

# ---------------------------------------------------------------- hashes


def mkhash(ex, st, alg, size, iface=True):
    p = PtrV(ex.alloc(st, "hash", HashV(alg, size, Bytes())))
    return IfaceV("hash", p) if iface else p


TABLE["golang.org/x/crypto/sha3.New256"] = lambda ex, st, a: mkhash(ex, st, "sha3-256", 32)
TABLE["golang.org/x/crypto/sha3.New512"] = lambda ex, st, a: mkhash(ex, st, "sha3-512", 64)
TABLE["golang.org/x/crypto/sha3.New384"] = lambda ex, st, a: mkhash(ex, st, "sha3-384", 48)
TABLE["golang.org/x/crypto/sha3.New224"] = lambda ex, st, a: mkhash(ex, st, "sha3-224", 28)
TABLE["golang.org/x/crypto/sha3.NewLegacyKeccak256"] = lambda ex, st, a: mkhash(ex, st, "keccak-256", 32)
TABLE["crypto/sha256.New"] = lambda ex, st, a: mkhash(ex, st, "sha2-256", 32)
TABLE["crypto/sha512.New"] = lambda ex, st, a: mkhash(ex, st, "sha2-512", 64)


def blake(bits):
    def h(ex, st, a):
        k = ex.sl_bytes(st, a[0])
        alg = "blake2b-%d" % bits
        if k.len != 0:
            return tup(IfaceV("hash", PtrV(ex.alloc(st, "hash", HashV(alg + "-keyed", bits // 8, k)))), NIL)
        return tup(mkhash(ex, st, alg, bits // 8), NIL)
    return h


TABLE["golang.org/x/crypto/blake2b.New256"] = blake(256)
TABLE["golang.org/x/crypto/blake2b.New384"] = blake(384)
TABLE["golang.org/x/crypto/blake2b.New512"] = blake(512)
TABLE["github.com/OneOfOne/xxhash.New64"] = lambda ex, st, a: mkhash(ex, st, "xxhash64", 8, False)
TABLE["github.com/OneOfOne/xxhash.New32"] = lambda ex, st, a: mkhash(ex, st, "xxhash32", 4, False)
for _n, _alg, _sz in (("golang.org/x/crypto/sha3.Sum256", "sha3-256", 32), ("golang.org/x/crypto/sha3.Sum512", "sha3-512", 64),
                      ("golang.org/x/crypto/blake2b.Sum256", "blake2b-256", 32),
                      ("golang.org/x/crypto/blake2b.Sum512", "blake2b-512", 64)):
    TABLE[_n] = (lambda alg, sz: lambda ex, st, a: BArr(hashB(alg, sz, ex.sl_bytes(st, a[0]))))(_alg, _sz)


def hash_method(ex, st, p, m, args):
    c = ex.read(st, p)
    if m == "Write":
        b = ex.sl_bytes(st, args[0])
        ex.write(st, p, HashV(c.alg, c.size, c.b + b))
        return [(st, tup(b.len, NIL))]
    if m == "Sum":
        d = hashB(c.alg, c.size, c.b)
        pre = args[0]
        if pre is NIL or pre.root is None:
            return [(st, ex.mk_bytes(st, d))]
        x = ex.mk_bytes(st, d)
        bt = ex.prog.bystr.get("byte", ex.prog.bystr.get("uint8"))
        return [(st, ex.append(st, pre, x, bt))]
    if m == "Reset":
        ex.write(st, p, HashV(c.alg, c.size, Bytes()))
        return [(st, tup())]
    if m == "Size":
        return [(st, I(c.size))]
    if m == "Sum64":
        return [(st, dec_uint(hashB(c.alg, c.size, c.b), 8, False))]
    raise Unsupported("hash method " + m)


for _t in ("XXHash64", "XXHash32"):
    for _m in ("Write", "Sum", "Reset", "Size", "Sum64", "WriteString"):
        TABLE["(*github.com/OneOfOne/xxhash.%s).%s" % (_t, _m)] = \
            (lambda m: lambda ex, st, a: hash_method(ex, st, a[0], m, a[1:]))(_m)


# ---------------------------------------------------------------- randomness, time
@reg("crypto/rand.Read")
def _(ex, st, a):
    k = next(_rc)
    n = a[0].len
    f = pred("randfail", k)
    s1, s2 = st.copy(), st.copy()
    s1.pc = s1.pc + (b_not(f),)
    s2.pc = s2.pc + (f,)
    b = Bytes((atom("bsym", "randbytes%d" % k, n),))
    s1.rands = s1.rands + (atom("randbytes", k),)
    if n != 0:
        ex.store_range(s1, a[0], Int.const(0), ex.mk_bytes(s1, b), True)
    return [(s1, tup(n, NIL)), (s2, tup(Int.of(atom("nat", "randn%d" % k)), ErrV("rand")))]


def intn(ex, st, n):
    d = ex.decide(st, le(1, n))
    if d is not True:
        raise_ = [(s, Panic("invalid argument to Intn")) for s, t in ex.branch(st, le(1, n)) if not t]
        if d is False:
            return raise_
        st = st.assume(le(1, n))
    else:
        raise_ = []
    if n.is_const() and ex.intn_fork:
        out = []
        c = n.cval()
        for k in range(c):
            s2 = st.copy() if c > 1 else st
            s2.choices = s2.choices + ((c, k),)
            out.append((s2, Int.const(k)))
        return out + raise_
    j = Int.of(atom("nat", "intn", next(_rc), rng=(0, n - 1)))
    s2 = st.copy()
    s2.choices = s2.choices + ((n, j),)
    return [(s2, j)] + raise_


TABLE["math/rand.Intn"] = lambda ex, st, a: intn(ex, st, a[0])
TABLE["(*math/rand.Rand).Intn"] = lambda ex, st, a: intn(ex, st, a[1])
for _n in ("Int31n", "Int63n"):
    TABLE["math/rand." + _n] = lambda ex, st, a: intn(ex, st, a[0])
    TABLE["(*math/rand.Rand)." + _n] = lambda ex, st, a: intn(ex, st, a[1])


def shuffle(ex, st, n, f):
    if not n.is_const():
        raise Unsupported("shuffle of unknown size")
    work = [st]
    for i in range(n.cval() - 1, 0, -1):
        nw = []
        for s in work:
            for s2, j in intn(ex, s, Int.const(i + 1)):
                for s3, r in ex.call(f.name, [Int.const(i), j] + list(f.bind), s2):
                    if isinstance(r, Panic):
                        return [(s3, r)]
                    nw.append(s3)
        work = nw
    return [(s, tup()) for s in work]


TABLE["math/rand.Shuffle"] = lambda ex, st, a: shuffle(ex, st, a[0], a[1])
TABLE["(*math/rand.Rand).Shuffle"] = lambda ex, st, a: shuffle(ex, st, a[1], a[2])


def perm(ex, st, n):
    if not n.is_const():
        raise Unsupported("permutation of unknown size")
    out = []
    for p in itertools.permutations(range(n.cval())):
        s2 = st.copy()
        s2.choices = s2.choices + (("perm", p),)
        out.append((s2, ex.mk_slice(s2, [Int.const(x) for x in p])))
    return out


TABLE["math/rand.Perm"] = lambda ex, st, a: perm(ex, st, a[0])
TABLE["(*math/rand.Rand).Perm"] = lambda ex, st, a: perm(ex, st, a[1])
TABLE["math/rand.Seed"] = lambda ex, st, a: tup()
TABLE["math/rand.New"] = lambda ex, st, a: PtrV(ex.alloc(st, "rng", OpaqueV("rng")))
TABLE["math/rand.NewSource"] = lambda ex, st, a: OpaqueV("source")
TABLE["time.Now"] = lambda ex, st, a: OpaqueV("time")
for _n in ("Unix", "UnixNano"):
    TABLE["(time.Time)." + _n] = lambda ex, st, a: Int.of(atom("nat", "time%d" % next(_oc)))


@reg("math/bits.LeadingZeros32")
def _(ex, st, a):
    if a[0].is_const():
        return Int.const(32 - a[0].cval().bit_length())
    return Int.const(32) - bitlen(a[0])


def bitlen(x):
    return Int.of(atom("nat", "bitlen", x))


def _lz(w):
    return lambda ex, st, a: Int.const(w - a[0].cval().bit_length()) if a[0].is_const() else Int.const(w) - bitlen(a[0])


def _bl(ex, st, a):
    return Int.const(a[0].cval().bit_length()) if a[0].is_const() else bitlen(a[0])


def _tz(w):
    def h(ex, st, a):
        if a[0].is_const():
            v = a[0].cval()
            return Int.const(w if v == 0 else (v & -v).bit_length() - 1)
        return Int.of(atom("nat", "tz", a[0], w))
    return h


def _oc1(ex, st, a):
    if a[0].is_const():
        return Int.const(bin(a[0].cval()).count("1"))
    raise Unsupported("OnesCount")


for _s, _w in (("", 64), ("32", 32), ("64", 64), ("16", 16), ("8", 8)):
    TABLE["math/bits.LeadingZeros" + _s] = _lz(_w)
    TABLE["math/bits.Len" + _s] = _bl
    TABLE["math/bits.TrailingZeros" + _s] = _tz(_w)
    TABLE["math/bits.OnesCount" + _s] = _oc1


# ---------------------------------------------------------------- interface values that are not repository types
def invoke(ex, st, x, m, args):
    if isinstance(x, ErrV):
        if m == "Error":
            return [(st, opaque_str())]
    if isinstance(x, PayloadV):
        if m == "CalculateHash":
            ex.externs_used.add("Payload.CalculateHash")
            out = []
            for s2, t in ex.branch(st, x.ok):
                s2 = s2.copy()
                if t:
                    if x.root is None:
                        v = ex.mk_bytes(s2, x.h)
                    else:
                        v = SliceV(x.root[0], x.root[1], 0, x.h.len, None)
                    out.append((s2, tup(v, NIL)))
                else:
                    out.append((s2, tup(NILSLICE, ErrV("payload"))))
            return out
    if isinstance(x, IfaceV):
        if isinstance(x.v, PtrV) and x.v.root in st.mem:
            c = ex.read(st, x.v)
            if isinstance(c, HashV):
                return hash_method(ex, st, x.v, m, args)
            if isinstance(c, (BufV, StreamV)) and m == "Write":
                b = ex.sl_bytes(st, args[0])
                return write_bytes(ex, st, x.v, b, tup(b.len, NIL), tup(Int.const(0), ErrV("write")))
    if isinstance(x, OpaqueV):
        return [(st, opaque_str())]
    raise Unsupported("method %s on %s" % (m, type(x).__name__))


# ---------------------------------------------------------------- globals
def global_value(ex, st, name):
    if name.startswith("encoding/base64."):
        return PtrV("global:" + name)
    if name in ("encoding/binary.BigEndian", "encoding/binary.LittleEndian"):
        return StructV([])
    if name == "crypto/rand.Reader":
        return IfaceV("randreader", PtrV("global:randreader"))
    if name.startswith("io."):
        return ErrV(name)
    raise Unsupported("global " + name)
