"""Term universe of the condition generator.

Every value the Go code can compute is a term in normal form:

  Int   integer polynomial over integer atoms               (Go ints, lengths, big.Int)
  Sc    polynomial over a prime field, exponents may be      (ristretto.Scalar, bn256 exponents)
        negative or symbolic for atoms assumed non-zero
  Pt    linear combination of point atoms with Sc weights    (ristretto.Point, bn256 G1/G2/GT)
  Bytes concatenation of segments                            ([]byte, transcripts, encodings)
  Bool  propositional formula over canonical atoms

Two terms that are equal as polynomials / combinations / concatenations are the
same object key, so an algebraic obligation is discharged by normalisation.
"""
import itertools

L = 2**252 + 27742317777372353535851937790883648493
ORDER_BN = 65000549695646603732796438742359905742570406053903786389881062969044166799969


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("head", "args", "id", "idem", "nonzero", "bvs", "rng", "_str")

    def __repr__(self):
        return astr(self)


_atoms = {}
_ids = itertools.count(1)


def _bv_of(x):
    if isinstance(x, (Atom, Poly, Pt, Bytes)):
        return x.bvs
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r = r | _bv_of(y)
        return r
    return frozenset()


def atom(head, *args, idem=False, nonzero=False, rng=None):
    k = (head,) + args
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.head, a.args, a.id = head, args, next(_ids)
        a.idem, a.nonzero, a.rng = idem, nonzero, rng
        a._str = None
        if head == "bv":
            a.bvs = frozenset([a])
        else:
            b = frozenset()
            for x in args:
                b = b | _bv_of(x)
            a.bvs = b
        if head in BINDERS:
            out = frozenset([args[0], args[3]]) if head == "iter" else frozenset([args[0]])
            b = _bv_of(args[2]) - out
            b = b | _bv_of(args[1])
            if head == "iter":
                b = b | _bv_of(args[4])
            a.bvs = b
        _atoms[k] = a
    return a


# binder atoms: args[0] is the canonical bound variable atom
BINDERS = {"sum", "psum", "cat", "forall", "iter"}


def astr(a, d=3):
    if a._str is None:
        def s(x):
            if isinstance(x, tuple):
                return "(" + ",".join(s(y) for y in x) + ")"
            return repr(x) if not isinstance(x, str) else x
        t = a.head + ("(" + ",".join(s(x) for x in a.args) + ")" if a.args else "")
        a._str = t if len(t) < 160 else a.head + "(#%d)" % a.id
    return a._str


# ---------------------------------------------------------------- polynomials
EMPTY = frozenset()


class Poly:
    """mono -> coeff; mono = tuple of (atom, exp) sorted by atom id."""
    __slots__ = ("d", "_h", "_bvs")
    mod = None

    def __init__(self, d):
        self.d = d
        self._h = None
        self._bvs = None

    # -- construction
    @classmethod
    def const(cls, c):
        if cls.mod:
            c %= cls.mod
        return cls({(): c} if c else {})

    @classmethod
    def of(cls, a, e=1):
        return cls({((a, e),): 1})

    @classmethod
    def lift(cls, x):
        if isinstance(x, cls):
            return x
        if isinstance(x, bool):
            raise TypeError("bool as poly")
        if isinstance(x, int):
            return cls.const(x)
        if isinstance(x, Atom):
            return cls.of(x)
        raise TypeError("cannot lift %r to %s" % (x, cls.__name__))

    # -- equality
    def __hash__(self):
        if self._h is None:
            self._h = hash((type(self).__name__, frozenset(self.d.items())))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, int) and not isinstance(o, bool):
            return self.is_const() and self.cval() == (o % self.mod if self.mod else o)
        return type(o) is type(self) and hash(self) == hash(o) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    @property
    def bvs(self):
        if self._bvs is None:
            r = set()
            for m in self.d:
                for a, e in m:
                    r |= a.bvs
                    if not isinstance(e, int):
                        r |= e.bvs
            self._bvs = frozenset(r)
        return self._bvs

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), 0)

    def is_zero(self):
        return not self.d

    def single_atom(self):
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    # -- arithmetic
    def __add__(self, o):
        cls = type(self)
        o = cls.lift(o)
        if len(o.d) > len(self.d):
            self, o = o, self
        if not o.d:
            return self
        d = dict(self.d)
        mod = cls.mod
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if mod:
                v %= mod
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return cls(d)
    __radd__ = __add__

    def __neg__(self):
        mod = self.mod
        if mod:
            return type(self)({m: mod - c for m, c in self.d.items()})
        return type(self)({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-type(self).lift(o))

    def __rsub__(self, o):
        return type(self).lift(o) - self

    def __mul__(self, o):
        cls = type(self)
        if isinstance(o, Pt):
            return o.scale(self)
        o = cls.lift(o)
        if len(o.d) > len(self.d):
            self, o = o, self
        if not o.d:
            return o
        mod = cls.mod
        d = {}
        if len(o.d) == 1 and () in o.d:
            c = o.d[()]
            if c == 1:
                return self
            return cls({m: (k * c % mod if mod else k * c) for m, k in self.d.items()})
        for m2, c2 in o.d.items():
            for m1, c1 in self.d.items():
                m, f = _mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2 * f
                d[m] = v
        if mod:
            return cls({m: v % mod for m, v in d.items() if v % mod})
        return cls({m: v for m, v in d.items() if v})
    __rmul__ = __mul__

    def __pow__(self, k):
        r = type(self).const(1)
        b = self
        while k:
            if k & 1:
                r = r * b
            b = b * b
            k >>= 1
        return r

    # -- structure
    def scale_mono(self, m2, c2=1):
        mod = self.mod
        d = {}
        for m1, c1 in self.d.items():
            m, f = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2 * f
        return type(self)({m: (v % mod if mod else v) for m, v in d.items() if (v % mod if mod else v)})

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in itertools.islice(sorted(self.d.items(), key=lambda mc: [(a.id) for a, e in mc[0]]), 12):
            if self.mod and c > self.mod // 2:
                c -= self.mod
            t = "*".join(astr(a) + ("" if e == 1 else "^%r" % (e,)) for a, e in m)
            if not t:
                out.append(str(c))
            elif c == 1:
                out.append(t)
            elif c == -1:
                out.append("-" + t)
            else:
                out.append("%d*%s" % (c, t))
        if len(self.d) > 12:
            out.append("...(%d monomials)" % len(self.d))
        return " + ".join(out)

    def monic(self):
        """normalised up to a unit constant: the equation self = 0"""
        if not self.d:
            return self
        m0 = min(self.d, key=_mkey)
        c = self.d[m0]
        if self.mod:
            return self * pow(c, -1, self.mod)
        if c < 0:
            return -self
        return self


def _mkey(m):
    return tuple((a.id, e if isinstance(e, int) else 10**6 + hash(e) % 1000) for a, e in m)


def _esum(e1, e2):
    if isinstance(e1, int) and isinstance(e2, int):
        return e1 + e2
    r = Int.lift(e1) + Int.lift(e2)
    if r.is_const():
        return r.cval()
    return r


def _litpow(a, e):
    """('lit', c)^e with e integer -> coefficient"""
    return pow(a.args[0], e, a.args[1]) if a.args[1] else a.args[0] ** e


_mm = {}


def _mmul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    k = (m1, m2)
    r = _mm.get(k)
    if r is not None:
        return r
    out = []
    f = 1
    i = j = 0
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, g = m2[j]
        if a is b:
            if a.idem:
                s = 1
            else:
                s = _esum(e, g)
            if s != 0:
                if a.head == "lit" and isinstance(s, int):
                    f *= _litpow(a, s)
                else:
                    out.append((a, s))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    r = (tuple(out), f)
    if len(_mm) > 2000000:
        _mm.clear()
    _mm[k] = r
    return r


class Int(Poly):
    __slots__ = ()
    mod = None


class Sc(Poly):
    __slots__ = ()
    mod = L


class Sb(Poly):
    """exponents of the bn256 groups"""
    __slots__ = ()
    mod = ORDER_BN


def I(x):
    return Int.lift(x)


def int_to_field(p, cls):
    """ring homomorphism Z -> F on polynomials"""
    r = cls.const(0)
    for m, c in p.d.items():
        t = cls.const(c)
        for a, e in m:
            t = t * _int_atom_to_field(a, cls) ** e
        r = r + t
    return r


def _int_atom_to_field(a, cls):
    if a.head == "s2i" and isinstance(a.args[0], cls):
        return a.args[0]
    if a.head == "ipow" and False:
        pass
    if a.head == "iteI":
        c, x, y = a.args
        return ite(c, int_to_field(x, cls), int_to_field(y, cls))
    return cls.of(atom("int", cls.__name__, a, idem=(a.head == "bit"), nonzero=False))


def field_to_int(s):
    """canonical integer representative"""
    if s.is_const():
        return Int.const(s.cval())
    # a sum of distinct bits with small weights is its own representative
    tot = 0
    d = {}
    for m, c in s.d.items():
        if m == ():
            tot += c
            d[()] = c
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].head == "int" and m[0][0].args[1].head == "bit":
            tot += c
            d[((m[0][0].args[1], 1),)] = c
        else:
            return Int.of(atom("s2i", s))
    if tot < s.mod:
        return Int(d)
    return Int.of(atom("s2i", s))


def bit_only(p):
    """Int polynomial that is a non-negative combination of bit atoms + constant"""
    for m, c in p.d.items():
        if c < 0:
            return False
        if m and not (len(m) == 1 and m[0][1] == 1 and m[0][0].head == "bit"):
            return False
    return True


def int_divmod_pow2(p, k):
    """(p >> k, p mod 2^k) for bit combinations, or None"""
    if p.is_const():
        c = p.cval()
        return Int.const(c >> k), Int.const(c & ((1 << k) - 1))
    if not bit_only(p):
        return None
    M = 1 << k
    hi, lo, mx = {}, {}, 0
    for m, c in p.d.items():
        if c % M == 0:
            hi[m] = c // M
        elif c < M:
            lo[m] = c
            mx += c
        elif m == ():
            if c >> k:
                hi[m] = c >> k
            if c & (M - 1):
                lo[m] = c & (M - 1)
                mx += c & (M - 1)
        else:
            return None
    if mx >= M:
        return None
    return Int(hi), Int(lo)


def inverse(s):
    """1/s ; exact only for monomials of atoms assumed non-zero"""
    if s.is_const():
        return type(s).const(pow(s.cval(), -1, s.mod)) if s.cval() else s
    if len(s.d) == 1:
        (m, c), = s.d.items()
        if all(a.nonzero or a.head == "lit" for a, e in m):
            return type(s)({tuple((a, -e if isinstance(e, int) else -e) for a, e in m): pow(c, -1, s.mod)})
    return type(s).of(atom("inv", s))


def fpow(base, e):
    """base ^ e with e an Int term"""
    e = I(e)
    cls = type(base)
    if e.is_const():
        k = e.cval()
        return base ** k if k >= 0 else inverse(base) ** (-k)
    if base.is_const():
        c = base.cval()
        if c == 1:
            return base
        # lit^e: split the constant part of the exponent
        k = e.cval()
        r = cls.of(atom("lit", c, cls.mod), e - k)
        return r * (pow(c, k, cls.mod))
    if len(base.d) == 1:
        (m, c), = base.d.items()
        r = cls.const(1)
        for a, x in m:
            y = I(x) * e
            r = r.scale_mono(((a, y.cval() if y.is_const() else y),))
        if c != 1:
            r = r * fpow(cls.const(c), e)
        return r
    return cls.of(atom("pow", base, e))


# ---------------------------------------------------------------- points
class Pt:
    """sum of coef * atom in group g ('R', 'G1', 'G2', 'GT')"""
    __slots__ = ("d", "g", "_h", "_bvs")

    def __init__(self, g, d):
        self.g, self.d, self._h, self._bvs = g, d, None, None

    @staticmethod
    def fld(g):
        return Sc if g == "R" else Sb

    @classmethod
    def zero(cls, g="R"):
        return cls(g, {})

    @classmethod
    def of(cls, a, g="R"):
        return cls(g, {a: Pt.fld(g).const(1)})

    @property
    def bvs(self):
        if self._bvs is None:
            r = set()
            for a, c in self.d.items():
                r |= a.bvs | c.bvs
            self._bvs = frozenset(r)
        return self._bvs

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.g, frozenset(self.d.items())))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Pt) and self.g == o.g and hash(self) == hash(o) and self.d == o.d)

    def __ne__(self, o):
        return not self == o

    def is_zero(self):
        return not self.d

    def __add__(self, o):
        if len(o.d) > len(self.d):
            self, o = o, self
        if not o.d:
            return self
        d = dict(self.d)
        for a, c in o.d.items():
            x = d.get(a)
            x = c if x is None else x + c
            if x.d:
                d[a] = x
            else:
                d.pop(a, None)
        return Pt(self.g, d)

    def __neg__(self):
        return Pt(self.g, {a: -c for a, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, s):
        if not isinstance(s, Poly):
            s = Pt.fld(self.g).const(s)
        d = {}
        for a, c in self.d.items():
            x = c * s
            if x.d:
                d[a] = x
        return Pt(self.g, d)

    def __mul__(self, s):
        return self.scale(s)
    __rmul__ = __mul__

    def single_atom(self):
        if len(self.d) == 1:
            (a, c), = self.d.items()
            if c == 1:
                return a
        return None

    def monic(self):
        if not self.d:
            return self
        a0 = min(self.d, key=lambda a: a.id)
        c = self.d[a0]
        m0 = min(c.d, key=_mkey)
        return self.scale(Pt.fld(self.g).const(pow(c.d[m0], -1, c.mod)))

    def __repr__(self):
        if not self.d:
            return "O"
        its = sorted(self.d.items(), key=lambda x: x[0].id)
        s = " + ".join("(%r)*%s" % (c, astr(a)) if c != 1 else astr(a) for a, c in its[:8])
        if len(its) > 8:
            s += " ...(%d terms)" % len(its)
        return s


def pair(p, q):
    """bilinear expansion of e(p, q)"""
    r = Pt.zero("GT")
    for a, c in p.d.items():
        for b, e in q.d.items():
            r = r + Pt.of(atom("pair", a, b), "GT").scale(c * e)
    return r


# ---------------------------------------------------------------- bytes
class Bytes:
    """tuple of segment atoms; each has a length (Int).  Literals are merged."""
    __slots__ = ("segs", "_h", "_bvs", "_len")

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if s.head == "bl":
                if not s.args[0]:
                    continue
                if out and out[-1].head == "bl":
                    out[-1] = atom("bl", out[-1].args[0] + s.args[0])
                    continue
            elif seglen(s) == 0:
                continue
            if out and s.head == "bsub" and out[-1].head == "bsub" and out[-1].args[0] is s.args[0] \
                    and out[-1].args[2] == s.args[1]:
                out[-1:] = list(_sub(s.args[0], out[-1].args[1], s.args[2]).segs)
                continue
            out.append(s)
        self.segs = tuple(out)
        self._h = self._bvs = self._len = None

    @classmethod
    def lit(cls, b):
        return cls((atom("bl", bytes(b)),))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.segs)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Bytes) and self.segs == o.segs)

    def __ne__(self, o):
        return not self == o

    @property
    def bvs(self):
        if self._bvs is None:
            r = frozenset()
            for s in self.segs:
                r = r | s.bvs
            self._bvs = r
        return self._bvs

    @property
    def len(self):
        if self._len is None:
            r = Int.const(0)
            for s in self.segs:
                r = r + seglen(s)
            self._len = r
        return self._len

    def __add__(self, o):
        return Bytes(self.segs + o.segs)

    def is_lit(self):
        return all(s.head == "bl" for s in self.segs)

    def litval(self):
        return b"".join(s.args[0] for s in self.segs)

    def __repr__(self):
        return "[" + " ".join(astr(s) for s in self.segs) + "]"


def b64len(n, enc):
    """length of the unpadded base64 form of n bytes (enc) / of the bytes n characters stand for"""
    if n.is_const():
        return Int.const((n.cval() * 8 + 5) // 6 if enc else n.cval() * 6 // 8)
    a = n.single_atom()
    if a is not None and a.head == "iteI":
        return ite(a.args[0], b64len(a.args[1], enc), b64len(a.args[2], enc))
    if a is not None and not enc and a.head == "nat" and a.args[0] == "b64e":
        return a.args[1]
    return Int.of(atom("nat", "b64e" if enc else "b64d", n))


def seglen(s):
    h = s.head
    if h == "bl":
        return Int.const(len(s.args[0]))
    if h in ("encP", "encS"):
        return Int.const(32)
    if h == "encG":
        v = s.args[0]
        if v.g == "G2":      # the identity is one zero byte
            z = eqP(v, Pt.zero("G2"))
            return Int.const(1 if z else 129) if isinstance(z, bool) else Int.of(atom("iteI", z, Int.const(1), Int.const(129)))
        return Int.const({"G1": 64, "G2": 129, "GT": 384}[v.g])
    if h == "encGc":
        return Int.const(33)
    if h == "u32":
        return Int.const(4)
    if h == "b1":
        return Int.const(1)
    if h == "hash":
        return Int.const(s.args[1])
    if h == "uN":
        return Int.const(s.args[1])
    if h == "b64":
        return b64len(s.args[1].len, True)
    if h == "bsym":      # name, len
        return s.args[1]
    if h == "bsub":      # seg, lo, hi
        return s.args[2] - s.args[1]
    if h == "cat":       # bv, n, body
        bl = s.args[2].len
        if s.args[0] in bl.bvs:
            return Int.of(atom("catlen", s))
        return bl * s.args[1]
    if h == "iteB":
        a, b = s.args[1].len, s.args[2].len
        return a if a == b else Int.of(atom("iteI", s.args[0], a, b))
    raise Unsupported("length of segment " + h)


def _sub(seg, lo, hi):
    """bytes [lo,hi) of a single segment, as Bytes"""
    lo, hi = I(lo), I(hi)
    if lo == hi:
        return Bytes()
    if lo == 0 and hi == seglen(seg):
        return Bytes((seg,))
    if seg.head == "bl" and lo.is_const() and hi.is_const():
        return Bytes.lit(seg.args[0][lo.cval():hi.cval()])
    if seg.head == "bsub":
        return _sub(seg.args[0], seg.args[1] + lo, seg.args[1] + hi)
    if seg.head == "cat":
        bv, n, body = seg.args
        bl = body.len
        if bl.is_const() and bl.cval() > 0:
            w = bl.cval()
            # whole elements
            d = hi - lo
            k = lindivmod(lo, w)
            if k is not None and k[1].is_const() and d.is_const() and k[1].cval() + d.cval() <= w:
                return slice_bytes(subst(body, {bv: k[0]}), k[1], k[1] + d, lambda c: None)
    return Bytes((atom("bsub", seg, lo, hi),))


def _divexact(p, w):
    d = {}
    for m, c in p.d.items():
        if c % w:
            return None
        d[m] = c // w
    return Int(d)


def slice_bytes(b, lo, hi, decide):
    """b[lo:hi]; decide(cond)->True/False/None is used to compare symbolic offsets"""
    lo, hi = I(lo), I(hi)
    if lo == 0 and hi == b.len:
        return b
    if lo == hi:
        return Bytes()
    pos = Int.const(0)
    out = []
    state = 0
    for s in b.segs:
        n = seglen(s)
        end = pos + n
        if state == 1 and pos == hi:
            state = 2
            break
        # does the window start inside this segment?
        if state == 0 and pos == lo:
            state = 1
            st = Int.const(0)
        elif state == 0:
            c = cmp_le(end, lo, decide)
            if c is True:
                pos = end
                continue
            if c is None and cmp_le(pos, lo, decide) is not True:
                raise Unsupported("byte slice at undetermined offset")
            if c is None:
                # lo >= pos, maybe >= end: require lo <= end with equality undecided
                if cmp_le(lo, end, decide) is not True:
                    if cmp_le(hi, end, decide) is not True:
                        raise Unsupported("byte slice at undetermined offset")
            state = 1
            st = lo - pos
        else:
            st = Int.const(0)
        if hi == b.len:
            out.extend(_sub(s, st, n).segs)
            pos = end
            continue
        c = cmp_le(hi, end, decide)
        if c is True:
            out.extend(_sub(s, st, hi - pos).segs)
            state = 2
            break
        if c is None and cmp_le(end, hi, decide) is not True:
            raise Unsupported("byte slice at undetermined offset")
        out.extend(_sub(s, st, n).segs)
        pos = end
    if state != 2 and not (state == 1 and pos == hi):
        if not (state == 0 and lo == hi):
            raise Unsupported("byte slice out of range")
    return Bytes(out)


def cmp_le(a, b, decide):
    d = I(a) - I(b)
    if d.is_const():
        return d.cval() <= 0
    return decide(le(a, b))


# ---------------------------------------------------------------- booleans
# python True/False or Atom with head in {and,or,not,le0,eq0,eqS,eqP,eqB,p,forall}
def b_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.head == "not":
        return c.args[0]
    if c.head == "le0":          # not (p<=0)  <=>  1-p <= 0
        return atom("le0", Int.const(1) - c.args[0])
    return atom("not", c)


def b_and(*cs):
    s = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        for x in (c.args if c.head == "and" else (c,)):
            if x not in s:
                s.append(x)
    for x in s:
        if b_not(x) in s:
            return False
    if not s:
        return True
    if len(s) == 1:
        return s[0]
    return atom("and", *sorted(s, key=lambda a: a.id))


def b_or(*cs):
    return b_not(b_and(*[b_not(c) for c in cs]))


def b_imp(a, b):
    return b_or(b_not(a), b)


def le(a, b):
    d = I(a) - I(b)
    if d.is_const():
        return d.cval() <= 0
    b = _bitlen(d)
    if b is not None:
        # bit lengths against constants: bounds on the number itself
        x, k, c = b
        mag = lambda e: b_and(lt(x, 1 << e), lt(-x, 1 << e))        # |x| < 2^e
        if k > 0:
            return False if c < 0 else mag(c)
        return True if c <= 0 else b_not(mag(c - 1))
    return atom("le0", d)


def _bitlen(d):
    """(x, sign, c) when d is bitlen(x) - c, or c - bitlen(x)"""
    ms = [m for m in d.d if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or abs(d.d[ms[0]]) != 1:
        return None
    a = ms[0][0][0]
    if a.head != "nat" or a.args[0] != "bitlen" or not isinstance(a.args[1], Int):
        return None
    k = d.d[ms[0]]
    c = -d.cval() if k > 0 else d.cval()
    return (a.args[1], k, c) if abs(c) < 4096 else None


def lt(a, b):
    return le(I(a) + 1, b)


def ieq(a, b):
    d = I(a) - I(b)
    if d.is_const():
        return d.cval() == 0
    for x in (d,):
        # d = c * iteI(...) style splitting: eq over an ite atom with constant arms
        at = _only_ite(x)
        if at is not None:
            cond, u, v = at
            return b_or(b_and(cond, ieq(u, 0)), b_and(b_not(cond), ieq(v, 0)))
    if _bitlen(d) is not None:
        return b_and(le(d, 0), le(-d, 0))
    return atom("eq0", d.monic())


def _only_ite(d):
    its = [a for m in d.d for a, e in m if a.head == "iteI"]
    if len(set(its)) == 1:
        a = its[0]
        if all(len(m) <= 1 for m in d.d):
            return a.args[0], subst(d, {a: a.args[1]}), subst(d, {a: a.args[2]})
    return None


def eqS(a, b):
    d = a - b
    if d.is_zero():
        return True
    if d.is_const():
        return False
    if len(d.d) == 1:
        (m, c), = d.d.items()
        if all(x.nonzero for x, e in m):
            return False
        nz = [x for x, e in m if not x.nonzero]
        if len(nz) == 1 and nz[0].idem and len(m) == 1:
            return ind_to_bool(nz[0], False)
    # c*(1 - ind)
    if len(d.d) == 2 and () in d.d:
        m = [m for m in d.d if m != ()][0]
        if len(m) == 1 and m[0][0].idem:
            c1, c0 = d.d[m], d.d[()]
            if (c1 + c0) % d.mod == 0:
                return ind_to_bool(m[0][0], True)
            return False
    return atom("eqS", d.monic())


def ind_to_bool(a, val):
    if a.head == "ind":
        return a.args[1] if val else b_not(a.args[1])
    if a.head == "int" and a.args[1].head == "bit":
        return ieq(Int.of(a.args[1]), 1 if val else 0)
    raise Unsupported("idem atom")


def eqP(a, b):
    d = a - b
    if d.is_zero():
        return True
    if len(d.d) == 1:
        (x, c), = d.d.items()
        if c.is_const() and x.nonzero:
            return False
    return atom("eqP", d.monic())


def eqB(a, b):
    if a == b:
        return True
    x, y = list(a.segs), list(b.segs)
    conj = True
    while x and y:
        p, q = x[0], y[0]
        if p is q:
            x.pop(0), y.pop(0)
            continue
        if p.head == "bl" and q.head == "bl":
            n = min(len(p.args[0]), len(q.args[0]))
            if p.args[0][:n] != q.args[0][:n]:
                return False
            x[0:1] = Bytes.lit(p.args[0][n:]).segs
            y[0:1] = Bytes.lit(q.args[0][n:]).segs
            continue
        if p.head == q.head and p.head in ("encP", "encG", "encGc"):
            if p.head == "encP" or p.args[0].g == q.args[0].g:
                conj = b_and(conj, eqP(p.args[0], q.args[0]))
                x.pop(0), y.pop(0)
                continue
        if p.head == q.head == "hash" and p.args[:2] == q.args[:2] and not p.args[0].startswith("xx"):
            # assumption: collision-free
            conj = b_and(conj, eqB(p.args[2], q.args[2]))
            x.pop(0), y.pop(0)
            continue
        if p.head == q.head == "encS":
            conj = b_and(conj, eqS(p.args[0], q.args[0]))
            x.pop(0), y.pop(0)
            continue
        break
    while x and y and x[-1] is y[-1]:
        x.pop(), y.pop()
    if conj is False:
        return False
    if not x and not y:
        return conj
    u, v = Bytes(x), Bytes(y)
    dl = u.len - v.len
    if dl.is_const() and dl.cval() != 0:
        return False
    if hash(u) > hash(v):
        u, v = v, u
    return b_and(conj, ieq(u.len, v.len), atom("eqB", u, v))


def pred(name, *args):
    return atom("p", name, *args)


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b and type(a) is type(b):
        return a
    if isinstance(a, Poly) and a.mod:
        i = indicator(c, type(a))
        return b + i * (a - b)
    if isinstance(a, Pt):
        i = indicator(c, Pt.fld(a.g))
        return b + (a - b).scale(i)
    if isinstance(a, Int):
        d = a - b
        if d.is_const():
            i = indicator(c, Sc)
            isb = lambda j: all(x.head == "bit" for m in j.d for x, e in m)
            j = field_to_int(i)
            if not isb(j):
                j = Int.const(1) - field_to_int(Sc.const(1) - i)
            if isb(j):
                return b + j * d
        return Int.of(atom("iteI", c, a, b))
    if isinstance(a, Bytes):
        return Bytes((atom("iteB", c, a, b),))
    if isinstance(a, (bool, Atom)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    raise Unsupported("ite over %s" % type(a))


def indicator(c, cls):
    neg = False
    if c.head == "not":
        c, neg = c.args[0], True
    if c.head == "eq0":
        p = c.args[0]
        if bit_only(p) and len(p.d) == 1 and () not in p.d:
            # bit == 0
            r = cls.const(1) - int_to_field(Int({list(p.d)[0]: 1}), cls)
            return cls.const(1) - r if neg else r
        if p.mod:
            # over a field: k * (bit) or k * (1 - bit)
            fm = [m for m in p.d if m]
            if len(fm) == 1 and len(fm[0]) == 1 and fm[0][0][0].head == "int" and fm[0][0][0].idem:
                k, k0 = p.d[fm[0]], p.d.get((), 0)
                bt = int_to_field(Int({((fm[0][0][0].args[1], 1),): 1}), cls)
                if k0 == 0:
                    return bt if neg else cls.const(1) - bt
                if (k + k0) % p.mod == 0:
                    return cls.const(1) - bt if neg else bt
        bm = [m for m in p.d if m]
        if len(bm) == 1 and len(bm[0]) == 1 and bm[0][0][0].head == "bit" and p.d[bm[0]] == -p.d.get((), 0):
            r = int_to_field(Int({bm[0]: 1}), cls)
            return cls.const(1) - r if neg else r
    r = cls.of(atom("ind", cls.__name__, c, idem=True))
    return cls.const(1) - r if neg else r


# ---------------------------------------------------------------- binders
_fresh = itertools.count()


def newbv():
    return atom("bv", "f%d" % next(_fresh))


def canon_bv(body_bvs):
    """canonical bound variable for a body whose free bound variables are body_bvs"""
    k = 0
    for b in body_bvs:
        if isinstance(b.args[0], int):
            k = max(k, b.args[0] + 1)
    return atom("bv", k)


def _canon(bv, body):
    """rename fresh bv to the canonical one"""
    others = frozenset(x for x in body.bvs if x is not bv) | _inner_bvs(body)
    c = canon_bv(others)
    return c, subst(body, {bv: Int.of(c)})


_innermemo = {}


def _inner_bvs(t):
    """bound variables used by binders inside t"""
    k = t
    if k in _innermemo:
        return _innermemo[k]
    r = set()
    if isinstance(t, Atom):
        if t.head in BINDERS:
            r.add(t.args[0])
            if t.head == "iter":
                r.add(t.args[3])
        for x in t.args:
            if isinstance(x, (Atom, Poly, Pt, Bytes)):
                r |= _inner_bvs(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (Atom, Poly, Pt, Bytes)):
                        r |= _inner_bvs(y)
    elif isinstance(t, Poly):
        for m in t.d:
            for a, e in m:
                r |= _inner_bvs(a)
                if not isinstance(e, int):
                    r |= _inner_bvs(e)
    elif isinstance(t, Pt):
        for a, c in t.d.items():
            r |= _inner_bvs(a) | _inner_bvs(c)
    elif isinstance(t, Bytes):
        for a in t.segs:
            r |= _inner_bvs(a)
    r = frozenset(r)
    _innermemo[k] = r
    return r


def _minoff(t, bv):
    """smallest constant c such that bv + c (+ other things) occurs in t, or None"""
    best = None
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, Atom):
            if x in seen or bv not in x.bvs:
                continue
            seen.add(x)
        elif isinstance(x, Int) and bv in x.bvs:
            if x.d.get(((bv, 1),)) == 1:
                c = x.cval()
                best = c if best is None else min(best, c)
        work.extend(_kids(x))
    return best


def sum_(n, f, cls=Sc):
    """sum_{i<n} f(i) as a field polynomial"""
    n = I(n)
    if n.is_const():
        r = cls.const(0)
        for i in range(_few(n)):
            r = r + f(Int.const(i))
        return r
    k = n.cval()
    if k:
        base = n - k
        r = sum_(base, f, cls)
        if k > 0:
            for i in range(k):
                r = r + f(base + i)
        else:
            for i in range(-k):
                r = r - f(base - 1 - i)
        return r
    bv = newbv()
    body = f(Int.of(bv))
    out = cls.const(0)
    for m, c in body.d.items():
        dep = tuple((a, e) for a, e in m if bv in a.bvs or (not isinstance(e, int) and bv in e.bvs))
        ind = tuple(x for x in m if x not in dep)
        if not dep:
            out = out + cls({m: c}) * int_to_field(n, cls)
            continue
        d = cls({dep: 1})
        off = _minoff(d, bv)
        if off and abs(off) <= 8:
            # same terms, counted from another start
            g = lambda j: subst(d, {bv: I(j) - off})
            s = sum_(n + off, g, cls)
            for j in range(off):
                s = s - g(j)
            for j in range(off, 0):
                s = s + g(j)
            out = out + cls({ind: c}) * s
            continue
        cb, cbody = _canon(bv, d)
        out = out + cls({ind: c}) * cls.of(atom("sum", cb, n, cbody))
    return out


def psum_(n, f, g="R"):
    n = I(n)
    cls = Pt.fld(g)
    if n.is_const():
        r = Pt.zero(g)
        for i in range(_few(n)):
            r = r + f(Int.const(i))
        return r
    k = n.cval()
    if k:
        base = n - k
        r = psum_(base, f, g)
        if k > 0:
            for i in range(k):
                r = r + f(base + i)
        else:
            for i in range(-k):
                r = r - f(base - 1 - i)
        return r
    bv = newbv()
    body = f(Int.of(bv))
    out = Pt.zero(g)
    for a, co in body.d.items():
        if bv not in a.bvs:
            # constant point: sum the coefficient
            out = out + Pt.of(a, g).scale(sum_(n, lambda i: subst(co, {bv: i}), cls))
            continue
        for m, c in co.d.items():
            dep = tuple((x, e) for x, e in m if bv in x.bvs or (not isinstance(e, int) and bv in e.bvs))
            ind = tuple(x for x in m if x not in dep)
            d = Pt(g, {a: cls({dep: 1})})
            off = _minoff(d, bv)
            if off and abs(off) <= 8:
                h = lambda j: subst(d, {bv: I(j) - off})
                s = psum_(n + off, h, g)
                for j in range(off):
                    s = s - h(j)
                for j in range(off, 0):
                    s = s + h(j)
                out = out + s.scale(cls({ind: c}))
                continue
            cb, cbody = _canon(bv, d)
            out = out + Pt.of(atom("psum", cb, n, cbody), g).scale(cls({ind: c}))
    return out


def _few(n):
    if n.cval() > 1 << 16:
        raise Unsupported("expansion over %d indices" % n.cval())
    return n.cval()


def cat_(n, f):
    n = I(n)
    if n.is_const():
        r = Bytes()
        segs = []
        for i in range(_few(n)):
            segs.extend(f(Int.const(i)).segs)
        return Bytes(segs)
    k = n.cval()
    if k > 0:
        # count down only from what is not negative
        if not all(c > 0 and all(a.head in ("nat", "len", "bv") for a, e in m) for m, c in n.d.items()):
            k = 0
    if k > 0:
        base = n - k
        r = cat_(base, f)
        for i in range(k):
            r = r + f(base + i)
        return r
    bv = newbv()
    body = f(Int.of(bv))
    cb, cbody = _canon(bv, body)
    return Bytes((atom("cat", cb, n, cbody),))


def forall_(n, f):
    """for all i < n: f(i)"""
    n = I(n)
    if n.is_const():
        return b_and(*[f(Int.const(i)) for i in range(_few(n))])
    k = n.cval()
    if k > 0:
        # count down only from what is not negative
        if not all(c > 0 and all(a.head in ("nat", "len", "bv") for a, e in m) for m, c in n.d.items()):
            k = 0
    if k > 0:
        base = n - k
        return b_and(forall_(base, f), *[f(base + i) for i in range(k)])
    bv = newbv()
    body = f(Int.of(bv))
    if isinstance(body, bool):
        return True if body else le(n, 0)
    cb, cbody = _canon(bv, body)
    return atom("forall", cb, n, cbody)


def _lift(like, a):
    """the atom as a term of the sort of like"""
    return Pt.of(a, like.g) if isinstance(like, Pt) else type(like).of(a)


def _unapply(body, acc, x):
    """y with body[acc := y] == x, or None"""
    if not occurs(acc, body) or isinstance(body, Poly) and body.single_atom() is None or isinstance(body, Pt) and body.single_atom() is None:
        return None
    todo, seen = [x], set()
    while todo and len(seen) < 40:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if type(t) is type(x) and t is not x:
            try:
                if subst(body, {acc: t}) == x:
                    return t
            except Unsupported:
                pass
        todo.extend(_kids(t))
    return None


def _hashstep(f, x0):
    """is a step a hash of something that contains the previous value?  Then iter(n, x) for n < 0 may be
    read as a formal preimage, and f(iter(n)) = iter(n+1) for every integer n"""
    acc = newbv()
    t = f(Int.of(newbv()), _lift(x0, acc))
    a = (next(iter(t.d)) if len(t.d) == 1 else None) if isinstance(t, Pt) else t.single_atom() if isinstance(t, Poly) else None
    return a is not None and a.head in ("HP", "Hs") and occurs(acc, a)


def iter_(n, x0, f):
    """f(n-1, ... f(1, f(0, x0)))  for a field or group element x0"""
    n = I(n)
    if n.is_const() and (n.cval() >= 0 or not _hashstep(f, x0)):
        for i in range(_few(n)):
            x0 = f(Int.const(i), x0)
        return x0
    k = n.cval()
    if k > 0 and not _hashstep(f, x0):
        # f may have no formal preimages: count down only from what is not negative
        if not all(c > 0 and all(a.head in ("nat", "len", "bv") for a, e in m) for m, c in n.d.items()):
            k = 0
    if k > 0:
        base = n - k
        r = iter_(base, x0, f)
        for i in range(k):
            r = f(base + i, r)
        return r
    bv, acc = newbv(), newbv()
    body = f(Int.of(bv), _lift(x0, acc))
    # n steps from f(-1, y) are n+1 steps from y
    try:
        y = _unapply(subst(body, {bv: Int.const(-1)}), acc, x0)
    except Unsupported:
        y = None
    if y is not None:
        return iter_(n + 1, y, lambda i, c: f(I(i) - 1, c))
    if bv not in body.bvs:
        a = next(iter(x0.d)) if isinstance(x0, Pt) and len(x0.d) == 1 else x0.single_atom() if isinstance(x0, Poly) else None
        if a is not None and a.head == "iter" and _lift(x0, a) == x0 and subst(a.args[2], {a.args[3]: _lift(x0, acc)}) == body:
            return iter_(n + a.args[1], a.args[4], f)
    others = frozenset(x for x in body.bvs if x is not bv and x is not acc) | _inner_bvs(body) | x0.bvs | _inner_bvs(x0)
    cb = canon_bv(others)
    ca = atom("bv", cb.args[0] + 1)
    body = subst(body, {bv: Int.of(cb), acc: _lift(x0, ca)})
    return _lift(x0, atom("iter", cb, n, body, ca, x0))


# ---------------------------------------------------------------- substitution
def subst(t, mp, memo=None):
    """replace atoms (keys) by terms; Int atoms by Int terms etc."""
    if memo is None:
        memo = {}
    if isinstance(t, (bool, int, str, bytes)) or t is None:
        return t
    if isinstance(t, (Atom,)):
        return subst_atom(t, mp, memo)
    if isinstance(t, tuple):
        return tuple(subst(x, mp, memo) for x in t)
    k = id(t)
    if k in memo:
        return memo[k][1]
    if isinstance(t, Poly):
        cls = type(t)
        r = cls({})
        acc = {}
        simple = True
        for m, c in t.d.items():
            nm = []
            prod = None
            for a, e in m:
                na = subst_atom(a, mp, memo)
                ne = e if isinstance(e, int) else subst(e, mp, memo)
                if na is a and (ne is e):
                    nm.append((a, e))
                    continue
                if isinstance(na, Atom):
                    na = cls.of(na)
                if isinstance(na, int):
                    na = cls.const(na)
                if a.head == "lit":
                    na = cls.const(a.args[0])
                p = fpow(na, ne) if not (isinstance(ne, int)) else (na ** ne if ne >= 0 else inverse(na) ** (-ne))
                prod = p if prod is None else prod * p
            if prod is None:
                acc[m] = (acc.get(m, 0) + c)
            else:
                r = r + prod.scale_mono(tuple(nm), c)
        if acc:
            if cls.mod:
                acc = {m: c % cls.mod for m, c in acc.items() if c % cls.mod}
            else:
                acc = {m: c for m, c in acc.items() if c}
            r = r + cls(acc)
    elif isinstance(t, Pt):
        r = Pt.zero(t.g)
        d = {}
        for a, c in t.d.items():
            na = subst_atom(a, mp, memo)
            nc = subst(c, mp, memo)
            if isinstance(na, Atom):
                x = d.get(na)
                d[na] = nc if x is None else x + nc
            else:
                r = r + na.scale(nc)
        r = r + Pt(t.g, {a: c for a, c in d.items() if c.d})
    elif isinstance(t, Bytes):
        segs = []
        for s in t.segs:
            ns = subst_atom(s, mp, memo)
            if isinstance(ns, Bytes):
                segs.extend(ns.segs)
            else:
                segs.append(ns)
        r = Bytes(segs)
    else:
        hook = getattr(t, "subst", None)
        if hook is None:
            raise Unsupported("subst into %s" % type(t))
        r = hook(mp, memo)
    memo[k] = (t, r)
    return r


def _touches(a, mp):
    return True


def _kids(t):
    """direct sub-terms"""
    if isinstance(t, Atom):
        return [x for x in t.args if isinstance(x, (Atom, Poly, Pt, Bytes, tuple))]
    if isinstance(t, Poly):
        out = []
        for m in t.d:
            for a, e in m:
                out.append(a)
                if not isinstance(e, int):
                    out.append(e)
        return out
    if isinstance(t, Pt):
        out = []
        for a, c in t.d.items():
            out.append(a)
            out.append(c)
        return out
    if isinstance(t, Bytes):
        return list(t.segs)
    if isinstance(t, tuple):
        return list(t)
    return []


def atoms_in(t):
    """set of all atoms occurring (transitively) in t"""
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, Atom):
            if x in seen:
                continue
            seen.add(x)
        work.extend(_kids(x))
    return seen


def occurs(a, t):
    """does atom a occur in t (the parts of an atom are older than it)"""
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, Atom):
            if x is a:
                return True
            if x.id < a.id or x in seen:
                continue
            seen.add(x)
        work.extend(_kids(x))
    return False


def _mentions(t, mp, memo):
    """does t mention a key of mp"""
    lo = memo.get("lo")
    if lo is None:
        lo = memo["lo"] = min((a.id for a in mp), default=1 << 60)
    if isinstance(t, Atom):
        if t in mp:
            return True
        if t.id < lo:
            return False
        k = ("m", t.id)
        r = memo.get(k)
        if r is None:
            r = memo[k] = any(_mentions(x, mp, memo) for x in _kids(t))
        return r
    return any(_mentions(x, mp, memo) for x in _kids(t))


_heads_memo = {}


def heads_in(t):
    """frozenset of the heads of all atoms occurring in t"""
    if isinstance(t, Atom):
        r = _heads_memo.get(t.id)
        if r is None:
            r = frozenset([t.head]).union(*[heads_in(x) for x in _kids(t)])
            _heads_memo[t.id] = r
        return r
    s = set()
    for x in _kids(t):
        s |= heads_in(x)
    return frozenset(s)


def subst_atom(a, mp, memo):
    if a in mp:
        return mp[a]
    if not a.args:
        return a
    k = ("a", a.id)
    if k in memo:
        return memo[k]
    if not _mentions(a, mp, memo):
        memo[k] = a
        return a
    if a.head in BINDERS:
        bv = a.args[0]
        mp2 = {x: y for x, y in mp.items() if x is not bv}
        # avoid capture: rename the bound variable first
        f = newbv()
        mp2[bv] = Int.of(f)
        n = subst(a.args[1], mp)
        if a.head == "iter":
            g = newbv()
            x0 = subst(a.args[4], mp)
            mp2.pop(a.args[3], None)
            mp2[a.args[3]] = _lift(x0, g)
            body = subst(a.args[2], mp2)
            r = iter_(n, x0, lambda i, c: subst(body, {f: I(i), g: c}))
            memo[k] = r
            return r
        body = subst(a.args[2], mp2)
        fn = lambda i: subst(body, {f: I(i)})
        if a.head == "sum":
            r = sum_(n, fn, type(a.args[2]))
        elif a.head == "psum":
            r = psum_(n, fn, a.args[2].g)
        elif a.head == "cat":
            r = cat_(n, fn)
        else:
            r = forall_(n, fn)
    else:
        args = tuple(subst(x, mp, memo) for x in a.args)
        r = rebuild(a, args)
    memo[k] = r
    return r


REBUILD = {}


def rebuild(a, args):
    h = a.head
    if h in REBUILD:
        return REBUILD[h](*args)
    if h == "le0":
        return le(args[0], 0)
    if h == "eq0":
        return ieq(args[0], 0)
    if h == "eqS":
        return eqS(args[0], type(args[0]).const(0))
    if h == "eqP":
        return eqP(args[0], Pt.zero(args[0].g))
    if h == "eqB":
        return eqB(args[0], args[1])
    if h == "and":
        return b_and(*args)
    if h == "not":
        return b_not(args[0])
    if h == "iteI":
        return ite(args[0], args[1], args[2])
    if h == "iteB":
        return ite(args[0], args[1], args[2])
    if h == "inv":
        return inverse(args[0])
    if h == "pow":
        return fpow(args[0], args[1])
    if h == "ind":
        cls = Sc if args[0] == "Sc" else Sb
        return ite(args[1], cls.const(1), cls.const(0))
    if h == "bsub":
        if isinstance(args[0], Bytes):
            b = args[0]
        else:
            b = Bytes((args[0],))
        if len(b.segs) == 1:
            return _sub(b.segs[0], args[1], args[2])
        return slice_bytes(b, args[1], args[2], lambda c: None)
    if h == "b1" and args[0].is_const():
        return Bytes.lit(bytes([args[0].cval() & 255]))
    if h == "catlen":
        return (args[0] if isinstance(args[0], Bytes) else Bytes((args[0],))).len
    if h == "s2i":
        return field_to_int(args[0])
    if h == "int":
        x = args[1]
        cls = Sc if args[0] == "Sc" else Sb
        if isinstance(x, Atom):
            return _int_atom_to_field(x, cls)
        return int_to_field(x, cls)
    if h == "mod":
        return imod(args[0], args[1])
    if h == "div":
        return idiv(args[0], args[1])
    if h == "pair":
        if not (isinstance(args[0], Atom) and isinstance(args[1], Atom)):
            p = args[0] if isinstance(args[0], Pt) else Pt.of(args[0], "G1")
            q = args[1] if isinstance(args[1], Pt) else Pt.of(args[1], "G2")
            return pair(p, q)
    return atom(h, *args, idem=a.idem, nonzero=a.nonzero, rng=a.rng)


def imod(a, b):
    a, b = I(a), I(b)
    if a.is_const() and b.is_const() and b.cval():
        x, y = a.cval(), b.cval()
        return Int.const(abs(x) % abs(y) * (1 if x >= 0 else -1))   # Go truncated
    if b.is_const() and b.cval() > 0 and b.cval() & (b.cval() - 1) == 0:
        r = int_divmod_pow2(a, b.cval().bit_length() - 1)
        if r is not None:
            return r[1]
    return Int.of(atom("mod", a, b))


def idiv(a, b):
    a, b = I(a), I(b)
    if a.is_const() and b.is_const() and b.cval():
        x, y = a.cval(), b.cval()
        q = abs(x) // abs(y)
        return Int.const(q if (x >= 0) == (y >= 0) else -q)
    if b == 1:
        return a
    if b.is_const() and b.cval() > 0 and b.cval() & (b.cval() - 1) == 0:
        r = int_divmod_pow2(a, b.cval().bit_length() - 1)
        if r is not None:
            return r[0]
    return Int.of(atom("div", a, b))


def lindivmod(p, w):
    """(q, r) with p = w*q + r and 0 <= r < w when the shape of p shows them, or None"""
    q, r, top = {}, {}, 0
    for m, c in I(p).d.items():
        if c % w == 0:
            q[m] = c // w
        elif m == ():
            if c // w:
                q[m] = c // w
            r[m] = c % w
            top += c % w
        elif c > 0 and len(m) == 1 and m[0][1] == 1 and getattr(m[0][0], "rng", None):
            lo, hi = m[0][0].rng
            if lo < 0 or hi is None:
                return None
            r[m] = c
            top += c * hi
        else:
            return None
    if top >= w:
        return None
    return Int(q), Int(r)


# ---------------------------------------------------------------- common builders
def encP(p):
    return Bytes((atom("encP", p),))


def encS(s):
    # the canonical encoding of a decoded scalar is only known for decoded encodings
    return Bytes((atom("encS", s),))


def encG(p):
    return Bytes((atom("encG", p),))


def encGc(p):
    return Bytes((atom("encGc", p),))


def Hs(b):
    """ristretto Scalar.Derive"""
    return Sc.of(atom("Hs", b, nonzero=True))


def HP(b):
    """ristretto Point.Derive"""
    return Pt.of(atom("HP", b, nonzero=True))


def BASE():
    return Pt.of(atom("B", nonzero=True))


def u32(n):
    n = I(n)
    if n.is_const():
        return Bytes.lit((n.cval() & 0xffffffff).to_bytes(4, "big"))
    return Bytes((atom("u32", n),))


def hashB(alg, n, b):
    return Bytes((atom("hash", alg, n, b),))
