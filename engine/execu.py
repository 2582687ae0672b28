"""Symbolic executor / condition generator over the SSA of the real code."""
import heapq
import itertools
import solver
from terms import *
from values import *


class Empty(Unsupported):
    pass


class Panic:
    def __init__(self, msg, line=None, fn=None):
        self.msg, self.line, self.fn = msg, line, fn

    def __repr__(self):
        return "panic(%s at %s:%s)" % (self.msg, self.fn, self.line)


class Path:
    __slots__ = ("st", "env", "blk", "idx", "prev", "iters", "snap")

    def __init__(self, st, env, blk, idx, prev, iters, snap=None):
        self.st, self.env, self.blk, self.idx, self.prev, self.iters = st, env, blk, idx, prev, iters
        self.snap = snap or {}

    def fork(self, st):
        return Path(st, dict(self.env), self.blk, self.idx, self.prev, dict(self.iters), dict(self.snap))


def low_zeros(p):
    """2^k divides p"""
    k = 64
    for m, c in p.d.items():
        k = min(k, (c & -c).bit_length() - 1)
    return k


def join_bytes(p):
    """b0*2^24 + b1*2^16 + b2*2^8 + b3 as the number four bytes denote"""
    from externs import dec_uint
    n = len(p.d)
    if n not in (2, 4, 8):
        return p
    at = {}
    for m, c in p.d.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].head != "byte":
            return p
        at[c] = m[0][0].args[0]
    if sorted(at) != [1 << 8 * i for i in range(n)]:
        return p
    for little in (False, True):
        b = Bytes()
        for i in range(n):
            b = b + at[1 << 8 * (i if little else n - 1 - i)]
        if len(b.segs) == 1:
            return dec_uint(b, n, little)
    return p


class Exec:
    MAXPATHS = 4000
    MAXIT = 5000
    MAXDEPTH = 60

    def __init__(self, prog, contracts=None, symbolic=False):
        self.prog = prog
        self.contracts = contracts or {}
        self.symbolic = symbolic
        self.merge_ints = symbolic
        self.depth = 0
        self.verifying = None
        self.measure = None
        self.used = {}            # contract applications
        self.inlined = set()
        self.externs_used = set()
        self.line = None
        self.curfn = None
        self.loops_summarised = []
        self.loops_unrolled = set()
        self.nosum = set()        # loops being summarised right now
        self.steps = 0
        self.max_steps = 40_000_000
        self.intn_fork = True
        self.naming = False       # give names to sums stored in vectors (folding arguments)

    merging = True

    # ------------------------------------------------------------ solver
    def decide(self, st, c):
        return solver.decide(st.pc, c)

    def branch(self, st, c):
        """[(state, truth)] for the feasible outcomes of c"""
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        return [(st.assume(c), True), (st.assume(b_not(c)), False)]

    # ------------------------------------------------------------ memory
    def alloc(self, st, tag, content, owner="local"):
        r = newroot(tag)
        st.mem[r] = content
        st.owner[r] = owner
        return r

    def get(self, st, v, step):
        kind, x = step
        if kind == "f":
            if not isinstance(v, StructV):
                raise Unsupported("field of %r" % type(v).__name__)
            return v.f[x]
        return self.arr_get(st, v, x)

    def ites(self, i):
        return [t for m in i.d for t, e in m if t.head == "iteI"]

    def settle(self, st, i):
        """i with the choices the path condition decides"""
        for t in self.ites(i):
            d = self.decide(st, t.args[0])
            if d is not None:
                return self.settle(st, subst(i, {t: t.args[1 if d else 2]}))
        return i

    def arr_len(self, a):
        if isinstance(a, CArr):
            return Int.const(len(a.e))
        if isinstance(a, BArr):
            return a.b.len
        return a.n

    def arr_get(self, st, a, i):
        i = I(i)
        if isinstance(a, CArr):
            if i.is_const():
                if not 0 <= i.cval() < len(a.e):
                    raise Unsupported("read outside array")
                return a.e[i.cval()]
            return self.arr_choose(st, a, i)
        if isinstance(a, BArr):
            return self.byte_at(st, a.b, i)
        if isinstance(a, SArr):
            for t in self.ites(i):
                c, x, y = t.args
                d = self.decide(st, c)
                pick = lambda v: subst(i, {t: v})
                if d is not None:
                    return self.arr_get(st, a, pick(x if d else y))
                return self.vite(c, self.arr_get(st.assume(c), a, pick(x)), self.arr_get(st.assume(b_not(c)), a, pick(y)), st)
        if isinstance(a, SArr):
            for k, (j, v) in enumerate(a.upd):
                if isinstance(j, tuple):
                    lo, hi = j
                    c = b_and(le(lo, i), lt(i, hi))
                    d = self.decide(st, c)
                    if d is True:
                        return v(i)
                    if d is None:
                        try:
                            rest = self.arr_get(st, SArr(a.n, a.fn, a.upd[k + 1:]), i)
                        except Empty:
                            return v(i)      # the index is within the array, and nothing else is
                        return self.vite(c, v(i), rest, st)
                    continue
                d = self.decide(st, ieq(i, j))
                if d is True:
                    return v
                if d is None:
                    rest = self.arr_get(st, SArr(a.n, a.fn, a.upd[k + 1:]), i)
                    return self.vite(ieq(i, j), v, rest, st)
            return a.fn(i)
        raise Unsupported("index of %s" % type(a).__name__)

    def vite(self, c, a, b, st=None):
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV([self.vite(c, x, y, st) for x, y in zip(a.f, b.f)])
        if a == b and type(a) == type(b):
            return a
        if isinstance(a, (SliceV, PtrV)) and type(a) is type(b) and a.root == b.root and [k if k == "i" else (k, x) for k, x in a.path] == \
                [k if k == "i" else (k, x) for k, x in b.path]:
            path = tuple((k, ite(c, I(x), I(y)) if k == "i" and x != y else x) for (k, x), (_, y) in zip(a.path, b.path))
            if isinstance(a, PtrV):
                return PtrV(a.root, path)
            cap = ite(c, a.cap, b.cap) if a.cap is not None and b.cap is not None else None
            return SliceV(a.root, path, ite(c, a.off, b.off), ite(c, a.len, b.len), cap)
        if isinstance(a, (Poly, Pt, Bytes, bool, Atom)) and (type(a) is type(b) or isinstance(a, (bool, Atom)) and isinstance(b, (bool, Atom))):
            return ite(c, a, b)
        if st is not None and isinstance(a, SArr) and isinstance(b, SArr):
            y, n = st.assume(c), st.assume(b_not(c))
            return SArr(ite(c, a.n, b.n), lambda i: self.vite(c, self.arr_get(y, a, i), self.arr_get(n, b, i), st))
        raise Unsupported("choice between %s and %s" % (type(a).__name__, type(b).__name__))

    def arr_choose(self, st, a, i):
        if not a.e:
            raise Empty("element of an empty array")
        v = a.e[-1]
        for k in range(len(a.e) - 2, -1, -1):
            v = self.vite(ieq(i, k), a.e[k], v)
        return v

    def byte_at(self, st, b, i):
        if b.is_lit() and i.is_const():
            return Int.const(b.litval()[i.cval()])
        s = slice_bytes(b, i, i + 1, lambda c: self.decide(st, c))
        if s.is_lit():
            return Int.const(s.litval()[0])
        if s.segs[0].head == "b1":
            return s.segs[0].args[0]
        return Int.of(atom("byte", s, rng=(0, 255)))

    def byte_seg(self, v):
        if v.is_const():
            return Bytes.lit(bytes([v.cval() & 255]))
        a = v.single_atom()
        if a is not None and a.head == "byte":
            return a.args[0]
        return Bytes((atom("b1", v),))

    def arr_set(self, st, a, i, v):
        i = I(i)
        if isinstance(a, CArr):
            if not i.is_const():
                e = list(a.e)
                for k in range(len(e)):
                    e[k] = self.vite(ieq(i, k), v, e[k])
                return CArr(e)
            e = list(a.e)
            e[i.cval()] = v
            return CArr(e)
        if isinstance(a, BArr):
            dec = lambda c: self.decide(st, c)
            return BArr(slice_bytes(a.b, 0, i, dec) + self.byte_seg(v) + slice_bytes(a.b, i + 1, a.b.len, dec))
        if isinstance(a, SArr):
            keep = []
            for u in a.upd:
                if isinstance(u[0], tuple) or self.decide(st, ieq(i, u[0])) is not True:
                    keep.append(u)
            return SArr(a.n, a.fn, ((i, v),) + tuple(keep))
        raise Unsupported("store into %s" % type(a).__name__)

    def read(self, st, p):
        if p.root not in st.mem:
            raise Unsupported("dangling root %s" % (p.root,))
        v = st.mem[p.root]
        for s in p.path:
            v = self.get(st, v, s)
        return v

    def named(self, v):
        if isinstance(v, Sc) and len(v.d) > 1:
            lv = 1
            for m in v.d:
                for a, e in m:
                    if a.head == "def" and a.args[1] >= lv:
                        lv = a.args[1] + 1
            return Sc.of(atom("def", v, lv))
        return v

    def write(self, st, p, val):
        if self.naming and p.path and p.path[-1][0] == "i":
            val = self.named(val)

        def go(v, path):
            if not path:
                return val
            kind, x = path[0]
            if kind == "f":
                f = list(v.f)
                f[x] = go(f[x], path[1:])
                return StructV(f)
            if len(path) == 1:
                return self.arr_set(st, v, x, val)
            return self.arr_set(st, v, x, go(self.arr_get(st, v, x), path[1:]))
        old = st.mem[p.root]
        st.mem[p.root] = go(old, p.path)

    def refs(self, st, root):
        """number of places in memory that point to root"""
        n = 0

        def go(v):
            nonlocal n
            if isinstance(v, (PtrV, SliceV)):
                n += v.root == root
            elif isinstance(v, StructV):
                for x in v.f:
                    go(x)
            elif isinstance(v, CArr):
                for x in v.e:
                    go(x)
            elif isinstance(v, SArr):
                go(v.fn(Int.of(atom("bv", "refs"))))
                for j, x in v.upd:
                    go(x(Int.of(atom("bv", "refs"))) if isinstance(j, tuple) else x)
            elif isinstance(v, IfaceV):
                go(v.v)
        for v in st.mem.values():
            go(v)
        return n

    # slices -----------------------------------------------------------
    def sl_content(self, st, s):
        return self.read(st, PtrV(s.root, s.path)) if s.root is not None else CArr(())

    def sl_get(self, st, s, i):
        return self.arr_get(st, self.sl_content(st, s), s.off + I(i))

    def sl_elems(self, st, s):
        """python list of elements of a slice with concrete length"""
        if s.root is None:
            return []
        if not (s.len.is_const() and s.off.is_const()):
            raise Unsupported("symbolic slice where a concrete one is needed")
        c = self.sl_content(st, s)
        o, n = s.off.cval(), s.len.cval()
        if isinstance(c, CArr):
            return list(c.e[o:o + n])
        return [self.arr_get(st, c, o + k) for k in range(n)]

    def sl_bytes(self, st, s):
        if s is NIL or s.root is None:
            return Bytes()
        c = self.sl_content(st, s)
        if not isinstance(c, BArr):
            if self.arr_len(c) == 0:
                return Bytes()
            raise Unsupported("bytes of %s" % type(c).__name__)
        return slice_bytes(c.b, s.off, s.off + s.len, lambda x: self.decide(st, x))

    def mk_bytes(self, st, b, tag="bytes", owner="local", cap=None):
        r = self.alloc(st, tag, BArr(b), owner)
        return SliceV(r, (), 0, b.len, cap if cap is not None else None)

    def mk_slice(self, st, elems, tag="slice", owner="local", exact=False):
        r = self.alloc(st, tag, CArr(elems), owner)
        return SliceV(r, (), 0, len(elems), len(elems) if exact else None)

    def mk_sslice(self, st, n, fn, tag="slice", owner="local", exact=False):
        n = I(n)
        if n.is_const():
            return self.mk_slice(st, [fn(Int.const(i)) for i in range(n.cval())], tag, owner, exact)
        r = self.alloc(st, tag, SArr(n, fn), owner)
        return SliceV(r, (), 0, n, n if exact else None)

    # ------------------------------------------------------------ operands
    def val(self, p, v):
        k = v["k"]
        if k == "r":
            return p.env[v["n"]]
        if k == "c":
            return self.const(v)
        if k == "f":
            return FuncV(v["n"])
        if k == "g":
            return PtrV("global:" + v["n"])
        if k == "b":
            return FuncV("builtin:" + v["n"])
        raise Unsupported("operand " + k)

    def const(self, v):
        x = v["v"]
        t = v["t"]
        if x is None:
            return self.prog.zero(t)
        if isinstance(x, bool):
            return x
        if "s" in x:
            import base64
            return Bytes.lit(base64.b64decode(x["s"]))
        if "i" in x:
            return Int.const(int(x["i"]))
        if "x" in x:
            f = x["x"]
            if "/" not in f and "." not in f:
                return Int.const(int(f))
            return OpaqueV("float")
        raise Unsupported("constant")

    # ------------------------------------------------------------ integers
    def wrap(self, st, p, t):
        """value of mathematical integer p in the machine type t"""
        n = self.prog.under(t).get("name")
        if n not in INTBITS:
            return p
        bits, signed = INTBITS[n]
        if p.is_const():
            c = p.cval() & ((1 << bits) - 1)
            if signed and c >> (bits - 1):
                c -= 1 << bits
            return Int.const(c)
        if signed:
            return p                       # assumption: no signed overflow on lengths/indices
        if bit_only(p):
            r = int_divmod_pow2(p, bits)
            if r is not None:
                return r[1]
        if self.decide(st, le(0, p)) is True:
            if bits >= 32:
                return p                   # assumption: lengths fit 32 bits
            if self.decide(st, le(p, (1 << bits) - 1)) is True:
                return p
            return Int.of(atom("mod", p, Int.const(1 << bits)))
        return Int.of(atom("nat", "wrap", bits, p))

    def binop(self, st, o, x, y, t, xt, line):
        """[(state, value)]"""
        if isinstance(x, Int) and isinstance(y, Int):
            if o == "+":
                return self.wrap(st, x + y, t)
            if o == "-":
                return self.wrap(st, x - y, t)
            if o == "*":
                return self.wrap(st, x * y, t)
            if o in ("/", "%"):
                z = self.decide(st, ieq(y, 0))
                if z is True:
                    return Panic("integer divide by zero")
                if y.is_const() and y.cval() > 1 and not x.is_const():
                    qr = lindivmod(x, y.cval())
                    if qr is not None and self.decide(st, le(0, x)) is True:
                        return qr[0 if o == "/" else 1]
                r = (idiv if o == "/" else imod)(x, y)
                if o == "%" and not r.is_const():
                    r = self.simplify_mod(st, x, y, r)
                if z is None:
                    return ("fork", ieq(y, 0), Panic("integer divide by zero"), r)
                return r
            if o == "==":
                return ieq(x, y)
            if o == "!=":
                return b_not(ieq(x, y))
            if o == "<":
                return lt(x, y)
            if o == "<=":
                return le(x, y)
            if o == ">":
                return lt(y, x)
            if o == ">=":
                return le(y, x)
            if x.is_const() and y.is_const():
                a, b = x.cval(), y.cval()
                r = {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "&^": lambda: a & ~b,
                     "<<": lambda: a << b if b < 128 else 0, ">>": lambda: a >> b}.get(o)
                if r:
                    return self.wrap(st, Int.const(r()), t)
            if o == ">>" and y.is_const():
                r = int_divmod_pow2(x, y.cval())
                if r is None:
                    r = lindivmod(x, 1 << y.cval())
                if r is not None:
                    return r[0]
                return idiv(x, Int.const(1 << y.cval()))
            if o == "<<" and y.is_const():
                return self.wrap(st, x * (1 << y.cval()), t)
            if o == "<<":
                if x.is_const() and self.decide(st, b_and(le(0, y), le(y, 63))) is True:
                    # one value per possible shift
                    r = self.wrap(st, Int.const(x.cval() << 63), t)
                    for k in range(62, -1, -1):
                        if self.decide(st, ieq(y, k)) is not False:
                            r = Int.of(atom("iteI", ieq(y, k), self.wrap(st, Int.const(x.cval() << k), t), r))
                    return r
                return Int.of(atom("nat", "shl", x, y))
            if o == "&":
                for a, b in ((x, y), (y, x)):
                    if b.is_const() and b.cval() >= 0 and (b.cval() + 1) & b.cval() == 0:
                        r = int_divmod_pow2(a, (b.cval() + 1).bit_length() - 1)
                        if r is not None:
                            return r[1]
                        if self.decide(st, le(0, a)) is True:
                            return imod(a, Int.const(b.cval() + 1))
            if o in ("|", "^"):
                # no common bits: the sum
                for a, b in ((x, y), (y, x)):
                    k = low_zeros(a)
                    if k and self.decide(st, b_and(le(0, b), le(b, (1 << k) - 1), le(0, a))) is True:
                        return join_bytes(a + b)
            return Int.of(atom("nat", "op" + o, x, y))
        if isinstance(x, Bytes) and isinstance(y, Bytes):
            if o == "+":
                return x + y
            if o == "==":
                return eqB(x, y)
            if o == "!=":
                return b_not(eqB(x, y))
            if o in ("<", "<=", ">", ">=") and x.is_lit() and y.is_lit():
                a, b = x.litval(), y.litval()
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
            return pred("strcmp" + o, x, y)
        if o in ("==", "!="):
            e = self.equal(st, x, y)
            return e if o == "==" else b_not(e)
        if isinstance(x, (bool, Atom)) and isinstance(y, (bool, Atom)):
            if o in ("&", "&&"):
                return b_and(x, y)
            if o in ("|", "||"):
                return b_or(x, y)
        raise Unsupported("binop %s on %s,%s" % (o, type(x).__name__, type(y).__name__))

    def simplify_mod(self, st, x, y, r):
        """x % y when a few wrap-arounds are decidable"""
        for k in (0, 1, -1, 2):
            q = x - y * k
            if self.decide(st, b_and(le(0, q), lt(q, y))) is True:
                if k < 0 and self.decide(st, le(x, -1)) is True:
                    continue
                return q
        if self.decide(st, b_and(lt(-y, x), le(x, 0))) is True:
            return x            # the remainder takes the sign of the dividend
        if self.symbolic and self.decide(st, b_and(le(-y, x), le(x, 0))) is True:
            return Int.of(atom("iteI", lt(-y, x), x, Int.const(0)))
        if self.symbolic and self.decide(st, b_and(le(0, x), le(x, y))) is True:
            return Int.of(atom("iteI", lt(x, y), x, Int.const(0)))
        if self.symbolic and self.decide(st, b_and(le(0, x), lt(x, y + y))) is True:
            return Int.of(atom("iteI", lt(x, y), x, x - y))
        return r

    def equal(self, st, x, y):
        if x is NIL or y is NIL:
            if x is y:
                return True
            o = y if x is NIL else x
            if isinstance(o, SliceV):
                return o.root is None
            return False
        if isinstance(x, (bool, Atom)) and isinstance(y, (bool, Atom)):
            return b_or(b_and(x, y), b_and(b_not(x), b_not(y)))
        if isinstance(x, SliceV) and isinstance(y, SliceV):
            if y.root is None:
                return x.root is None
            if x.root is None:
                return y.root is None
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            return x == y
        if isinstance(x, Sc) and isinstance(y, Sc):
            return eqS(x, y)
        if isinstance(x, Int) and isinstance(y, Int):
            return ieq(x, y)
        if isinstance(x, Bytes) and isinstance(y, Bytes):
            return eqB(x, y)
        if isinstance(x, BArr) and isinstance(y, BArr):
            return eqB(x.b, y.b)
        if isinstance(x, Pt) and isinstance(y, Pt):
            # representation equality of coordinates: at least implies equality
            if x == y and x.single_atom() is None and x.d:
                return pred("rawEqP", x, y)
            return eqP(x, y) if x != y else True
        if isinstance(x, StructV) and isinstance(y, StructV):
            return b_and(*[self.equal(st, a, b) for a, b in zip(x.f, y.f)])
        if isinstance(x, CArr) and isinstance(y, CArr):
            return b_and(*[self.equal(st, a, b) for a, b in zip(x.e, y.e)])
        if isinstance(x, ErrV) and isinstance(y, ErrV):
            return pred("errEq", repr(x.info), repr(y.info))
        if isinstance(x, IfaceV) and isinstance(y, IfaceV):
            return x.t == y.t and self.equal(st, x.v, y.v)
        if isinstance(x, (IfaceV, ErrV)) and isinstance(y, (IfaceV, ErrV)):
            return False
        raise Unsupported("== on %s,%s" % (type(x).__name__, type(y).__name__))

    # ------------------------------------------------------------ calls
    def call(self, fname, args, st):
        """[(state, value-or-Panic)]"""
        c = self.contracts.get(fname)
        if c is not None and c.usable(self, fname, st, args):
            try:
                r = c.apply(self, fname, st, args)
            except Unsupported:
                if fname == self.verifying:
                    raise
                r = None
            if r is not None:
                self.used[fname] = self.used.get(fname, 0) + 1
                return r
        if fname in self.prog.fns:
            if self.depth > self.MAXDEPTH:
                raise Unsupported("recursion too deep in " + fname)
            self.inlined.add(fname)
            return self.run_fn(fname, args, st)
        import externs
        h = externs.lookup(fname)
        if h is None:
            raise Unsupported("external function " + fname)
        self.externs_used.add(fname)
        r = h(self, st, args)
        if isinstance(r, list):
            return r
        return [(st, r)]

    def run_fn(self, fname, args, st):
        fn = self.prog.fns[fname]
        env = {}
        params = fn["params"] or []
        for p, a in zip(params, args):
            env[p["n"]] = a
        if fn["fv"]:
            for p, a in zip(fn["fv"], args[len(params):]):
                env[p["n"]] = a
        if fn.get("recover"):
            raise Unsupported("recover in " + fname)
        self.depth += 1
        sv = self.curfn, self.line
        self.curfn = fname
        try:
            outs, _ = self.run(fname, [Path(st, env, 0, 0, None, {})])
        finally:
            self.depth -= 1
            self.curfn, self.line = sv
        return outs

    def key(self, cfg, p):
        k = []
        for h in cfg.nest[p.blk]:
            if h == p.blk:
                break
            k.append(cfg.rpo[h])
            k.append(p.iters.get(h, 0))
        if p.blk in cfg.loops:
            k.append(cfg.rpo[p.blk])
            k.append(p.iters.get(p.blk, 0))
            k.append(cfg.rpo[p.blk])
        else:
            k.append(cfg.rpo[p.blk])
        return tuple(k)

    def run(self, fname, paths, region=None):
        """execute paths until they leave.  region=(header, blocks): stop at the back edge to
        header or when leaving blocks; such paths are returned separately."""
        fn = self.prog.fns[fname]
        cfg = self.prog.cfg(fname)
        outs, stops = [], []
        heap, cnt = [], itertools.count()
        waiting = {}

        def push(p):
            k = self.key(cfg, p)
            if k in waiting:
                waiting[k].append(p)
            else:
                waiting[k] = [p]
                heapq.heappush(heap, (k, next(cnt)))

        for p in paths:
            push(p)
        total = 0
        while heap:
            k, _ = heapq.heappop(heap)
            group = waiting.pop(k)
            group = self.merge_group(group)
            if len(group) + len(waiting) + len(outs) > self.MAXPATHS:
                raise Unsupported("too many paths in " + fname)
            for p in group:
                nxt = self.block(fname, fn, cfg, p, outs)
                for q in nxt:
                    if region is not None:
                        if q.blk == region[0] or q.blk not in region[1]:
                            stops.append(q)
                            continue
                    push(q)
        return outs, stops

    def merge_group(self, group):
        out = []
        if not self.merging:
            return list(group)
        for p in group:
            for i, q in enumerate(out):
                m = self.try_merge(q, p)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(p)
        return out

    def try_merge(self, a, b):
        if a.prev != b.prev and self.has_phi(a):
            # phis must be resolved per predecessor: resolve now
            pass
        s, t = a.st, b.st
        if s.choices != t.choices or s.rands != t.rands or s.tails != t.tails:
            return None
        if s.events != t.events or a.iters != b.iters:
            return None
        n = 0
        while n < len(s.pc) and n < len(t.pc) and s.pc[n] is t.pc[n]:
            n += 1
        c1, c2 = b_and(*s.pc[n:]), b_and(*t.pc[n:])
        if isinstance(c1, bool) or isinstance(c2, bool):
            return None
        try:
            ea, eb = self.phi_env(a), self.phi_env(b)
            env = {}
            for k in ea:
                if k in eb:
                    env[k] = self.mval(c1, ea[k], eb[k])
            st = s.copy()
            for r in t.mem:
                if r not in st.mem:
                    st.mem[r] = t.mem[r]
                    st.owner[r] = t.owner.get(r)
                elif st.mem[r] is not t.mem[r]:
                    st.mem[r] = self.mval(c1, st.mem[r], t.mem[r])
        except Unsupported:
            return None
        st.pc = s.pc[:n]
        d = b_or(c1, c2)
        if d is not True:
            st.pc = st.pc + (d,)
        q = Path(st, env, a.blk, a.idx, a.prev, dict(a.iters), dict(a.snap))
        # phis are already resolved
        q.idx = self.nphi(a)
        return q

    def cur(self, p):
        return self.prog.fns[self.curfn]["blocks"][p.blk]["ins"]

    def has_phi(self, p):
        i = self.cur(p)
        return bool(i) and i[0]["op"] == "phi"

    def nphi(self, p):
        n = 0
        for i in self.cur(p):
            if i["op"] != "phi":
                break
            n += 1
        return n

    def phi_env(self, p):
        if p.idx > 0:
            return p.env
        ins = self.cur(p)
        if not ins or ins[0]["op"] != "phi":
            return p.env
        env = dict(p.env)
        preds = self.prog.fns[self.curfn]["blocks"][p.blk]["preds"]
        e = preds.index(p.prev)
        new = {}
        for i in ins:
            if i["op"] != "phi":
                break
            new[i["n"]] = self.val(p, i["edges"][e])
        env.update(new)
        return env

    def mval(self, c, a, b):
        if a is b:
            return a
        if type(a) is type(b) and not isinstance(a, SArr) and a == b:
            return a
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV([self.mval(c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, CArr) and isinstance(b, CArr) and len(a.e) == len(b.e):
            return CArr([self.mval(c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.v) == len(b.v):
            return TupleV([self.mval(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, BArr) and isinstance(b, BArr) and a.b.len == b.b.len:
            return BArr(ite(c, a.b, b.b))
        if isinstance(a, (Sc, Sb, Pt)) and type(a) is type(b):
            return ite(c, a, b)
        if isinstance(a, (bool, Atom)) and isinstance(b, (bool, Atom)):
            return ite(c, a, b)
        if isinstance(a, Int) and isinstance(b, Int):
            r = ite(c, a, b)
            if self.merge_ints or not any(x.head == "iteI" for m in r.d for x, e in m):
                return r
        raise Unsupported("merge")

    # ------------------------------------------------------------ blocks
    def block(self, fname, fn, cfg, p, outs):
        """run the block of p; returns the successor paths"""
        res = []
        work = [p]
        ins = fn["blocks"][p.blk]["ins"]
        while work:
            p = work.pop()
            if p.idx == 0:
                p.env = self.phi_env(p) if (ins and ins[0]["op"] == "phi") else p.env
                p.idx = self.nphi(p)
                if p.blk in cfg.loops:
                    if self.symbolic:
                        p.snap = dict(p.snap)
                        p.snap[p.blk] = (p.st.copy(), dict(p.env), dict(p.iters))
            n = len(ins)
            while p.idx < n:
                i = ins[p.idx]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step budget exhausted")
                if "line" in i:
                    self.line = i["line"]
                op = i["op"]
                if op == "jump":
                    self.go(cfg, p, fn["blocks"][p.blk]["succs"][0], res)
                    break
                if op == "if":
                    c = self.val(p, i["x"])
                    su = fn["blocks"][p.blk]["succs"]
                    d = self.decide(p.st, c)
                    if d is not None:
                        if self.symbolic and isinstance(c, Atom) and p.iters.get(p.blk, 0) in (0, 6) and p.blk in cfg.loops and self.closed_form(fname, fn, cfg, p, su, res, outs):
                            break
                        self.go(cfg, p, su[0] if d else su[1], res)
                        break
                    if self.symbolic and self.abstract_loop(fname, fn, cfg, p, su, res, outs):
                        break
                    q = p.fork(p.st.assume(c))
                    self.go(cfg, q, su[0], res)
                    p.st = p.st.assume(b_not(c))
                    self.go(cfg, p, su[1], res)
                    break
                if op == "return":
                    vs = [self.val(p, x) for x in i["res"]]
                    outs.append((p.st, vs[0] if len(vs) == 1 else TupleV(vs)))
                    break
                if op == "panic":
                    outs.append((p.st, Panic("explicit panic", self.line, fname)))
                    break
                r = self.instr(p, i)
                p.idx += 1
                if r is None:
                    continue
                # forking instruction: list of (state, value)
                first = True
                items = []
                for st, v in r:
                    if isinstance(v, Panic):
                        v.line, v.fn = v.line or self.line, v.fn or fname
                        outs.append((st, v))
                        continue
                    items.append((st, v))
                if not items:
                    break
                if len(items) == 1:
                    p.st = items[0][0]
                    if "n" in i:
                        p.env[i["n"]] = items[0][1]
                    continue
                for st, v in items:
                    q = p.fork(st)
                    if "n" in i:
                        q.env[i["n"]] = v
                    work.append(q)
                break
        return res

    def closed_form(self, fname, fn, cfg, p, su, res, outs):
        """a loop over a symbolic range whose header happens to be decided every time"""
        import summarise
        r, o = [], []
        try:
            if not self.abstract_loop(fname, fn, cfg, p, su, r, o):
                return False
        except summarise.Reject:
            return False
        res.extend(r)
        outs.extend(o)
        return True

    def abstract_loop(self, fname, fn, cfg, p, su, res, outs):
        """hook: undecided branch in symbolic mode.  True when the loop was summarised."""
        hs = cfg.nest[p.blk]
        for h in reversed(hs):
            body = cfg.loops[h]
            exits = [s for s in su if s not in body]
            if not exits:
                continue
            hterm = fn["blocks"][h]["ins"][-1]
            hex_ = hterm["op"] == "if" and any(s not in body for s in fn["blocks"][h]["succs"])
            if p.blk != h and hex_:
                continue
            if h not in p.snap or (self.depth, fname, h) in self.nosum:
                continue
            import summarise
            summarise.summarise(self, fname, fn, cfg, h, p, res, outs)
            return True
        return False

    def go(self, cfg, p, succ, res):
        src = p.blk
        # iteration bookkeeping
        if succ in cfg.loops:
            if src in cfg.loops[succ]:
                k = p.iters.get(succ, 0) + 1
                p.iters[succ] = k
                self.loops_unrolled.add((self.curfn, succ))
                if k > self.MAXIT:
                    raise Unsupported("loop bound exceeded")
            else:
                p.iters[succ] = 0
        for h in list(p.iters):
            if succ not in cfg.loops[h]:
                del p.iters[h]
        p.prev, p.blk, p.idx = src, succ, 0
        res.append(p)

    # ------------------------------------------------------------ instructions
    def instr(self, p, i):
        """None when done in place (value stored in env), else [(state, value)]"""
        op = i["op"]
        st = p.st
        m = getattr(self, "op_" + op, None)
        if m is None:
            raise Unsupported("instruction " + op)
        r = m(p, st, i)
        if isinstance(r, list):
            return r
        if isinstance(r, Panic):
            return [(st, r)]
        if isinstance(r, tuple) and r and r[0] == "fork":
            _, c, a, b = r
            return [(st.assume(c), a), (st.assume(b_not(c)), b)]
        if "n" in i:
            p.env[i["n"]] = r
        return None

    def op_alloc(self, p, st, i):
        et = self.prog.types[i["t"]]["e"]
        return PtrV(self.alloc(st, i.get("c") or "new", self.prog.zero(et)))

    def op_store(self, p, st, i):
        a = self.val(p, i["addr"])
        if a is NIL:
            return Panic("nil dereference")
        self.write(st, a, self.val(p, i["val"]))
        return None

    def op_unop(self, p, st, i):
        x = self.val(p, i["x"])
        o = i["o"]
        if o == "*":
            if x is NIL:
                return Panic("nil dereference")
            if isinstance(x, PtrV) and isinstance(x.root, str) and x.root.startswith("global:") and x.root not in st.mem:
                self.init_global(st, x.root)
            return self.read(st, x)
        if o == "!":
            return b_not(x)
        if o == "-" and isinstance(x, Int):
            return self.wrap(st, -x, i["t"])
        if o == "^" and isinstance(x, Int) and x.is_const():
            return self.wrap(st, Int.const(~x.cval()), i["t"])
        raise Unsupported("unop " + o)

    def init_global(self, st, root):
        import externs
        v = externs.global_value(self, st, root[len("global:"):])
        st.mem[root] = v
        st.owner[root] = "global"

    def op_binop(self, p, st, i):
        return self.binop(st, i["o"], self.val(p, i["x"]), self.val(p, i["y"]), i["t"], i["xt"], i.get("line"))

    def op_fieldaddr(self, p, st, i):
        x = self.val(p, i["x"])
        if x is NIL:
            return Panic("nil dereference")
        return PtrV(x.root, x.path + (("f", i["f"]),))

    def op_field(self, p, st, i):
        return self.val(p, i["x"]).f[i["f"]]

    def bounds(self, st, idx, n, v):
        ok = b_and(le(0, idx), lt(idx, n))
        d = self.decide(st, ok)
        if d is True:
            return v
        if d is False:
            return Panic("index out of range")
        return ("fork", ok, v, Panic("index out of range"))

    def op_indexaddr(self, p, st, i):
        x = self.val(p, i["x"])
        k = self.val(p, i["i"])
        if x is NIL:
            return Panic("nil dereference")
        if isinstance(x, SliceV):
            if x.root is None:
                return Panic("index out of range")
            return self.bounds(st, k, x.len, PtrV(x.root, x.path + (("i", x.off + k),)))
        # pointer to array
        n = self.arr_len(self.read(st, x))
        return self.bounds(st, k, n, PtrV(x.root, x.path + (("i", k),)))

    def op_index(self, p, st, i):
        x = self.val(p, i["x"])
        k = self.val(p, i["i"])
        if isinstance(x, Bytes):
            return self.bounds(st, k, x.len, self.byte_at(st, x, k))
        n = self.arr_len(x)
        b = self.bounds(st, k, n, None)
        if isinstance(b, Panic):
            return b
        v = self.arr_get(st, x, k)
        return v if b is None else ("fork", b[1], v, b[3])

    def op_slice(self, p, st, i):
        x = self.val(p, i["x"])
        lo = self.val(p, i["lo"]) if i.get("lo") else Int.const(0)
        if isinstance(x, Bytes):
            hi = self.val(p, i["hi"]) if i.get("hi") else x.len
            ok = b_and(le(0, lo), le(lo, hi), le(hi, x.len))
            d = self.decide(st, ok)
            if d is False:
                return Panic("slice bounds out of range")
            v = slice_bytes(x, lo, hi, lambda c: self.decide(st, c))
            return v if d else ("fork", ok, v, Panic("slice bounds out of range"))
        if x is NIL:
            return Panic("nil dereference")
        if isinstance(x, PtrV):
            n = self.arr_len(self.read(st, x))
            base = SliceV(x.root, x.path, 0, n, n)
        else:
            base = x
        hi = self.val(p, i["hi"]) if i.get("hi") else base.len
        mx = self.val(p, i["max"]) if i.get("max") else None
        lim = base.cap
        conds = [le(0, lo), le(lo, hi)]
        if lim is None:
            # capacity unknown: only up to the length is certain
            lim = base.len
        conds.append(le(hi, mx if mx is not None else lim))
        if mx is not None:
            conds.append(le(mx, lim))
        ok = b_and(*conds)
        d = self.decide(st, ok)
        if mx is not None:
            cap = mx - lo
        else:
            cap = None if base.cap is None else base.cap - lo
        if base.root is None:
            v = base if (lo == 0 and hi == 0) else None
            if v is None:
                return Panic("slice bounds out of range")
            return v
        v = SliceV(base.root, base.path, base.off + lo, hi - lo, cap)
        if d is True:
            return v
        if d is False:
            return Panic("slice bounds out of range")
        return ("fork", ok, v, Panic("slice bounds out of range"))

    def op_makeslice(self, p, st, i):
        n = self.val(p, i["len"])
        c = self.val(p, i["cap"])
        et = self.prog.under(i["t"])["e"]
        st.events = st.events + (("make", n, self.curfn, self.line),) if not n.is_const() else st.events
        bad = b_not(b_and(le(0, n), le(n, c)))
        d = self.decide(st, bad)
        if d is True:
            return Panic("makeslice: len out of range")
        if self.prog.is_byte(et):
            if c.is_const():
                b = Bytes.lit(b"\0" * c.cval())
            else:
                b = Bytes((atom("bsym", "zeros", c),))
            v = SliceV(self.alloc(st, "make", BArr(b)), (), 0, n, c)
        else:
            z = self.prog.zero(et)
            if c.is_const() and n.is_const():
                if c.cval() > 200000:
                    raise Unsupported("huge allocation")
                v = SliceV(self.alloc(st, "make", CArr([z] * c.cval())), (), 0, n, c)
            else:
                v = SliceV(self.alloc(st, "make", SArr(c, lambda k, z=z: z)), (), 0, n, c)
        if d is None:
            return ("fork", bad, Panic("makeslice: len out of range"), v)
        return v

    def op_makemap(self, p, st, i):
        vt = self.prog.under(i["t"])["e"]
        return PtrV(self.alloc(st, "map", MapV((), self.prog.zero(vt))))

    def op_mapupdate(self, p, st, i):
        m = self.val(p, i["x"])
        if m is NIL:
            return Panic("assignment to nil map")
        c = self.read(st, m)
        self.write(st, m, MapV(((self.val(p, i["key"]), self.val(p, i["val"])),) + c.ents, c.default))
        return None

    def op_lookup(self, p, st, i):
        m = self.val(p, i["x"])
        k = self.val(p, i["i"])
        if isinstance(m, Bytes):
            return self.byte_at(st, m, k)
        if m is NIL:
            z = self.prog.zero(self.prog.under(i["xt"])["e"])
            return TupleV([z, False]) if i["commaok"] else z
        c = self.read(st, m)
        if not isinstance(c, MapV):
            h = getattr(c, "lookup", None)
            if h is None:
                raise Unsupported("map lookup")
            return h(self, st, k, i["commaok"])
        out = []
        cur = st
        for ent in c.ents:
            if ent[0] == "fam":
                # entries of iterations 0..n-1; all hold the same value
                _, n, E = ent
                v = E(Int.of(atom("nat", "entry")))[1]
                if E(Int.const(0))[1] != v or not isinstance(v, (bool, Int, NIL.__class__)):
                    raise Unsupported("map of values that differ")
                e = b_not(forall_(n, lambda j: b_not(self.equal(cur, E(j)[0], k))))
            else:
                key, v = ent
                e = self.equal(cur, key, k)
            d = self.decide(cur, e)
            if d is True:
                out.append((cur, TupleV([v, True]) if i["commaok"] else v))
                cur = None
                break
            if d is None:
                out.append((cur.assume(e), TupleV([v, True]) if i["commaok"] else v))
                cur = cur.assume(b_not(e))
        if cur is not None:
            out.append((cur, TupleV([c.default, False]) if i["commaok"] else c.default))
        return out

    def op_extract(self, p, st, i):
        return self.val(p, i["x"]).v[i["i"]]

    def op_makeiface(self, p, st, i):
        return IfaceV(i["xt"], self.val(p, i["x"]))

    def op_changeiface(self, p, st, i):
        return self.val(p, i["x"])

    op_changetype = op_changeiface

    def op_slice2arrptr(self, p, st, i):
        x = self.val(p, i["x"])
        n = self.prog.under(self.prog.types[i["t"]]["e"])["n"]
        if x.off == 0 and x.len == n and self.arr_len(self.sl_content(st, x)) == n:
            return PtrV(x.root, x.path)
        raise Unsupported("slice to array pointer")

    def op_typeassert(self, p, st, i):
        x = self.val(p, i["x"])
        at = i["at"]
        k = self.prog.under(at)["k"]
        if isinstance(x, IfaceV) and k != "iface" and isinstance(x.t, int):
            same = self.prog.types[x.t]["str"] == self.prog.types[at]["str"]
            if i["commaok"]:
                return TupleV([x.v if same else self.prog.zero(at), same])
            return x.v if same else Panic("type assertion failed")
        if x is NIL:
            if i["commaok"]:
                return TupleV([self.prog.zero(at), False])
            return Panic("type assertion on nil")
        raise Unsupported("type assertion")

    def op_closure(self, p, st, i):
        return FuncV(i["fn"]["n"], tuple(self.val(p, b) for b in i["bind"]))

    def op_convert(self, p, st, i):
        x = self.val(p, i["x"])
        t = i["t"]
        u = self.prog.under(t)
        if isinstance(x, Int) and u["k"] == "basic" and u["name"] in INTBITS:
            return self.wrap(st, x, t)
        if isinstance(x, Bytes) and u["k"] == "slice":          # string -> []byte
            return SliceV(self.alloc(st, "str", BArr(x)), (), 0, x.len, x.len)
        if isinstance(x, SliceV) and u["k"] == "basic":         # []byte -> string
            return self.sl_bytes(st, x)
        if isinstance(x, OpaqueV):
            return OpaqueV("convert")
        raise Unsupported("convert %s to %s" % (type(x).__name__, u.get("name", u["k"])))

    def op_rundefers(self, p, st, i):
        return None

    def op_phi(self, p, st, i):
        raise Unsupported("phi out of place")

    def op_call(self, p, st, i):
        args = [self.val(p, a) for a in i["args"]]
        if "invoke" in i:
            return self.invoke(p, st, i, args)
        f = i["fn"]
        if f["k"] == "b":
            return self.builtin(p, st, f["n"], args, i)
        fv = self.val(p, f)
        if fv is NIL:
            return Panic("call of nil function")
        if not isinstance(fv, FuncV):
            raise Unsupported("dynamic call")
        args = args + list(fv.bind)
        return self.call(fv.name, args, st)

    def invoke(self, p, st, i, args):
        x = self.val(p, i["recv"])
        if x is NIL:
            return Panic("nil interface")
        m = i["invoke"]
        if isinstance(x, IfaceV) and isinstance(x.t, int):
            f = self.prog.mset.get((x.t, m))
            if f is not None and f in self.prog.fns:
                return self.call(f, [x.v] + args, st)
            import externs
            name = externs.method_name(self.prog, x.t, m)
            return self.call(name, [x.v] + args, st)
        import externs
        return externs.invoke(self, st, x, m, args)

    # ------------------------------------------------------------ builtins
    def builtin(self, p, st, n, args, i):
        if n == "len":
            x = args[0]
            if isinstance(x, SliceV):
                return x.len
            if isinstance(x, Bytes):
                return x.len
            if x is NIL:
                return Int.const(0)
            if isinstance(x, PtrV):
                c = self.read(st, x)
                if isinstance(c, MapV):
                    n, keys = Int.const(0), []
                    if any(e[0] == "fam" for e in c.ents if isinstance(e[0], str)):
                        return Int.of(atom("nat", "maplen", newroot("ml")))
                    for k, _ in reversed(c.ents):
                        new = b_not(b_or(*[self.equal(st, k, q) for q in keys]))
                        keys.append(k)
                        n = n + (1 if new is True else 0 if new is False else Int.of(atom("iteI", new, Int.const(1), Int.const(0))))
                    return n
                return self.arr_len(c)
            return self.arr_len(x)
        if n == "cap":
            x = args[0]
            if x.cap is None:
                return Int.of(atom("nat", "cap", str(x.root), rng=(x.len, None)))
            return x.cap
        if n == "append":
            return self.append(st, args[0], args[1], self.prog.under(i["t"])["e"])
        if n == "copy":
            return self.copy(st, args[0], args[1])
        if n == "ssa:wrapnilchk":
            if args[0] is NIL:
                return Panic("nil receiver")
            return args[0]
        if n in ("print", "println"):
            return TupleV([])
        if n in ("min", "max") and all(isinstance(a, Int) for a in args):
            r = args[0]
            for a in args[1:]:
                c = le(r, a) if n == "min" else le(a, r)
                r = ite(c, r, a) if isinstance(c, bool) else Int.of(atom("iteI", c, r, a))
            return r
        raise Unsupported("builtin " + n)

    def append(self, st, s, x, et, forced=False):
        if s is NIL:
            s = NILSLICE
        if isinstance(x, Bytes):         # append([]byte, string...)
            x = SliceV(self.alloc(st, "str", BArr(x)), (), 0, x.len, x.len)
        if x is NIL or x.root is None or x.len == 0:
            return s
        isb = self.prog.is_byte(et)
        # would Go write in place?
        inplace = False
        if s.root is not None:
            need = s.len + x.len
            if s.cap is not None:
                inplace = self.decide(st, le(need, s.cap))
            else:
                inplace = None
        if inplace is True:
            c = self.sl_content(st, s)
            room = self.decide(st, le(s.off + need, self.arr_len(c)))
            if room is True:
                self.store_range(st, s, s.len, x, isb)
                return SliceV(s.root, s.path, s.off, need, s.cap)
        if inplace is not False and s.root is not None and not forced:
            # elements of the array beyond the end of s: an append in place overwrites them
            c = self.sl_content(st, s)
            L, end = self.arr_len(c), s.off + s.len
            d = self.decide(st, le(L, end))
            if d is None or d is False:
                fits = le(s.off + need, L)
                f = self.decide(st, fits)
                if d is False and f is True and inplace is None and s.cap is None:
                    self.store_range(st, s, s.len, x, isb)
                    return SliceV(s.root, s.path, s.off, need, s.cap)
                out = []
                if d is None:
                    for s2, t in self.branch(st, le(L, end)):
                        r = self.append(s2, s, x, et)
                        out.extend(r if isinstance(r, list) else [(s2, r)])
                    return out
                if f is None:
                    for s2, t in self.branch(st, fits):
                        r = self.append(s2, s, x, et)
                        out.extend(r if isinstance(r, list) else [(s2, r)])
                    return out
                s2 = st.copy()
                if s.cap is not None:
                    s2.pc = s2.pc + (le(need, s.cap),)
                self.store_over(s2, s, x, isb)
                out.append((s2, SliceV(s.root, s.path, s.off, need, s.cap)))
                if inplace is not True:
                    s3 = st.copy()
                    if s.cap is not None:
                        s3.pc = s3.pc + (b_not(le(need, s.cap)),)
                    out.append((s3, self.append(s3, s, x, et, True)))
                return out
        if inplace is not False and s.root is not None and not forced:
            if st.owner.get(s.root) in ("caller", "global"):
                st.events = st.events + (("clobber", s.root, self.curfn, self.line),)
            tk = (s.root, s.path, s.off + s.len)
            if tk in st.tails:
                raise Unsupported("two appends to the same slice may share memory")
            st.tails = dict(st.tails)
            st.tails[tk] = True
        if isb:
            b = self.sl_bytes(st, s) + self.sl_bytes(st, x)
            return SliceV(self.alloc(st, "append", BArr(b)), (), 0, b.len, None)
        if s.len.is_const() and s.off.is_const() and x.len.is_const() and x.off.is_const():
            xs = self.sl_elems(st, x)
            if self.naming:
                xs = [self.named(v) for v in xs]
            e = self.sl_elems(st, s) + xs
            return SliceV(self.alloc(st, "append", CArr(e)), (), 0, len(e), None)
        import summarise
        return summarise.append_sym(self, st, s, x)

    def store_over(self, st, s, x, isb):
        """in-place append that overwrites what lies beyond the end of s and reaches past the known array"""
        ptr = PtrV(s.root, s.path)
        c = self.read(st, ptr)
        end = s.off + s.len
        if isb:
            self.write(st, ptr, BArr(slice_bytes(c.b, 0, end, lambda q: self.decide(st, q)) + self.sl_bytes(st, x)))
        elif isinstance(c, CArr) and end.is_const() and x.len.is_const():
            self.write(st, ptr, CArr(list(c.e)[:end.cval()] + self.sl_elems(st, x)))
        else:
            raise Unsupported("append into the middle of an array")

    def store_range(self, st, s, at, x, isb):
        """s[at : at+len(x)] = x  (x read before the write)"""
        ptr = PtrV(s.root, s.path)
        c = self.read(st, ptr)
        if isb:
            xb = self.sl_bytes(st, x)
            dec = lambda q: self.decide(st, q)
            o = s.off + at
            nb = slice_bytes(c.b, 0, o, dec) + xb + slice_bytes(c.b, o + x.len, c.b.len, dec)
            self.write(st, ptr, BArr(nb))
            return
        o = s.off + at
        if isinstance(c, CArr) and o.is_const() and x.len.is_const():
            e = list(c.e)
            xs = self.sl_elems(st, x)
            e[o.cval():o.cval() + len(xs)] = xs
            self.write(st, ptr, CArr(e))
            return
        if x.len.is_const():
            for k, v in enumerate(self.sl_elems(st, x)):
                c = self.arr_set(st, c, o + k, v)
            self.write(st, ptr, c)
            return
        import summarise
        summarise.store_range_sym(self, st, s, at, x)

    def copy(self, st, d, x):
        if isinstance(x, Bytes):
            x = SliceV(self.alloc(st, "str", BArr(x)), (), 0, x.len, x.len)
        if d is NIL or x is NIL or d.root is None or x.root is None:
            return Int.const(0)
        c = le(d.len, x.len)
        dd = self.decide(st, c)
        if dd is None:
            out = []
            for s2, t in self.branch(st, c):
                s2 = s2 if s2 is not st else st
                s2 = s2.copy()
                out.append((s2, self.copy(s2, d, x)))
            return out
        n = d.len if dd else x.len
        if n == 0:
            return n
        src = SliceV(x.root, x.path, x.off, n, n)
        content = self.sl_content(st, d)
        self.store_range(st, SliceV(d.root, d.path, d.off, n, n), Int.const(0), src, isinstance(content, BArr))
        return n
