"""Loop rule for loops whose number of iterations is symbolic.

For the loop at hand a closed form H(k) of the state at the loop header after k iterations is
guessed from the effect of one iteration on an arbitrary state, and then *checked* by induction:

  base   H(0) is the state in which the loop is entered,
  step   running the body of the loop (the SSA of the real code) from H(k), k < K, either leaves
         the loop (those paths are kept, with k arbitrary) or reaches the header in H(k+1);
         memory not described by the closed form is unchanged,
  bound  from H(K) no path goes round again.

Nothing of the guess is trusted: a guess that does not pass is rejected (Unsupported)."""
import itertools
import solver
from terms import *
from terms import _sub
from values import *
from execu import Panic, Path, Empty

_id = itertools.count(1)


class Reject(Unsupported):
    pass


# ------------------------------------------------------------------ shapes of changing state
class Node:
    pass


class NSame(Node):
    def __init__(self, v):
        self.v = v

    def build(self, S, k, st):
        return self.v


class NLeaf(Node):
    """a value that changes: x0 on entry, form(k) after k iterations"""
    def __init__(self, x0, wrap=lambda x: x, unwrap=lambda v: v, name=""):
        self.x0, self.wrap, self.unwrap = x0, wrap, unwrap
        self.form = None
        self.tag = "hv%d" % next(_id)
        self.name = name
        if isinstance(x0, Bytes):
            self.hv = Bytes((atom("bsym", self.tag, Int.of(atom("nat", "len " + self.tag))),))
        elif isinstance(x0, Pt):
            self.hv = Pt.of(atom("pv", self.tag), x0.g)
        elif isinstance(x0, Int):
            # a guess only: the closed form is checked afterwards
            self.hv = Int.of(atom("nat" if solver.decide((), le(0, x0)) is True else "anyint", self.tag))
        elif isinstance(x0, Poly):
            self.hv = type(x0).of(atom("sv", self.tag))
        elif isinstance(x0, (bool, Atom)):
            self.hv = pred("hv", self.tag)
        else:
            raise Reject("loop changes a %s" % type(x0).__name__)

    @property
    def hatom(self):
        if isinstance(self.hv, Atom):
            return self.hv
        if isinstance(self.hv, Bytes):
            return self.hv.segs[0]
        if isinstance(self.hv, Pt):
            return next(iter(self.hv.d))
        return self.hv.single_atom()

    def build(self, S, k, st):
        v = self.form(k) if self.form is not None else self.hv
        if isinstance(v, Int) and st is not None and S.ex.ites(v):
            v = S.ex.settle(st, v)
        return self.wrap(v)


class NLen(Node):
    """the length of a byte string that changes"""
    def __init__(self, of):
        self.of = of

    def build(self, S, k, st):
        return (self.of.form(k) if self.of.form is not None else self.of.hv).len


class NStruct(Node):
    def __init__(self, mk, kids):
        self.mk, self.kids = mk, kids

    def build(self, S, k, st):
        return self.mk([c.build(S, k, st) for c in self.kids])


class NPtr(Node):
    """pointer that is set to a new object in every iteration"""
    def __init__(self, v0, content):
        self.v0, self.content = v0, content
        self.root = None

    def build(self, S, k, st):
        self.root = newroot("it")
        st.mem[self.root] = self.content.build(S, k, st)
        st.owner[self.root] = "local"
        return PtrV(self.root)


class NSlice(Node):
    """slice whose window moves; fresh: its memory is a new array in every iteration (append)"""
    def __init__(self, v0, off, ln, content=None):
        self.v0, self.off, self.len, self.content = v0, off, ln, content
        self.root = None

    def build(self, S, k, st):
        off, ln = self.off.build(S, k, st), self.len.build(S, k, st)
        if self.content is None:
            return SliceV(self.v0.root, self.v0.path, off, ln, self.v0.cap)
        self.root = newroot("it")
        st.mem[self.root] = self.content.build(S, k, st)
        st.owner[self.root] = "local"
        return SliceV(self.root, (), off, ln, None)


class NArr(Node):
    """array written at one moving index: entries [lo, lo+d*k) hold W"""
    def __init__(self, base, n0):
        self.base = base              # content on entry (SArr)
        self.n = n0                   # length node (None: constant)
        self.e0 = None                # first index written
        self.d = 1
        self.m = None                 # modulus, where the index wraps around
        self.look = False
        self.W = None                 # form: j -> value written in iteration j
        self.wl = None                # NLeaf for the recurrence (look-back)
        self.tag = "ha%d" % next(_id)

    def build(self, S, k, st):
        n = self.base.n if self.n is None else self.n.build(S, k, st)
        if self.e0 is None:
            return SArr(n, self.base.fn, self.base.upd)
        e0, d, tag, base, ex = self.e0, self.d, self.tag, self.base, S.ex
        k = I(k)
        if self.look:
            l0 = e0 - d
            f = self.wl.form
            if f is not None:
                w = lambda j: f(j)
            else:
                w = lambda j: havoc_like(self.wl.x0, tag, j)
            if d == 1:
                rng, fn = (l0, e0 + k), (lambda i: w(I(i) - l0))
            else:
                rng, fn = (e0 - k + 1, l0 + 1), (lambda i: w(l0 - I(i)))
        else:
            if self.W is not None:
                w = self.W
            else:
                smp = self.sample
                w = lambda j: havoc_like(smp, tag, j)
            if self.m is not None:
                m = self.m
                return SArr(n, base.fn, (((Int.const(0), e0 + k - m), lambda i: w(I(i) + m - e0)), ((e0, e0 + k), lambda i: w(I(i) - e0)))
                            + tuple(base.upd))
            if d == 1:
                rng, fn = (e0, e0 + k), (lambda i: w(I(i) - e0))
            else:
                rng, fn = (e0 - k + 1, e0 + 1), (lambda i: w(e0 - I(i)))
        return SArr(n, base.fn, ((rng, fn),) + tuple(base.upd))


class NMap(Node):
    """map that gets one entry per iteration"""
    def __init__(self, v0):
        self.v0 = v0
        self.E = None
        self.tag = "hm%d" % next(_id)

    def build(self, S, k, st):
        if self.E is None:
            return self.v0
        return MapV((("fam", I(k), self.E),) + self.v0.ents, self.v0.default)


def havoc_like(v, tag, j):
    if isinstance(v, StructV):
        return StructV([havoc_like(x, tag + "." + str(n), j) for n, x in enumerate(v.f)])
    if isinstance(v, CArr):
        return CArr([havoc_like(x, tag + "." + str(n), j) for n, x in enumerate(v.e)])
    if isinstance(v, Pt):
        return Pt.of(atom("pv", tag, I(j)), v.g)
    if isinstance(v, Int):
        return Int.of(atom("anyint", tag, I(j)))
    if isinstance(v, Poly):
        return type(v).of(atom("sv", tag, I(j)))
    if isinstance(v, (bool, Atom)):
        return pred("hv", tag, I(j))
    if isinstance(v, BArr):
        return BArr(Bytes((atom("bsym", tag, v.b.len, I(j)),)))
    return OpaqueV("written by the loop")


# ------------------------------------------------------------------ term helpers
def mentions(t, a):
    if isinstance(t, (Atom, Poly, Pt, Bytes)):
        return occurs(a, t)
    return False


def vsubst(v, mp):
    """substitute inside a runtime value"""
    if isinstance(v, (Poly, Pt, Bytes, Atom)):
        return subst(v, mp)
    if isinstance(v, bool) or v is NIL or isinstance(v, (OpaqueV, ErrV, FuncV)):
        return v
    if isinstance(v, StructV):
        return StructV([vsubst(x, mp) for x in v.f])
    if isinstance(v, CArr):
        return CArr([vsubst(x, mp) for x in v.e])
    if isinstance(v, TupleV):
        return TupleV([vsubst(x, mp) for x in v.v])
    if isinstance(v, BArr):
        return BArr(vsubst(v.b, mp))
    if isinstance(v, HashV):
        return HashV(v.alg, v.size, vsubst(v.b, mp))
    if isinstance(v, BufV):
        return BufV(vsubst(v.b, mp))
    if isinstance(v, IfaceV):
        return IfaceV(v.t, vsubst(v.v, mp))
    if isinstance(v, PtrV):
        return PtrV(v.root, tuple((s, subst(I(x), mp) if s == "i" else x) for s, x in v.path))
    if isinstance(v, SliceV):
        return SliceV(v.root, tuple((s, subst(I(x), mp) if s == "i" else x) for s, x in v.path),
                      subst(v.off, mp), subst(v.len, mp), None if v.cap is None else subst(v.cap, mp))
    raise Reject("value depends on the iteration: %s" % type(v).__name__)


def vatoms(v):
    """terms inside a runtime value"""
    if isinstance(v, (Poly, Pt, Bytes, Atom)):
        yield v
    elif isinstance(v, (StructV, CArr, TupleV)):
        for x in (v.f if isinstance(v, StructV) else v.e if isinstance(v, CArr) else v.v):
            yield from vatoms(x)
    elif isinstance(v, (BArr, HashV, BufV, StreamV)):
        yield v.b
    elif isinstance(v, IfaceV):
        yield from vatoms(v.v)
    elif isinstance(v, (PtrV, SliceV)):
        for s, x in v.path:
            if s == "i":
                yield I(x)
        if isinstance(v, SliceV):
            yield v.off
            yield v.len


def roots_of(v):
    if isinstance(v, (PtrV, SliceV)):
        if v.root is not None:
            yield v.root
    elif isinstance(v, (StructV, CArr, TupleV)):
        for x in (v.f if isinstance(v, StructV) else v.e if isinstance(v, CArr) else v.v):
            yield from roots_of(x)
    elif isinstance(v, IfaceV):
        yield from roots_of(v.v)
    elif isinstance(v, FuncV):
        for x in v.bind:
            yield from roots_of(x)




def newer(name, since):
    """was the symbol invented after the loop was entered? (the names are numbered in order)"""
    d = "".join(x for x in name[2:] if x.isdigit() or x == ".").split(".")[0]
    return not d or int(d) >= since


def perrun(c, but=(), since=0):
    """does the term contain symbols invented by a particular run of the body?"""
    for a in atoms_in(c):
        if a in but:
            continue
        if a.head == "nat" and a.args and isinstance(a.args[0], str) and (a.args[0].startswith("it#") and newer(a.args[0], since) or a.args[0] in ("maplen",)):
            return True
        if a.head == "p" and a.args[0] in ("wfail", "randfail", "rfail"):
            return True
        if a.head in ("sv", "pv", "anyint", "nat", "bsym", "p") and any(isinstance(x, str) and x.startswith(("hv", "ha")) and x[2:3].isdigit() and newer(x, since) for x in a.args):
            return True
    return False


def at(f, kat):
    """closed term in the iteration atom -> function of the index"""
    return lambda j: vsubst(f, {kat: I(j)})


# ------------------------------------------------------------------ solving recurrences
def solve(leaf, T, kat):
    """form(k) with form(0) = x0 and form(k+1) = T[hv := form(k)], or None"""
    x0, hv, ha = leaf.x0, leaf.hv, leaf.hatom
    if T == hv and type(T) is type(hv):
        return None
    k = Int.of(kat)
    if isinstance(x0, Int):
        d = T - hv
        if not mentions(d, ha):
            if not mentions(d, kat):
                return lambda j: x0 + d * I(j)
            return None
        if not mentions(T, ha):
            return last(x0, T, kat)
        return None
    if isinstance(x0, Poly):
        a, b = {}, {}
        for m, c in T.d.items():
            es = [e for y, e in m if y is ha]
            rest = tuple(z for z in m if z[0] is not ha)
            if es == [1]:
                a[rest] = c
            elif not es:
                b[m] = c
            else:
                return generic(x0, T, ha, kat)
        cls = type(x0)
        a, b = cls(a), cls(b)
        if mentions(a, ha) or mentions(b, ha):
            return generic(x0, T, ha, kat)
        if a.is_zero():
            return last(x0, T, kat)
        if a == 1:
            bf = at(b, kat)
            return lambda j: x0 + sum_(j, bf, cls)
        if b.is_zero() and not mentions(a, kat) and len(a.d) == 1:
            return lambda j: x0 * fpow(a, I(j))
        return generic(x0, T, ha, kat)
    if isinstance(x0, Pt):
        a = T.d.get(ha)
        rest = Pt(T.g, {y: c for y, c in T.d.items() if y is not ha})
        if mentions(rest, ha) or (a is not None and mentions(a, ha)):
            return generic(x0, T, ha, kat)
        if a is None:
            return last(x0, T, kat)
        if a == 1:
            bf = at(rest, kat)
            return lambda j: x0 + psum_(j, bf, T.g)
        return generic(x0, T, ha, kat)
    if isinstance(x0, Bytes):
        if T.segs and T.segs[0] is ha:
            rest = Bytes(T.segs[1:])
            if mentions(rest, ha):
                return None
            bf = at(rest, kat)
            return lambda j: x0 + cat_(j, bf)
        if not mentions(T, ha):
            return last(x0, T, kat)
        if len(T.segs) == 1 and T.segs[0].head == "bsub" and T.segs[0].args[0] is ha and T.segs[0].args[2] == hv.len:
            w = T.segs[0].args[1]
            if w.is_const() and w.cval() > 0 and x0.segs:
                # consumed from the front, within the first segment
                w, seg = w.cval(), x0.segs[0]
                n, rest = seglen(seg), Bytes(x0.segs[1:])

                def f(j):
                    j = I(j)
                    if j == 0:
                        return x0
                    return _sub(seg, j * w, n) + rest
                return f
        return None
    if isinstance(x0, (bool, Atom)):
        if isinstance(T, bool) or not mentions(T, ha):
            return last(x0, T, kat)
        cs = T.args if T.head == "and" else (T,)
        if ha in cs:
            rest = b_and(*[c for c in cs if c is not ha])
            if not mentions(rest, ha):
                bf = at(rest, kat)
                return lambda j: b_and(x0, forall_(j, bf))
        N = b_not(T)
        cs = N.args if isinstance(N, Atom) and N.head == "and" else (N,)
        if b_not(ha) in cs:
            rest = b_and(*[c for c in cs if c is not b_not(ha)])
            if not mentions(rest, ha):
                bf = at(rest, kat)
                return lambda j: b_not(b_and(b_not(x0), forall_(j, bf)))
    return None


def last(x0, T, kat):
    """the value of the previous iteration; only when that agrees with the value on entry"""
    if isinstance(T, bool):
        return (lambda j: T) if T == x0 else None
    f = at(T, kat)
    try:
        if f(Int.const(-1)) == x0:
            return lambda j: f(I(j) - 1)
    except Unsupported:
        pass
    return None


def generic(x0, T, ha, kat):
    return lambda n: iter_(n, x0, lambda j, c: subst(T, {kat: I(j), ha: c}))


# ------------------------------------------------------------------ the rule
class Loop:
    def __init__(self, ex, fname, fn, cfg, h):
        self.ex, self.fname, self.fn, self.cfg, self.h = ex, fname, fn, cfg, h
        self.body = cfg.loops[h]
        self.since = next(_id)
        self.phis = [i["n"] for i in fn["blocks"][h]["ins"] if i["op"] == "phi"]
        self.nphi = len(self.phis)

    def draws_at(self, st0):
        """how the random values drawn in an iteration are named"""
        ctx = getattr(self.ex, "draws", None)
        if ctx is None:
            self.dname, self.didx = "L%d" % self.since, ()
        else:
            self.dname, self.didx = "%s.%d[" % (ctx[0], len(st0.rands) - ctx[2]), ctx[1]
        self.fams = ()

    def families(self, st, k):
        """the state after k iterations: what they have drawn"""
        n0 = len(self.st0.rands)
        st.rands = self.st0.rands + tuple(atom("randfam", a.args[1], *self.didx, I(k)) for a in self.fams) + st.rands[n0:]

    # one pass through the body from a header state
    def pass_(self, st, env, k):
        ex = self.ex
        outer = getattr(ex, "draws", None)
        ex.draws = (self.dname, self.didx + (I(k),), len(st.rands))
        try:
            return self.pass_in(st, env)
        finally:
            ex.draws = outer

    def pass_in(self, st, env):
        ex = self.ex
        p = Path(st, env, self.h, self.nphi, None, dict(self.iters), {})
        key = (ex.depth, self.fname, self.h)
        ex.nosum = getattr(ex, "nosum", set())
        had = key in ex.nosum
        ex.nosum.add(key)
        try:
            outs, stops = ex.run(self.fname, [p], region=(self.h, self.body))
        except Empty as e:
            raise Reject(str(e))
        finally:
            if not had:
                ex.nosum.discard(key)
        cont, leave = [], []
        for q in stops:
            if q.blk == self.h:
                q.env = ex.phi_env(q)
                q.idx = self.nphi
                cont.append(q)
            else:
                leave.append(q)
        live = lambda s: not isinstance(s, bool) and solver.feasible(s.pc)
        cont = [q for q in cont if live(q.st)]
        leave = [q for q in leave if live(q.st)]
        outs = [(s, v) for s, v in outs if live(s)]
        if len(cont) > 1:
            cont = ex.merge_group(cont)
        return cont, leave, outs

    # ------------------------------------------------------------ generic state
    def build(self, k, extra=()):
        st = self.st0.copy()
        st.pc = st.pc + tuple(extra)
        self.built = {}
        for r, n in self.mem.items():
            if not isinstance(n, NSame):
                st.mem[r] = n.build(self, k, st)
        env = dict(self.env0)
        for x, n in self.vars.items():
            env[x] = n.build(self, k, st)
        for n in self.walk():
            if isinstance(n, NSlice) and n.content is not None and n.v0.root is not None:
                tk = (n.v0.root, n.v0.path, n.v0.off + n.v0.len)
                if n.v0.cap is None or n.v0.cap != n.v0.len:
                    L = self.ex.arr_len(self.ex.sl_content(self.st0, n.v0))
                    if self.ex.decide(self.st0, le(L, n.v0.off + n.v0.len)) is not True:
                        raise Reject("append into the middle of an array")
                if tk in st.tails:
                    raise Reject("two appends to the same slice may share memory")
                st.tails = dict(st.tails)
                st.tails[tk] = True
        return st, env

    def walk(self):
        todo = list(self.mem.values()) + list(self.vars.values())
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, NStruct):
                todo.extend(n.kids)
            elif isinstance(n, NPtr):
                todo.append(n.content)
            elif isinstance(n, NSlice):
                todo.extend([n.off, n.len] + ([n.content] if n.content is not None else []))
            elif isinstance(n, NArr):
                if n.n is not None:
                    todo.append(n.n)

    # ------------------------------------------------------------ generalise where an iteration changed something
    def leaf(self, v0, where):
        if isinstance(v0, HashV):
            return NLeaf(v0.b, lambda b: HashV(v0.alg, v0.size, b), lambda v: v.b, where)
        if isinstance(v0, BufV):
            return NLeaf(v0.b, BufV, lambda v: v.b, where)
        if isinstance(v0, StreamV):
            return NLeaf(v0.b, lambda b: StreamV(b, v0.kind, v0.fail), lambda v: v.b, where)
        if isinstance(v0, BArr):
            return NLeaf(v0.b, BArr, lambda v: v.b, where)
        return NLeaf(v0, name=where)

    def refine(self, n, vk, vq, q, where):
        """node general enough to describe both vk (state k) and vq (after one more iteration)"""
        if isinstance(n, NLen):
            return n
        if isinstance(n, NLeaf):
            if n.form is None:
                return n
            a, b = n.unwrap(vk), n.unwrap(vq)
            return n
        if isinstance(n, NStruct):
            ks = parts(vk)
            kq = parts(vq)
            if kq is None or len(ks) != len(kq):
                raise Reject("loop changes the shape of %s" % where)
            kids = [self.refine(c, a, b, q, "%s.%d" % (where, i)) for i, (c, a, b) in enumerate(zip(n.kids, ks, kq))]
            if any(x is not y for x, y in zip(kids, n.kids)):
                return NStruct(n.mk, kids)
            return n
        if isinstance(n, NPtr):
            if not isinstance(vq, PtrV):
                raise Reject("pointer becomes nil in a loop")
            c = self.refine(n.content, self.hst.mem[n.root], q.st.mem.get(vq.root) if vq.root != n.root else q.st.mem[n.root], q, where + "*")
            if c is not n.content:
                return NPtr(n.v0, c)
            return n
        if isinstance(n, NSlice):
            if not isinstance(vq, SliceV):
                raise Reject("slice becomes nil in a loop")
            o = self.refine(n.off, vk.off, vq.off, q, where + ".off")
            l = self.refine(n.len, vk.len, vq.len, q, where + ".len")
            c = n.content
            if c is None and vq.root != vk.root:
                return self.newslice(n.v0, vq, q, where)
            if c is not None:
                c = self.refine(c, self.hst.mem[n.root], q.st.mem[vq.root], q, where + "[]")
            if o is not n.off or l is not n.len or c is not n.content:
                return NSlice(n.v0, o, l, c)
            return n
        if isinstance(n, NArr):
            return n
        if isinstance(n, NMap):
            return n
        # NSame
        v0 = n.v
        if vq is vk:
            return n
        if isinstance(vk, SArr) and isinstance(vq, SArr):
            if vq.upd == vk.upd and vq.fn is vk.fn and vq.n == vk.n:
                return n
            return NArr(v0, None)
        if type(vk) is type(vq) and not isinstance(vk, SArr) and vk == vq:
            return n
        if isinstance(vk, (StructV, CArr, TupleV)) and type(vk) is type(vq):
            a, b = parts(vk), parts(vq)
            if len(a) != len(b):
                raise Reject("loop changes the shape of %s" % where)
            kids = [self.refine(NSame(x), x, y, q, "%s.%d" % (where, i)) for i, (x, y) in enumerate(zip(a, b))]
            return NStruct({StructV: StructV, CArr: CArr, TupleV: TupleV}[type(vk)], kids)
        if isinstance(vk, PtrV) and isinstance(vq, PtrV):
            if vq.root in self.hst.mem or vq.path or vk.path:
                raise Reject("loop moves the pointer %s" % where)
            c0 = self.st0.mem[vk.root]
            return NPtr(v0, self.refine(NSame(c0), c0, q.st.mem[vq.root], q, where + "*"))
        if isinstance(vk, SliceV) and isinstance(vq, SliceV):
            if vk.root == vq.root and vk.path == vq.path:
                o = self.refine(NSame(v0.off), vk.off, vq.off, q, where + ".off")
                l = self.refine(NSame(v0.len), vk.len, vq.len, q, where + ".len")
                return NSlice(v0, o, l)
            return self.newslice(v0, vq, q, where)
        if isinstance(vk, IfaceV) and isinstance(vq, IfaceV) and vk.t == vq.t:
            return NStruct(lambda x, t=vk.t: IfaceV(t, x[0]), [self.refine(NSame(vk.v), vk.v, vq.v, q, where)])
        if isinstance(vk, MapV) and isinstance(vq, MapV):
            return NMap(v0)
        if type(vk) is type(vq) or isinstance(vk, (bool, Atom)) and isinstance(vq, (bool, Atom)):
            return self.leaf(v0, where)
        raise Reject("loop changes %s from %s to %s" % (where, type(vk).__name__, type(vq).__name__))

    def newslice(self, v0, vq, q, where):
        """the slice is reallocated by append in every iteration"""
        ex, st0 = self.ex, self.st0
        if vq.root in self.hst.mem or vq.path:
            raise Reject("loop moves the slice %s" % where)
        if v0.root is not None and st0.owner.get(v0.root) in ("caller", "global") and v0.cap is None:
            raise Reject("append to the caller's slice in a loop")
        cq = q.st.mem[vq.root]
        if isinstance(cq, BArr):
            b0 = ex.sl_bytes(st0, v0) if v0.root is not None else Bytes()
            lf = self.leaf(BArr(b0), where + "[]")
            return NSlice(v0, NSame(Int.const(0)), NLen(lf), lf)
        c0 = ex.sl_content(st0, v0)
        off = v0.off
        base = SArr(v0.len, lambda i: ex.arr_get(st0, c0, off + I(i)))
        ln = NLeaf(v0.len, name=where + ".len")
        return NSlice(v0, NSame(Int.const(0)), ln, NArr(base, ln))

    # ------------------------------------------------------------ learn closed forms
    def learn(self, n, vk, qs, vqs):
        """solve what can be solved; True on progress"""
        kat = self.kat
        if isinstance(n, NLeaf):
            if n.form is not None:
                return False
            Ts = [n.unwrap(v) for v in vqs]
            T = Ts[0]
            if any(type(t) is not type(T) or t != T for t in Ts[1:]):
                T = self.common(n, qs, Ts)
                if T is None:
                    return False
            if not isinstance(T, bool) and self.others(T, n):
                return False
            f = self.wrapping(n, T) or solve(n, T, kat)
            if f is None:
                return False
            if not isinstance(T, bool):
                if perrun(T, (n.hatom, kat), self.since):
                    return False
            n.form = f
            return True
        pr = False
        if isinstance(n, NStruct):
            pk = parts(vk)
            pq = [parts(v) for v in vqs]
            for i, c in enumerate(n.kids):
                pr |= self.learn(c, pk[i], qs, [x[i] for x in pq])
            return pr
        if isinstance(n, NPtr):
            return self.learn(n.content, self.hst.mem[n.root], qs, [q.st.mem[v.root] for q, v in zip(qs, vqs)])
        if isinstance(n, NSlice):
            pr |= self.learn(n.off, vk.off, qs, [v.off for v in vqs])
            pr |= self.learn(n.len, vk.len, qs, [v.len for v in vqs])
            if n.content is not None:
                pr |= self.learn(n.content, self.hst.mem[n.root], qs, [q.st.mem[v.root] for q, v in zip(qs, vqs)])
            return pr
        if isinstance(n, NArr):
            return self.learn_arr(n, vk, qs, vqs)
        if isinstance(n, NMap):
            return self.learn_map(n, vk, qs, vqs)
        return False

    def common(self, n, qs, Ts):
        """one step all paths through the body agree on, each under its own conditions"""
        if not isinstance(Ts[0], (Poly, Pt)) or any(type(t) is not type(Ts[0]) for t in Ts):
            return None
        eq = ieq if isinstance(Ts[0], Int) else eqS if isinstance(Ts[0], Poly) else eqP
        seen = []
        for T in Ts:
            if T in seen or self.others(T, n) or perrun(T, (n.hatom, self.kat), self.since) or solve(n, T, self.kat) is None:
                continue
            seen.append(T)
            if all(t == T or self.ok(q, eq(t, T)) for q, t in zip(qs, Ts)):
                return T
        return None

    def counters(self):
        """closed forms of counters that go round; like all forms, checked later"""
        fn, blk = self.fn, self.fn["blocks"][self.h]
        defs = {i["n"]: i for b in self.body for i in fn["blocks"][b]["ins"] if "n" in i}

        def ev(o, me, hv):
            if o["k"] == "c" and isinstance(o.get("v"), dict) and "i" in o["v"]:
                return Int.const(int(o["v"]["i"]))
            if o["k"] != "r":
                return None
            if o["n"] == me:
                return hv
            if o["n"] not in defs:
                v = self.env0.get(o["n"])
                return v if isinstance(v, Int) else None
            i = defs[o["n"]]
            if i["op"] != "binop" or i["o"] not in "+-%":
                return None
            x, y = ev(i["x"], me, hv), ev(i["y"], me, hv)
            if x is None or y is None:
                return None
            return x + y if i["o"] == "+" else x - y if i["o"] == "-" else imod(x, y)
        for i in blk["ins"]:
            if i["op"] != "phi" or not isinstance(self.env0[i["n"]], Int):
                continue
            leaf = NLeaf(self.env0[i["n"]], name=i["n"])
            Ts = [ev(e, i["n"], leaf.hv) for p, e in zip(blk["preds"], i["edges"]) if p in self.body]
            if not Ts or any(t is None or t != Ts[0] for t in Ts) or Ts[0] == leaf.hv:
                continue
            leaf.form = self.wrapping(leaf, Ts[0])
            if leaf.form is not None:
                self.vars[i["n"]] = leaf

    def wrapping(self, n, T):
        """a counter that goes round: x -> (x + 1) mod m, started below m"""
        a = T.single_atom() if isinstance(T, Int) else None
        if a is None or a.head not in ("mod", "iteI"):
            return None
        x = n.hv + 1
        if a.head == "mod":
            if a.args[0] != x:
                return None
            m = a.args[1]
        else:
            if a.args[1] != x or a.args[2] != 0 or a.args[0].head != "le0":
                return None
            m = x + 1 - a.args[0].args[0]
            if lt(x, m) != a.args[0]:
                return None
        if mentions(m, n.hatom) or mentions(m, self.kat) or perrun(m, (), self.since):
            return None
        x0 = n.x0
        if solver.decide(self.st0.pc, b_and(le(0, x0), lt(x0, m))) is not True:
            return None
        self.wraps.append((x0, m))
        return lambda j: x0 if I(j) == 0 else Int.of(atom("iteI", lt(x0 + j, m), x0 + I(j), x0 + I(j) - m))

    def others(self, T, me):
        """does T mention an unsolved variable other than me?"""
        hs = [x.hatom for x in self.leaves() if x is not me]
        if any(occurs(h, T) for h in hs):
            return True
        for a in atoms_in(T):
            if a.head in ("sv", "pv", "anyint", "bsym", "p"):
                for x in a.args:
                    if isinstance(x, str) and x.startswith("ha") and x[2:3].isdigit() and newer(x, self.since) and (not isinstance(me, NArr) or not x.startswith(me.tag)):
                        return True
        return False

    def leaves(self):
        for n in self.walk():
            if isinstance(n, NLeaf):
                yield n

    def learn_arr(self, n, vk, qs, vqs):
        if n.e0 is not None and (n.W is not None or (n.wl is not None and n.wl.form is not None)):
            return False
        ent = None
        for v in vqs:
            if not isinstance(v, SArr):
                raise Reject("array rewritten in a loop")
            new = [u for u in v.upd if not any(u is w for w in vk.upd)]
            if len(new) != 1:
                raise Reject("a loop writes %d places of an array per iteration" % len(new))
            if ent is None:
                ent = new[0]
            elif not (ent[0] == new[0][0] and ent[1] == new[0][1]):
                return False
        e, v = ent
        if isinstance(e, tuple):
            raise Reject("range write in a loop")
        if self.others(e, n):
            return False
        m = None
        ea = e.single_atom()
        if ea is not None and ea.head == "iteI":
            m = -(ea.args[0].args[0] - ea.args[1] - 1) if ea.args[0].head == "le0" else None
            if m is not None and ea.args[2] in (Int.const(0), ea.args[1] - m) and not mentions(m, self.kat) and lt(ea.args[1], m) == ea.args[0]:
                e = ea.args[1]
            else:
                m = None
        e0 = subst(e, {self.kat: Int.const(0)})
        d = subst(e, {self.kat: Int.const(1)}) - e0
        if not d.is_const() or d.cval() not in (1, -1) or e != e0 + Int.of(self.kat) * d.cval():
            raise Reject("array written at an index that does not move by one")
        if n.e0 is None:
            n.e0, n.d, n.m = e0, d.cval(), m
            n.sample = v
            return True
        own = [a for t in vatoms(v) for a in atoms_in(t) if any(isinstance(x, str) and x.startswith(n.tag) for x in a.args)]
        if any(self.others(t, n) for t in vatoms(v)):
            return False
        if any(perrun_but(t, n.tag) for t in vatoms(v)):
            raise Reject("a loop stores values that exist only in one iteration")
        for r in roots_of(v):
            if r not in self.st0.mem:
                raise Reject("a loop stores new objects")
        if not own:
            n.W = at(v, self.kat)
            return True
        if n.m is not None:
            raise Reject("array recurrence with a wrapping index")
        # value depends on what the loop wrote before
        if not n.look:
            l0 = e0 - n.d
            if self.ex.decide(self.st0, b_and(le(0, l0), lt(l0, n.base.n))) is not True:
                raise Reject("array recurrence without a first element")
            x0 = self.ex.arr_get(self.st0, n.base, l0)
            if not isinstance(x0, (Poly, Pt)) or isinstance(x0, Int):
                raise Reject("array recurrence over %s" % type(x0).__name__)
            n.look = True
            n.wl = NLeaf(x0)
            return True
        # with look-back the previous element is w(k)
        prev = havoc_like(n.wl.x0, n.tag, Int.of(self.kat))
        pa = next(iter(prev.d)) if isinstance(prev, Pt) else prev.single_atom()
        if any(a is not pa for a in own):
            raise Reject("array recurrence reaching further back")
        f = solve(n.wl, subst(v, {pa: n.wl.hv}), self.kat)
        if f is None:
            raise Reject("array recurrence not solved")
        n.wl.form = f
        return True

    def learn_map(self, n, vk, qs, vqs):
        if n.E is not None:
            return False
        ent = None
        for v in vqs:
            new = [u for u in v.ents if not any(u is w for w in vk.ents)]
            if len(new) != 1:
                raise Reject("map written several times per iteration")
            if ent is None:
                ent = new[0]
            elif ent != new[0]:
                return False
        key, val = ent
        if any(self.others(t, n) or perrun_but_k(t, self.kat, self.since) for t in list(vatoms(key)) + list(vatoms(val))):
            return False
        kat = self.kat
        n.E = lambda j: (vsubst(key, {kat: I(j)}), vsubst(val, {kat: I(j)}))
        return True

    # ------------------------------------------------------------ check
    def same(self, n, want, got, stw, stg, q, claimed):
        """is got (after the body) what the closed form says (want)?"""
        from contract import val_eq
        ex = self.ex
        if isinstance(n, (NSame, NLeaf, NLen)):
            if want is got:
                return True
            if isinstance(want, SArr) or isinstance(got, SArr):
                return self.same_arr(want, got, q)
            c = val_eq(ex, q.st, want, got)
            return self.ok(q, c)
        if isinstance(n, NStruct):
            a, b = parts(want), parts(got)
            return b is not None and len(a) == len(b) and all(
                self.same(c, x, y, stw, stg, q, claimed) for c, x, y in zip(n.kids, a, b))
        if isinstance(n, NPtr):
            if not isinstance(got, PtrV) or got.path or not self.claim(n, got.root, q, claimed):
                return False
            return self.same(n.content, stw.mem[want.root], stg.mem[got.root], stw, stg, q, claimed)
        if isinstance(n, NSlice):
            if not isinstance(got, SliceV):
                return False
            if not (self.ok(q, ieq(want.off, got.off)) and self.ok(q, ieq(want.len, got.len))):
                return False
            if n.content is None:
                return want.root == got.root and want.path == got.path and want.cap == got.cap
            if got.path or not self.claim(n, got.root, q, claimed):
                return False
            return self.same(n.content, stw.mem[want.root], stg.mem[got.root], stw, stg, q, claimed)
        if isinstance(n, NArr):
            return self.same_arr(want, got, q)
        if isinstance(n, NMap):
            old = self.hmap[id(n)]
            if len(got.ents) != len(old.ents) + 1 or got.ents[1:] != old.ents:
                return False
            return got.ents[0] == n.E(Int.of(self.kat))
        return False

    def claim(self, n, root, q, claimed):
        """got's object: new in this iteration, used by nothing else; the old object was not written"""
        if root in self.hst.mem and root != n.root:
            return False
        if root in claimed:
            return False
        claimed.add(root)
        if root == n.root:
            return False if q.st.mem[root] is not self.hst.mem[root] else True
        return q.st.mem.get(n.root) is self.hst.mem[n.root]

    def same_arr(self, want, got, q):
        from contract import val_eq
        ex = self.ex
        if not (isinstance(want, (SArr, CArr)) and isinstance(got, (SArr, CArr))):
            return False
        n, m = ex.arr_len(want), ex.arr_len(got)
        if not self.ok(q, ieq(n, m)):
            return False
        i = Int.of(atom("nat", "it#idx%d" % next(_id)))
        st = q.st.assume(lt(i, n))
        # compare region by region
        cuts = []
        for x in (want, got):
            for j, _ in (x.upd if isinstance(x, SArr) else ()):
                if not isinstance(j, tuple) and j.single_atom() is not None and j.single_atom().head == "iteI":
                    c, u, v = j.single_atom().args
                    if c.head == "le0":
                        cuts.append(ieq(c.args[0], 1))
                    cuts.extend([c, ieq(i, u), ieq(i, v)])
                    continue
                cuts.extend([le(j[0], i), lt(i, j[1])] if isinstance(j, tuple) else [ieq(i, j)])
        cs, seen = [], set()
        for c in cuts:
            if isinstance(c, Atom) and c not in seen and b_not(c) not in seen and ex.decide(st, c) is None:
                seen.add(c)
                cs.append(c)
        todo = [st]
        for c in cs[:14]:
            todo = [s for t in todo for s in (t.assume(c), t.assume(b_not(c))) if solver.feasible(s.pc)]
        for s in todo:
            a, b = ex.arr_get(s, want, i), ex.arr_get(s, got, i)
            if a is b:
                continue
            c = val_eq(ex, s, a, b)
            if c is not True and not prover().prove(s.pc, c):
                if DEBUG:
                    print("   array entry", s.pc[-8:], "\n   want", a, "\n   got", b)
                return False
        return True

    def ok(self, q, c):
        if c is True:
            return True
        if c is False:
            return False
        return prover().prove(q.st.pc, c)

    # ------------------------------------------------------------ main
    def attempt(self, st0, env0, iters):
        """list of (kind, item): ('path', Path) leaving the loop, ('out', (st, v)) returning or panicking"""
        ex = self.ex
        self.st0, self.env0, self.iters = st0, env0, iters
        self.draws_at(st0)
        self.kat = atom("nat", "it#%d" % next(_id))
        k = Int.of(self.kat)
        self.vars = {x: NSame(env0[x]) for x in self.phis}
        self.mem = {r: NSame(v) for r, v in st0.mem.items()}
        self.wraps = []
        self.counters()
        K = self.wrap_bound() if self.wraps else None
        for rnd in range(24):
            gst, genv = self.build(k, (lt(k, K),) if K is not None else ())
            self.hst = gst
            cont, leave, outs = self.pass_(gst.copy(), dict(genv), k)
            if not cont:
                raise Reject("the loop never repeats")
            self.side(cont + leave, outs)
            changed = False
            for q in cont:
                for x in self.phis:
                    n = self.refine(self.vars[x], genv[x], q.env[x], q, x)
                    if n is not self.vars[x]:
                        self.vars[x] = n
                        changed = True
                for r in list(self.mem):
                    n = self.refine(self.mem[r], gst.mem[r], q.st.mem[r], q, str(r))
                    if n is not self.mem[r]:
                        self.mem[r] = n
                        changed = True
                if changed:
                    break
            if changed:
                continue
            if K is None:
                K = self.mod_bound(cont, gst)
                if K is not None:
                    continue
            prog = False
            for x in self.phis:
                prog |= self.learn(self.vars[x], genv[x], cont, [q.env[x] for q in cont])
            for r in self.mem:
                if not isinstance(self.mem[r], NSame):
                    prog |= self.learn(self.mem[r], gst.mem[r], cont, [q.st.mem[r] for q in cont])
            if prog:
                if K is None and self.wraps:
                    K = self.wrap_bound()
                continue
            if any(x.form is None for x in self.leaves()) or any(
                    isinstance(n, NArr) and n.e0 is None or isinstance(n, NMap) and n.E is None for n in self.walk()):
                raise Reject("no closed form for %s" % ", ".join(x.name for x in self.leaves() if x.form is None))
            if K is None:
                K = self.bound(cont, gst)
                if K is None:
                    K = self.wrap_bound()
                if K is None:
                    raise Reject("no bound on the number of iterations")
                continue
            # base
            bst, benv = self.build(Int.const(0))
            self.base(bst, benv)
            # step
            wst, wenv = self.build(k + 1, (lt(k, K),))
            saved = self.roots_saved
            for q in cont:
                self.restore(saved[id(gst)])
                claimed = set()
                for x in self.phis:
                    if not self.same(self.vars[x], wenv[x], q.env[x], wst, q.st, q, claimed):
                        raise Reject("closed form of %s not inductive" % x)
                for r in self.mem:
                    if isinstance(self.mem[r], NSame):
                        if q.st.mem[r] is self.mem[r].v:
                            continue
                    if not self.same(self.mem[r], wst.mem[r], q.st.mem[r], wst, q.st, q, claimed):
                        raise Reject("closed form of memory %s not inductive" % str(r))
            return self.finish(K, cont, leave, outs, gst)
        raise Reject("closed forms do not settle")

    def side(self, paths, outs):
        s0 = self.st0
        for s in [p.st for p in paths] + [s for s, _ in outs]:
            if s.choices != s0.choices:
                raise Reject("random choices in a loop")
            if s.rands != s0.rands:
                n0 = len(s0.rands)
                if s.rands[:n0] != s0.rands or not all(a.head == "rand" and str(a.args[1]).startswith(self.dname) for a in s.rands[n0:]):
                    raise Reject("randomness drawn in a loop")
                self.fams = tuple(dict.fromkeys(self.fams + s.rands[n0:]))
            if any(e[0] != "make" for e in s.events[len(s0.events):]):
                raise Reject("effects in a loop")
            if s.ghost != s0.ghost:
                raise Reject("ghost state in a loop")

    def bound(self, cont, gst):
        """K such that the loop goes round exactly while k < K (checked later)"""
        kat = self.kat
        cands = []
        n0 = len(gst.pc)
        for q in cont:
            mine = []
            new = []
            for c in q.st.pc[n0:]:
                new.extend(c.args if isinstance(c, Atom) and c.head == "and" else (c,))
            for c in new:
                p = None
                if c.head == "le0":
                    p, add = c.args[0], 1
                elif c.head == "not" and c.args[0].head == "eq0":
                    p, add = c.args[0].args[0], 0
                    if p.d.get(((kat, 1),)) == -1:
                        p = -p
                if p is None or p.d.get(((kat, 1),)) != 1:
                    continue
                r = p - Int.of(kat)
                if mentions(r, kat) or perrun(r, (), self.since):
                    continue
                mine.append(add - r)
            cands.append(mine)
        for K in cands[0]:
            if all(any(K == x for x in m) for m in cands[1:]):
                return K
        return None

    def mod_bound(self, cont, gst):
        """where a counter taken modulo something ends the loop: the first iteration in which it gets there (checked later)"""
        kat = self.kat
        for q in cont:
            for c in q.st.pc[len(gst.pc):]:
                if not (isinstance(c, Atom) and c.head == "not" and c.args[0].head == "eq0"):
                    continue
                p = c.args[0].args[0]
                for mm, s in p.d.items():
                    if s not in (1, -1) or len(mm) != 1 or mm[0][1] != 1 or mm[0][0].head != "mod":
                        continue
                    a = mm[0][0]
                    e, m = a.args
                    r = Int.of(a) - p * s           # e mod m = r ends the loop
                    if mentions(r, kat) or mentions(m, kat) or e.d.get(((kat, 1),)) != 1:
                        continue
                    e0 = e - Int.of(kat)
                    if mentions(e0, kat) or any(perrun(x, (), self.since) for x in (e0, m, r)):
                        continue
                    for t in (0, 1, 2):
                        K = r - e0 + m * t
                        if self.ex.decide(self.st0, le(0, K)) is not True:
                            continue
                        try:
                            fst, fenv = self.build(K)
                            if not self.pass_(fst, fenv, K)[0]:
                                return K
                        except Unsupported:
                            pass
        return None

    def wrap_bound(self):
        """the number of steps after which a counter that goes round makes the loop end"""
        for x0, m in self.wraps:
            for K in (m - x0, m - 1, m, m - x0 - 1, m - 2):
                if self.ex.decide(self.st0, le(0, K)) is not True:
                    continue
                try:
                    fst, fenv = self.build(K)
                    cont, leave, outs = self.pass_(fst, fenv, K)
                except Unsupported:
                    continue
                if not cont:
                    return K
        return None

    def base(self, bst, benv):
        st0 = self.st0
        for x in self.phis:
            if not self.base_eq(self.vars[x], benv[x], self.env0[x], bst):
                raise Reject("closed form of %s does not start at the entry value" % x)
        for r, n in self.mem.items():
            if not isinstance(n, NSame) and not self.base_eq(n, bst.mem[r], st0.mem[r], bst):
                raise Reject("closed form of %s does not start at the entry value" % str(r))

    def base_eq(self, n, a, b, bst):
        from contract import val_eq
        if isinstance(n, NStruct):
            return all(self.base_eq(c, x, y, bst) for c, x, y in zip(n.kids, parts(a), parts(b)))
        if isinstance(n, NPtr):
            if b.root not in self.mem or not isinstance(self.mem[b.root], NSame):
                return False
            return self.base_eq(n.content, bst.mem[a.root], self.st0.mem[b.root], bst)
        if isinstance(n, NSlice):
            if n.content is None:
                return self.base_eq(n.off, a.off, b.off, bst) and self.base_eq(n.len, a.len, b.len, bst)
            if b.root is not None and (b.root not in self.mem or not isinstance(self.mem[b.root], NSame)):
                return False
            return a.len == b.len          # content: the base of the array node is read from b itself
        if isinstance(n, NArr):
            if n.look:
                l0 = n.e0 - n.d
                return n.wl.form(Int.const(0)) == self.ex.arr_get(self.st0, n.base, l0)
            return True
        if isinstance(n, NMap):
            return True
        if isinstance(n, NLeaf):
            u, v = n.unwrap(a), n.unwrap(b)
            return u == v or u is v
        return True

    def finish(self, K, cont, leave, outs, gst):
        ex, kat = self.ex, self.kat
        k = Int.of(kat)
        n0 = len(gst.pc)
        # what every earlier iteration went through
        alts = []
        for q in cont:
            cs = []
            for c in q.st.pc[n0:]:
                for x in (c.args if isinstance(c, Atom) and c.head == "and" else (c,)):
                    if not perrun_but_k(x, kat, self.since):
                        cs.append(x)
            alts.append(b_and(*cs))
        cont_c = b_or(*alts)
        fa = (lambda m: forall_(m, at(cont_c, kat)) if isinstance(cont_c, Atom) and mentions(cont_c, kat) else
              (True if cont_c is True else b_or(le(m, 0), cont_c)))
        res = []
        early = fa(k)
        for x in [q.st for q in leave] + [x for x, _ in outs]:
            self.families(x, k)
        for q in leave:
            q.st = q.st.assume(early) if early is not True else q.st
            if solver.feasible(q.st.pc):
                res.append(("path", q))
        for s, v in outs:
            s = s.assume(early) if early is not True else s
            if solver.feasible(s.pc):
                res.append(("out", (s, v)))
        # all K iterations done
        d = ex.decide(self.st0, le(0, K))
        if d is not False:
            fst, fenv = self.build(K, ((le(0, K),) if d is None else ()))
            full = fa(K)
            if full is not True:
                fst.pc = fst.pc + (full,)
            for e in set(e for q in cont for e in q.st.events[len(self.st0.events):]):
                fst.events = fst.events + (e,)
            self.families(fst, K)
            if solver.feasible(fst.pc):
                c2, l2, o2 = self.pass_(fst, fenv, K)
                if c2:
                    raise Reject("the loop may go round more often than assumed")
                res.extend(("path", q) for q in l2)
                res.extend(("out", x) for x in o2)
        if d is not True:
            st = self.st0.assume(lt(K, 0))
            if solver.feasible(st.pc):
                c2, l2, o2 = self.pass_(st.copy(), dict(self.env0), 0)
                if c2:
                    raise Reject("the loop may go round although its bound is negative")
                res.extend(("path", q) for q in l2)
                res.extend(("out", x) for x in o2)
        return res

    # roots handed out by build are stored in the nodes; remember them per built state
    @property
    def roots_saved(self):
        return self._saved

    def restore(self, m):
        for n, r in m:
            n.root = r


_build = Loop.build


def build(self, k, extra=()):
    st, env = _build(self, k, extra)
    if not hasattr(self, "_saved"):
        self._saved = {}
    self._saved[id(st)] = [(n, n.root) for n in self.walk() if isinstance(n, (NPtr, NSlice))]
    self.keep = getattr(self, "keep", [])
    self.keep.append(st)
    self.hmap = getattr(self, "hmap", {})
    for n in self.walk():
        if isinstance(n, NMap):
            self.hmap[id(n)] = n.build(self, Int.of(self.kat), st)
    return st, env


Loop.build = build


def zero_like(x):
    if isinstance(x, Bytes):
        return Bytes()
    if isinstance(x, Pt):
        return Pt.zero(x.g)
    if isinstance(x, Poly):
        return type(x).const(0)
    return False


def perrun_but(t, tag):
    for a in atoms_in(t):
        if (a.head == "p" and a.args[0] in ("wfail", "randfail", "rfail")):
            return True
    return False


def perrun_but_k(c, kat, since=0):
    return perrun(subst(c, {kat: Int.of(atom("nat", "generic"))}), (), since)


def parts(v):
    if isinstance(v, StructV):
        return v.f
    if isinstance(v, CArr):
        return v.e
    if isinstance(v, TupleV):
        return v.v
    if isinstance(v, IfaceV):
        return (v.v,)
    return None


_pv = None


def prover():
    global _pv
    if _pv is None:
        from contract import Prover
        _pv = Prover()
    return _pv


def summarise(ex, fname, fn, cfg, h, p, res, outs):
    L = Loop(ex, fname, fn, cfg, h)
    st0, env0, iters = p.snap[h]
    todo = [(st0.copy(), dict(env0), dict(iters), 0)]
    why = None
    while todo:
        st, env, it, peel = todo.pop()
        forked = False
        for x in L.phis:
            v = env.get(x)
            if isinstance(v, Int) and ex.ites(v):
                env[x] = v = ex.settle(st, v)
                for t in ex.ites(v)[:1]:
                    for s2, b in ex.branch(st, t.args[0]):
                        todo.append((s2.copy(), dict(env), dict(it), peel))
                    forked = True
            if forked:
                break
        if forked:
            continue
        try:
            L.__dict__.pop("_saved", None)
            L.__dict__.pop("hmap", None)
            r = L.attempt(st, env, it)
        except Reject as e:
            if DEBUG:
                print("  loop %s block %d peel %d: %s" % (fname, h, peel, e))
            if peel >= 2:
                raise
            L.iters = it
            cont, leave, os = L.pass_in(st.copy(), dict(env))
            res.extend(leave)
            outs.extend(os)
            for q in cont:
                todo.append((q.st, q.env, it, peel + 1))
            continue
        for kind, x in r:
            (res if kind == "path" else outs).append(x)
        ex.loops_summarised.append((fname, h))


DEBUG = False


# ------------------------------------------------------------------ append / copy with symbolic sizes
def append_sym(ex, st, s, x):
    n, m = s.len, x.len
    cs, cx = ex.sl_content(st, s), ex.sl_content(st, x)
    so, xo = s.off, x.off
    if m.is_const() and x.off.is_const() and m.cval() <= 64:
        xs = [ex.arr_get(st, cx, xo + j) for j in range(m.cval())]
        upd = tuple((n + j, v) for j, v in enumerate(xs))
    else:
        upd = (((n, n + m), lambda i: ex.arr_get(st0, cx, xo + I(i) - n)),)
    st0 = st.copy()
    if isinstance(cs, SArr) and so == 0 and cs.n == n:
        arr = SArr(n + m, cs.fn, upd + tuple(cs.upd))
    else:
        arr = SArr(n + m, lambda i: ex.arr_get(st0, cs, so + I(i)), upd)
    return SliceV(ex.alloc(st, "append", arr), (), 0, n + m, None)


def store_range_sym(ex, st, s, at_, x):
    ptr = PtrV(s.root, s.path)
    c = ex.read(st, ptr)
    cx = ex.sl_content(st, x)
    st0 = st.copy()
    lo = s.off + at_
    xo = x.off
    if isinstance(c, CArr):
        c = SArr(len(c.e), lambda i, e=c: ex.arr_get(st0, e, i))
    if not isinstance(c, SArr):
        raise Unsupported("range store into %s" % type(c).__name__)
    ex.write(st, ptr, SArr(c.n, c.fn, (((lo, lo + x.len), lambda i: ex.arr_get(st0, cx, xo + I(i) - lo)),) + tuple(c.upd)))
