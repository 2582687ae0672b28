"""Function contracts: checked against the body of the function, applied at its call sites.

A contract gives, for symbolic arguments, a list of guarded cases; each case fixes the
result, the writes to caller memory and (implicitly) that nothing else is written."""
import itertools
import solver
from terms import *
from terms import _lift as lift
from values import *
from execu import Exec, Panic
import externs


# ------------------------------------------------------------------ result specifications
class Spec:
    pass


class _Any(Spec):
    def __repr__(self):
        return "ANY"


ANY = _Any()


class _Err(Spec):
    def __repr__(self):
        return "ERR"


ERR = _Err()


class _Pan(Spec):
    def __repr__(self):
        return "PANIC"


PANIC = _Pan()


class Fresh(Spec):
    """pointer to a new object"""
    def __init__(self, content):
        self.content = content


class FVec(Spec):
    """new slice of n elements"""
    def __init__(self, n, fn):
        self.n, self.fn = I(n), fn


class FBytes(Spec):
    """new byte slice"""
    def __init__(self, b):
        self.b = b


class VBytes(Spec):
    """byte slice with this content (not necessarily new memory)"""
    def __init__(self, b):
        self.b = b


class VVec(Spec):
    """slice with these elements; alias: the existing memory it may share (used when applied)"""
    def __init__(self, n, fn, alias=None):
        self.n, self.fn, self.alias = I(n), fn, alias


class GP(Spec):
    """new *bn256.G holding the group element"""
    def __init__(self, p):
        self.p = p


class GOwn(Spec):
    """for a *bn256.G held at the place written: it holds p afterwards, in the old object or in a new one"""
    def __init__(self, p):
        self.p = p


class Same(Spec):
    """exactly this value (pointer identity)"""
    def __init__(self, v):
        self.v = v


class Tup(Spec):
    def __init__(self, *v):
        self.v = v


class St(Spec):
    """struct by field specs; fields not named are unspecified"""
    def __init__(self, t, /, **f):
        self.t, self.f = t, f


class Pred(Spec):
    """any value for which fn(M, value) yields only provable conditions [(label, Bool)];
    make(ex, st): an arbitrary value satisfying them (used when applied)"""
    def __init__(self, fn, make=None):
        self.fn, self.make = fn, make


class Rand(Spec):
    """a scalar sampled freshly in this call; name ties occurrences together"""
    def __init__(self, name):
        self.name = name


def randpat(name):
    return Sc.of(atom("randpat", name))


class Case:
    def __init__(self, guard, ret=ANY, writes=(), label="", extra=None):
        self.guard, self.ret, self.writes, self.label, self.extra = guard, ret, list(writes), label, extra


# ------------------------------------------------------------------ proving
def _flat(c, out):
    if c is True:
        return
    if isinstance(c, Atom) and c.head == "and":
        for x in c.args:
            _flat(x, out)
    else:
        out.append(c)


def _solve(f):
    """substitution from an equality fact, or None"""
    if not isinstance(f, Atom):
        return None
    if f.head == "eqS":
        p = f.args[0]
        best = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].head not in ("int", "ind"):
                a = m[0][0]
                rest = type(p)({k: v for k, v in p.d.items() if k != m})
                if occurs(a, rest):
                    continue
                if best is None or a.id > best[0].id:
                    best = (a, rest * (-pow(c, -1, p.mod)))
        return best
    if f.head == "eqP":
        p = f.args[0]
        best = None
        for a, c in p.d.items():
            if len(c.d) == 1:
                (m, k), = c.d.items()
                if all(x.nonzero for x, e in m):
                    rest = Pt(p.g, {b: d for b, d in p.d.items() if b is not a})
                    if occurs(a, rest) or occurs(a, c):
                        continue
                    if best is None or a.id > best[0].id:
                        best = (a, rest.scale(-inverse(c)))
        return best
    if f.head == "eq0":
        p = f.args[0]
        best = None
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                a = m[0][0]
                rest = Int({k: v for k, v in p.d.items() if k != m})
                if occurs(a, rest) or a.head in ("mod", "div", "iteI"):
                    continue
                if best is None or (a.head, a.id) > (best[0].head, best[0].id):
                    best = (a, rest * (-c))
        return best
    if f.head == "eqB":
        u, v = f.args
        for x, y in ((u, v), (v, u)):
            if len(x.segs) == 1 and x.segs[0].head in ("bsym",) and not occurs(x.segs[0], y):
                return (x.segs[0], y)
    return None


def _zero_test(a):
    """the atom x when a is the indicator of x = 0"""
    if a.head != "ind" or not isinstance(a.args[1], Atom) or a.args[1].head != "eqS":
        return None
    return a.args[1].args[0].single_atom()


def annihilate(t):
    """x * [x = 0] is 0 (also below sums)"""
    if isinstance(t, Pt):
        if "ind" not in heads_in(t):
            return t
        out = {}
        for a, c in t.d.items():
            if a.head == "psum" and "ind" in heads_in(a) and not a.bvs:
                i = Int.of(atom("nat", "an%d" % a.id))
                b = annihilate(subst(a.args[2], {a.args[0]: i}))
                a2 = psum_(a.args[1], lambda j: subst(b, {i.single_atom(): I(j)}), t.g)
                for x, y in a2.d.items():
                    out[x] = out.get(x, Pt.fld(t.g).const(0)) + y * annihilate(c)
            else:
                out[a] = out.get(a, Pt.fld(t.g).const(0)) + annihilate(c)
        return Pt(t.g, {a: c for a, c in out.items() if not c.is_zero()})
    if not isinstance(t, Poly) or isinstance(t, Int):
        return t
    drop = []
    for m in t.d:
        zs = [z for z in (_zero_test(a) for a, _ in m) if z is not None]
        if zs and any(a in zs for a, _ in m):
            drop.append(m)
    return type(t)({m: c for m, c in t.d.items() if m not in drop}) if drop else t


def unfold(t):
    """expand named (def) atoms, latest first, until none is left or the term vanishes"""
    for _ in range(100000):
        zero = (isinstance(t, (Poly, Pt)) and not t.d)
        if zero:
            return t
        ds = set()
        if isinstance(t, Poly):
            for m in t.d:
                for a, e in m:
                    if a.head == "def":
                        ds.add(a)
        elif isinstance(t, Pt):
            for a, c in t.d.items():
                if a.head == "def":
                    ds.add(a)
                for m in c.d:
                    for x, e in m:
                        if x.head == "def":
                            ds.add(x)
        if not ds:
            return annihilate(t)
        top = max(a.args[1] for a in ds)
        mp = {a: a.args[0] for a in ds if a.args[1] == top}
        t = subst(t, mp)
    return t


def hashbody(t):
    a = (next(iter(t.d)) if len(t.d) == 1 else None) if isinstance(t, Pt) else t.single_atom()
    return a is not None and a.head in ("HP", "Hs")


def align(facts, g):
    """iterations of one step whose counts differ by a constant: all in terms of the shortest"""
    its = []
    for t in (g,) + tuple(facts):
        if isinstance(t, Atom) and "iter" in heads_in(t):
            its += [a for a in atoms_in(t) if a.head == "iter" and not a.bvs and a not in its]
    mp = {}
    for a in its:
        best = None
        for b in its:
            d = a.args[1] - b.args[1]
            if a is b or not d.is_const() or not 0 < d.cval() <= 4 or a.args[4] != b.args[4] or a.args[2] != b.args[2]:
                continue
            if best is None or d.cval() > best[0]:
                if hashbody(a.args[2]) or solver.decide(facts, le(0, b.args[1])) is True:
                    best = (d.cval(), b)
        if best:
            d, b = best
            cb, _, body, ca, x0 = a.args
            r = lift(x0, b)
            for i in range(d):
                r = subst(body, {cb: b.args[1] + i, ca: r})
            mp[a] = r
    # concatenations likewise: the longer as its first pieces and the shorter
    cats = []
    for t in (g,) + tuple(facts):
        if isinstance(t, Atom) and heads_in(t) & {"cat", "forall"}:
            cats += [a for a in atoms_in(t) if a.head in ("cat", "forall") and not a.bvs and a not in cats]
    for a in cats:
        for b in cats:
            d = a.args[1] - b.args[1]
            if a is b or a.head != b.head or not d.is_const() or not 0 < d.cval() <= 4:
                continue
            at_ = lambda i: subst(a.args[2], {a.args[0]: I(i)})
            d = d.cval()
            if a.head == "forall":
                body = subst(a.args[2], {a.args[0]: Int.of(b.args[0]) + d})
                cs = lambda t: set(t.args) if isinstance(t, Atom) and t.head == "and" else {t}
                if b in facts and not isinstance(body, bool) and cs(body) <= cs(b.args[2]) and solver.decide(facts, le(0, b.args[1])) is True:
                    mp[a] = b_and(*[at_(i) for i in range(d)])
                    break
                if forall_(b.args[1], lambda i: at_(I(i) + d)) is b and solver.decide(facts, le(0, b.args[1])) is True:
                    mp[a] = b_and(b, *[at_(i) for i in range(d)])
                    break
                continue
            if cat_(b.args[1], lambda i: at_(I(i) + d)) == Bytes((b,)) and solver.decide(facts, le(0, b.args[1])) is True:
                r = Bytes(())
                for i in range(d):
                    r = r + at_(i)
                mp[a] = r + Bytes((b,))
                break
    # formal preimages: j steps from iter(-j, x) lead to x
    for a in its:
        n = a.args[1]
        if a not in mp and n.is_const() and -4 <= n.cval() < 0:
            cb, _, body, ca, x0 = a.args
            r = lift(x0, a)
            for i in range(n.cval(), 0):
                r = subst(body, {cb: Int.const(i), ca: r})
            t = next(iter(r.d)) if isinstance(r, Pt) and len(r.d) == 1 else r.single_atom() if isinstance(r, Poly) else None
            if t is not None and lift(r, t) == r:
                mp[t] = x0
    return mp


def lincomb(e, facts):
    """is the point e a multiple of one the facts say is zero?"""
    for f in facts:
        if not (isinstance(f, Atom) and f.head == "eqP" and f.args[0].g == e.g):
            continue
        p = f.args[0]
        for a, c in p.d.items():
            if len(c.d) != 1 or a not in e.d:
                continue
            (m, k), = c.d.items()
            if all(x.nonzero for x, _ in m):
                if (e - p.scale(e.d[a] * inverse(c))).is_zero():
                    return True
                break
    return False


DEBUG = False


class Prover:
    def __init__(self):
        self.memo = {}
        self.count = 0
        self.deep = False

    def simp(self, pc, goal):
        """apply the equalities of pc to pc and goal"""
        facts = []
        for c in pc:
            _flat(c, facts)
        les = {f.args[0] for f in facts if isinstance(f, Atom) and f.head == "le0"}
        for p in list(les):
            if -p in les:
                q = ieq(p, 0)
                if q is False:
                    return False, True
                if isinstance(q, Atom) and q not in facts:
                    facts.append(q)
                les.discard(p)
        done = set()
        for _ in range(200):
            best = None
            for f in sorted(facts, key=lambda x: not (isinstance(x, Atom) and x.head == "eq0")):      # sizes first
                if f in done:
                    continue
                s = _solve(f)
                if s is not None:
                    best = (f, s)
                    break
            if best is None:
                break
            f, (a, t) = best
            done.add(f)
            mp = {a: t}
            nf = []
            for g in facts:
                if g is f:
                    continue
                h = subst(g, mp) if isinstance(g, Atom) else g
                if h is False:
                    return False, True
                tmp = []
                _flat(h, tmp)
                nf.extend(tmp)
            facts = nf
            goal = subst(goal, mp) if isinstance(goal, Atom) else goal
            if goal is True:
                return facts, True
        return facts, goal

    def resolve_inds(self, facts, goal):
        if not isinstance(goal, Atom):
            return goal
        if not heads_in(goal) & {"ind", "iteI", "iteB"}:
            return goal
        atoms = list(atoms_in(goal))
        inds = [a for a in atoms if a.head in ("ind", "iteI", "iteB") and not a.bvs]
        mp = {}
        # conditions on the index of a sum, within its range
        for a in atoms:
            if a.head in ("sum", "psum") and not a.bvs and heads_in(a.args[2]) & {"ind", "iteI", "iteB"}:
                bv, n, body = a.args
                i = Int.of(atom("nat", "sk%d" % a.id))
                f2 = tuple(facts) + (lt(i, n),)
                b2 = subst(body, {bv: i})
                b3 = subst(b2, m) if (m := self.known(f2, [x for x in atoms_in(b2) if x.head in ("ind", "iteI", "iteB") and not x.bvs])) else b2
                if b3 != b2:
                    back = lambda j: subst(b3, {i.single_atom(): I(j)})
                    mp[a] = psum_(n, back, b3.g) if a.head == "psum" else sum_(n, back, type(b3))
            if a.head == "iter" and not a.bvs and heads_in(a.args[2]) & {"ind", "iteI", "iteB"}:
                t = self.cut_iter(tuple(facts), a)
                if t is not None:
                    mp[a] = t
        mp.update(self.known(tuple(facts), inds))
        if mp:
            return subst(goal, mp)
        return goal

    def under(self, facts, t):
        """t with the conditions in it settled by the facts"""
        while True:
            m = self.known(tuple(facts), [x for x in atoms_in(t) if x.head in ("ind", "iteI", "iteB") and not x.bvs])
            if not m:
                return t
            t = subst(t, m)

    def cut_iter(self, facts, a):
        """an iterated function whose body has conditions on the index: settled within the range, or the range cut in two"""
        bv, n, body, acc, x0 = a.args
        i = Int.of(atom("nat", "sk%d" % a.id))
        ia = i.single_atom()
        tests = lambda t: [x for x in atoms_in(t) if x.head in ("ind", "iteI", "iteB") and not x.bvs]
        b = subst(body, {bv: i})
        while True:
            m = self.known(facts + (lt(i, n),), tests(b))
            if not m:
                break
            b = subst(b, m)
        f = lambda j, c: subst(b, {ia: I(j), acc: c})
        for x in tests(b):
            for q in atoms_in(x.args[1] if x.head == "ind" else x.args[0]):
                if q.head not in ("le0", "eq0"):
                    continue
                p = q.args[0]
                s = p.d.get(((ia, 1),))
                if s not in (1, -1):
                    continue
                e = p - i * s
                if ia in set(atoms_in(e)):
                    continue
                cuts = [1 - e] if q.head == "le0" and s == 1 else [e] if q.head == "le0" else [-e * s, -e * s + 1]
                for c in cuts:
                    if c == 0 or c == n or solver.decide(facts, b_and(le(0, c), le(c, n))) is not True:
                        continue
                    g = lambda j, y: f(I(j) + c, y)
                    if solver.decide(facts, le(1, c)) is True:
                        first = f(c - 1, iter_(c - 1, x0, f))
                    else:
                        first = iter_(c, x0, f)
                    return iter_(n - c, first, g)
        if b != subst(body, {bv: i}):
            return iter_(n, x0, f)
        return None

    def known(self, facts, inds):
        mp = {}
        for a in inds:
            c = a.args[1] if a.head == "ind" else a.args[0]
            d = solver.decide(facts, c)
            if d is None:
                continue
            if a.head == "ind":
                cls = Sc if a.args[0] == "Sc" else Sb
                mp[a] = cls.const(1 if d else 0)
            else:
                mp[a] = a.args[1] if d else a.args[2]
        return mp

    def prove(self, pc, goal):
        """True / False (not provable)"""
        self.count += 1
        if goal is True:
            return True
        pc = tuple(c for c in pc if c is not True)
        if any(c is False for c in pc):
            return True
        if isinstance(goal, Atom) and goal.head == "eqP":
            e = unfold(goal.args[0])
            if e.is_zero() or lincomb(e, pc):
                return True
        if isinstance(goal, Atom) and goal.head == "eqS" and unfold(goal.args[0]).is_zero():
            return True
        if goal is not False and solver.decide(pc, goal) is True:
            return True
        if goal is False:
            return not self.sat(pc)
        if isinstance(goal, Atom) and goal.head == "and":
            return all(self.prove(pc, g) for g in goal.args)
        if isinstance(goal, Atom) and goal.head == "not" and isinstance(goal.args[0], Atom) and goal.args[0].head == "and":
            # disjunction: assume the negation of all but one
            ds = [b_not(x) for x in goal.args[0].args]
            for k in range(len(ds)):
                others = [b_not(d) for i, d in enumerate(ds) if i != k]
                if any(o is False for o in others):
                    return True
                if self.prove1(pc + tuple(o for o in others if o is not True), ds[k]):
                    return True
            return False
        return self.prove1(pc, goal)

    def prove1(self, pc, goal):
        if isinstance(goal, Atom) and goal.head == "and":
            return all(self.prove1(pc, g) for g in goal.args)
        if goal is True:
            return True
        if goal is not False and solver.decide(pc, goal) is True:
            return True
        if isinstance(goal, Atom) and goal.head == "forall" and not goal.bvs:
            sk = Int.of(atom("nat", "sk%d" % goal.id))
            return self.prove1(tuple(pc) + (lt(sk, goal.args[1]),), subst(goal.args[2], {goal.args[0]: sk}))
        if (isinstance(goal, Atom) and heads_in(goal) & {"iter", "cat", "forall"}) \
                or any(isinstance(f, Atom) and heads_in(f) & {"iter", "forall"} for f in pc):
            mp = align(pc, goal)
            if mp:
                goal = subst(goal, mp) if isinstance(goal, Atom) else goal
                pc = tuple(subst(f, mp) if isinstance(f, Atom) else f for f in pc)
                if goal is True or any(f is False for f in pc):
                    return True
        facts, g = self.simp(pc, goal)
        if facts is False or g is True:
            return True
        for _ in range(12):
            g2 = self.resolve_inds(facts, g)
            nf = []
            for f in facts:
                h = self.resolve_inds([x for x in facts if x is not f], f)
                if h is False:
                    return True
                tmp = []
                _flat(h, tmp)
                nf.extend(tmp)
            if g2 is True:
                return True
            if g2 == g and nf == facts:
                break
            facts, g = self.simp(nf, g2)
            if facts is False or g is True:
                return True
        if isinstance(g, Atom) and g.head == "eqS" and unfold(g.args[0]).is_zero():
            return True
        if isinstance(g, Atom) and g.head == "eqP":
            e = unfold(g.args[0])
            if e.is_zero() or lincomb(e, facts):
                return True
        if isinstance(g, Atom) and g.head == "and" and g is not goal:
            return all(self.prove1(tuple(facts), x) for x in g.args)
        if g is False:
            return not self.sat(tuple(facts))
        if solver.decide(tuple(facts), g) is True or not self.sat(tuple(facts)):
            return True
        return self.split(tuple(facts), g) or self.absurd(tuple(facts))

    def absurd(self, facts):
        """does a disequation among the facts contradict the rest?"""
        if self.deep:
            return False
        self.deep = True
        try:
            for f in facts:
                if isinstance(f, Atom) and f.head == "not" and isinstance(f.args[0], Atom) and f.args[0].head in ("eqS", "eqP", "eqB") \
                        and heads_in(f) & {"ind", "iteI", "iteB", "iter"}:
                    if self.prove1(tuple(x for x in facts if x is not f), f.args[0]):
                        return True
        finally:
            self.deep = False
        return False

    def split(self, facts, g, depth=4):
        """case distinction over conditions and indices left open in an equation"""
        if depth == 0 or not isinstance(g, Atom) or g.head not in ("eqS", "eqP", "eqB", "eq0"):
            return False
        heads = heads_in(g)
        if heads & {"ind", "iteI", "iteB"}:
            for a in atoms_in(g):
                if a.head in ("ind", "iteI", "iteB") and not a.bvs:
                    c = a.args[1] if a.head == "ind" else a.args[0]
                    for x in (c, b_not(c)):
                        f2 = facts + (x,)
                        if not solver.feasible(f2):
                            continue
                        f3, g3 = self.simp(f2, g)
                        if f3 is False or g3 is True:
                            continue
                        g3 = self.resolve_inds(f3, g3)
                        if g3 is True:
                            continue
                        if g3 is False or not isinstance(g3, Atom):
                            if not self.sat(tuple(f3)):
                                continue
                            return False
                        if solver.decide(tuple(f3), g3) is True:
                            continue
                        if not self.split(tuple(f3), g3, depth - 1):
                            return False
                    return True
        if "iter" in heads or any("iter" in heads_in(f) for f in facts if isinstance(f, Atom)):
            mp = align(facts, g)
            if mp:
                g2 = subst(g, mp)
                f2 = tuple(subst(f, mp) if isinstance(f, Atom) else f for f in facts)
                if g2 is True or any(f is False for f in f2):
                    return True
                if isinstance(g2, Atom) and (g2 is not g or f2 != facts):
                    return self.prove1(f2, g2)
        # indices that can only have one value
        xs = [a for a in atoms_in(g) if a.head == "nat" and not a.bvs]
        if 0 < len(xs) <= 4:
            m = solver.model(list(facts))
            if m:
                for a in xs:
                    if a.id in m and solver.decide(facts, ieq(Int.of(a), m[a.id])) is True:
                        g2 = subst(g, {a: Int.const(m[a.id])})
                        if g2 is True:
                            return True
                        if isinstance(g2, Atom) and g2 is not g:
                            f2, g3 = self.simp(facts, g2)
                            return f2 is False or g3 is True or (isinstance(g3, Atom) and self.split(tuple(f2), g3, depth - 1))
        if DEBUG: print('SPLIT STUCK', facts, g)
        return False

    def sat(self, pc):
        """could pc hold?  (False only when refuted)"""
        if any(c is False for c in pc):
            return False
        if not solver.feasible(pc):
            return False
        if any(isinstance(f, Atom) and heads_in(f) & {"iter", "forall"} for f in pc):
            mp = align(pc, None)
            if mp:
                pc = tuple(subst(f, mp) if isinstance(f, Atom) else f for f in pc)
                if any(f is False for f in pc) or not solver.feasible(pc):
                    return False
        pc = self.tighten(pc)
        facts, g = self.simp(pc, None)
        if facts is False:
            return False
        return solver.feasible(tuple(facts))

    def tighten(self, pc):
        """sizes the facts leave one value for, as equations"""
        out = []
        for f in pc:
            p = f.args[0] if isinstance(f, Atom) and f.head == "le0" else None
            if p is not None and len(p.d) <= 2 and sum(1 for m in p.d if m) == 1:
                q = ieq(p, 0)
                if isinstance(q, Atom) and solver.decide(pc, q) is True:
                    out.append(q)
        return tuple(pc) + tuple(out)


def fam_rows(h, name, n, width, elem):
    """i -> slice of width(i) elements elem(i, j): n rows, for any n"""
    root = h.ex.alloc(h.st, name, SArr(n, lambda i: SArr(width(I(i)), lambda j: elem(I(i), I(j)))), "caller")
    return lambda i: SliceV(root, (("i", I(i)),), 0, width(I(i)), None)


# ------------------------------------------------------------------ context handed to specs
class Ctx:
    def __init__(self, ex, st, mode):
        self.ex, self.st, self.mode = ex, st, mode

    def rd(self, p):
        return self.ex.read(self.st, p)

    def g(self, p):
        """group element behind a *bn256.G pointer"""
        return self.ex.read(self.st, self.ex.read(self.st, p))

    def bytes(self, s):
        return self.ex.sl_bytes(self.st, s)

    def elems(self, s):
        return self.ex.sl_elems(self.st, s)

    def vec(self, s):
        """(n, i -> element)"""
        return s.len, (lambda i: self.ex.sl_get(self.st, s, i))

    def field(self, v, t, name):
        """field of a struct value or of the struct behind a pointer"""
        if isinstance(v, PtrV):
            v = self.rd(v)
        return v.f[self.ex.prog.field_index(self.ex.prog.bystr[t], name)]

    def fptr(self, p, t, name):
        return PtrV(p.root, p.path + (("f", self.ex.prog.field_index(self.ex.prog.bystr[t], name)),))

    def decide(self, c):
        return self.ex.decide(self.st, c)


class H:
    """builder of symbolic inputs"""
    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def tid(self, s):
        return self.ex.prog.bystr[s]

    def new(self, content, tag="in"):
        return PtrV(self.ex.alloc(self.st, tag, content, "caller"))

    def sc(self, name):
        return Sc.of(atom("sv", name))

    def pt(self, name, g="R"):
        return Pt.of(atom("pv", name), g)

    def scp(self, name):
        return self.new(self.sc(name), name)

    def ptp(self, name):
        return self.new(self.pt(name), name)

    def slice(self, n, fn, tag="in"):
        """slice whose capacity may exceed its length (the caller may hold more behind it)"""
        n = I(n)
        if n.is_const():
            r = self.ex.alloc(self.st, tag, CArr([fn(Int.const(i)) for i in range(n.cval())]), "caller")
        else:
            r = self.ex.alloc(self.st, tag, SArr(n, fn), "caller")
        return SliceV(r, (), 0, n, None)

    def scs(self, name, n):
        return self.slice(n, lambda i: Sc.of(atom("sv", name, I(i))), name)

    def pts(self, name, n):
        return self.slice(n, lambda i: Pt.of(atom("pv", name, I(i))), name)

    def bsym(self, name, n=None):
        n = Int.of(atom("nat", "len " + name)) if n is None else I(n)
        return Bytes((atom("bsym", name, n),)) if n != 0 else Bytes()

    def bytes(self, name, n=None):
        b = self.bsym(name, n)
        return SliceV(self.ex.alloc(self.st, name, BArr(b), "caller"), (), 0, b.len, None)

    def gp(self, name, g):
        p = Pt.of(atom("pv", name), g)
        r = self.ex.alloc(self.st, name + "!", p, "caller")
        return PtrV(self.ex.alloc(self.st, name, PtrV(r), "caller"))

    def gval(self, p):
        r = self.ex.alloc(self.st, "grp", p, "caller")
        return PtrV(self.ex.alloc(self.st, "gp", PtrV(r), "caller"))

    def struct(self, t, /, **f):
        """struct value of the named type, zero where not given"""
        ti = self.tid(t)
        u = self.ex.prog.under(ti)
        vals = []
        for x in u["fields"]:
            vals.append(f.pop(x["name"]) if x["name"] in f else self.ex.prog.zero(x["t"]))
        if f:
            raise KeyError("fields %s of %s" % (list(f), t))
        return StructV(vals)

    def fam(self, name, n, fn):
        """n distinct objects fn(i); returns i -> pointer"""
        n = I(n)
        if n.is_const():
            r = self.ex.alloc(self.st, name, CArr([fn(Int.const(i)) for i in range(n.cval())]), "caller")
        else:
            r = self.ex.alloc(self.st, name, SArr(n, fn), "caller")
        return lambda i: PtrV(r, (("i", I(i)),))

    def gfam(self, name, n, g):
        """i -> *bn256.G"""
        v = self.fam(name + "!", n, lambda i: Pt.of(atom("pv", name, I(i)), g))
        return self.fam(name, n, v)

    def assume(self, c):
        if c is not True:
            self.st.pc = self.st.pc + (c,)

    def nat(self, name):
        return Int.of(atom("nat", name))

    def reader(self, name, b=None):
        b = self.bsym(name) if b is None else b
        return IfaceV("reader", PtrV(self.ex.alloc(self.st, name, StreamV(b, "r", False), "caller")))

    def writer(self, name, fail=True):
        return IfaceV("writer", PtrV(self.ex.alloc(self.st, name, StreamV(Bytes(), "w", fail), "caller")))


# ------------------------------------------------------------------ contracts
REG = {}


class Contract:
    def __init__(self, fn, props, inputs, spec, dims=None, sym=True, apply=True, requires=None, exact=False,
                 finite=None, opts=None):
        self.fn, self.props, self.inputs, self.spec = fn, props, inputs, spec
        self.dims = dims or {}
        self.sym, self.applicable = sym, apply
        self.requires = requires
        self.finite = finite      # dimension names whose explicit list is the whole domain
        self.opts = opts or {}
        self.enabled = True
        self.maxsize = None       # largest size the contract may be relied on for (None: any)
        REG[fn] = self

    # ---- apply mode
    def usable(self, ex, fname, st, args):
        if not self.applicable or not self.enabled or ex.verifying == fname:
            return False
        if self.maxsize is not None:
            for a in args:
                n = a.len if isinstance(a, SliceV) else a if isinstance(a, Int) else None
                if n is not None and not (n.is_const() and n.cval() <= self.maxsize):
                    return False
        if self.requires is not None:
            try:
                r = self.requires(Ctx(ex, st, "apply"), args)
            except Unsupported:
                return False
            if ex.decide(st, r) is not True:
                return False
        return True

    def apply(self, ex, fname, st, args):
        C = Ctx(ex, st, "apply")
        out = []
        cases = self.spec(C, args)
        for c in cases:
            if c.guard is False:
                continue
            d = ex.decide(st, c.guard)
            if d is False:
                continue
            s2 = st.copy() if d is True else st.assume(c.guard).copy()
            if c.ret is PANIC:
                out.append((s2, Panic("contract panic in " + fname)))
                continue
            b = Builder(ex, s2)
            ws = []
            for p, v in c.writes:
                if isinstance(v, GOwn):
                    g = ex.read(s2, p)
                    w = ex.read(s2, g)
                    if ex.refs(s2, g.root) != 1 or ex.refs(s2, w.root) != 1:
                        raise Unsupported("apply: shared group element")
                    p, v = w, v.p
                ws.append((p, b.build(v)))
            r = b.build(c.ret)
            for p, v in ws:
                ex.write(s2, p, v)
            out.append((s2, r))
        return out


class Builder:
    def __init__(self, ex, st):
        self.ex, self.st, self.rands = ex, st, {}

    def rterm(self, t):
        """replace random placeholders"""
        if isinstance(t, (Poly, Pt, Bytes, Atom)):
            if "randpat" in heads_in(t):
                ps = [a for a in atoms_in(t) if a.head == "randpat"]
                return subst(t, {a: self.rand(a.args[0]) for a in ps})
        return t

    def rand(self, name):
        if name not in self.rands:
            self.rands[name] = Sc.of(externs.fresh_rand(self.ex, self.st))
        return self.rands[name]

    def build(self, s):
        ex, st = self.ex, self.st
        if s is ANY:
            return OpaqueV("unspecified")
        if s is ERR:
            return ErrV("contract")
        if isinstance(s, Same):
            return s.v
        if isinstance(s, Rand):
            return self.rand(s.name)
        if isinstance(s, Fresh):
            return PtrV(ex.alloc(st, "new", self.build(s.content)))
        if isinstance(s, GP):
            return PtrV(ex.alloc(st, "G", PtrV(ex.alloc(st, "grp", self.rterm(s.p)))))
        if isinstance(s, (FBytes, VBytes)):
            return ex.mk_bytes(st, self.rterm(s.b))
        if isinstance(s, VVec) and s.alias is not None:
            return s.alias
        if isinstance(s, (FVec, VVec)):
            if s.n == 0:
                return ex.mk_slice(st, [])
            if s.n.is_const():
                return ex.mk_slice(st, [self.build(s.fn(Int.const(i))) for i in range(s.n.cval())])
            if isinstance(s.fn(Int.const(0)), (Spec,)):
                raise Unsupported("apply: family of specs")
            return ex.mk_sslice(st, s.n, s.fn)
        if isinstance(s, Tup):
            return TupleV([self.build(x) for x in s.v])
        if isinstance(s, St):
            u = ex.prog.under(ex.prog.bystr[s.t])
            return StructV([self.build(s.f[x["name"]]) if x["name"] in s.f else ex.prog.zero(x["t"])
                            for x in u["fields"]])
        if isinstance(s, Pred):
            if s.make is not None:
                return s.make(ex, st)
            raise Unsupported("apply: predicate result")
        if isinstance(s, Spec):
            raise Unsupported("apply: " + type(s).__name__)
        if isinstance(s, (Poly, Pt, Bytes)):
            return self.rterm(s)
        return s


LEMMAS = {}


class Lemma:
    """an obligation over the contracts: body(L, **dims) runs calls and states what must follow"""
    def __init__(self, name, props, body, dims=None, sym=True, finite=None, inline=False):
        self.fn = "lemma " + name
        self.name, self.props, self.body, self.dims, self.sym, self.finite = name, props, body, dims or {}, sym, finite
        self.inline = inline
        LEMMAS[self.fn] = self


class LemmaRun:
    def __init__(self, lem, prog, contracts, cfg, symbolic, pv):
        self.lem, self.cfg, self.pv = lem, cfg, pv
        self.ex = Exec(prog, {} if lem.inline is True else
                       {k: c for k, c in contracts.items() if not lem.inline or k not in lem.inline}, symbolic=symbolic)
        self.st = prog.base_state(self.ex)
        self.h = H(self.ex, self.st)
        self.obs = []

    def calls(self, st, fn, args):
        """[(state, value)] of the returning paths; a panic is a failed obligation"""
        out = []
        for s, v in self.ex.call(fn, args, st.copy()):
            if not self.pv.sat(s.pc):
                continue
            if isinstance(v, Panic):
                self.obs.append(Ob(self.lem.fn, "safety", fn + ": no panic", self.cfg, False, repr(v), s.pc))
                continue
            out.append((s, v))
        if not out:
            self.obs.append(Ob(self.lem.fn, "reach", fn + " returns", self.cfg, False, definite=False))
        return out

    def need(self, st, label, cond):
        ok = self.pv.prove(st.pc, cond)
        self.obs.append(Ob(self.lem.fn, "lemma", label, self.cfg, ok, "" if ok else short(cond), st.pc, cond))

    def ctx(self, st):
        return Ctx(self.ex, st, "check")


def twice(f):
    """for all sizes: with paths merged at joins, and where that does not succeed, path by path"""
    def g(*a, **k):
        if not k.get("symbolic"):
            return f(*a, **k)
        first = why = None
        for m in (True, False):
            Exec.merging = m
            try:
                r = f(*a, **k)
                if all(o.ok for o in r[1]):
                    return r
                first = first or r
            except Unsupported as e:
                why = why or e
            finally:
                Exec.merging = True
        if first is None:
            raise why
        return first
    g.plain = f
    return g


@twice
def check_lemma(lem, prog, contracts, cfg, symbolic=False, prover=None, dims=None):
    L = LemmaRun(lem, prog, contracts, cfg, symbolic, prover or Prover())
    lem.body(L, **dims)
    return L.ex, L.obs


class Ob:
    __slots__ = ("fn", "kind", "label", "cfg", "ok", "detail", "pc", "goal", "definite", "line")

    def __init__(self, fn, kind, label, cfg, ok, detail="", pc=(), goal=None, definite=True):
        self.fn, self.kind, self.label, self.cfg, self.ok = fn, kind, label, cfg, ok
        self.detail, self.pc, self.goal, self.definite = detail, pc, goal, definite

    def __repr__(self):
        return "%s %s[%s]%s %s" % ("ok  " if self.ok else "FAIL", self.fn, self.kind + ":" + self.label,
                                   " " + str(self.cfg) if self.cfg else "", self.detail)


class Matcher:
    """compares the outcome of a path with the specification of a case"""
    def __init__(self, ex, pre, st, pc, prover):
        self.ex, self.pre, self.st, self.pc, self.pv = ex, pre, st, tuple(pc), prover
        self.conds = []        # (label, Bool)
        self.seen = {}         # fresh roots reachable from results
        self.bind = {}
        self.later = []
        self.own = ()

    def need(self, label, c):
        self.conds.append((label, c))

    def fresh(self, root, label):
        if root in self.pre.mem:
            self.conds.append((label + " is newly allocated", False))
            return
        if root in self.seen:
            self.conds.append((label + " is not shared with " + self.seen[root], False))
            return
        self.seen[root] = label

    def match(self, s, v, label="result"):
        ex, st = self.ex, self.st
        if s is ANY:
            return
        if s is ERR:
            self.need(label + " is an error", isinstance(v, (ErrV, IfaceV)))
            return
        if isinstance(s, Pred):
            for l, c in s.fn(self, v):
                self.need(l, c)
            return
        if isinstance(s, Same):
            self.need(label + " is that object", s.v == v)
            return
        if isinstance(s, Rand):
            if isinstance(v, Sc):
                a = v.single_atom()
                if a is not None and a.head == "rand" and a in st.rands and a not in self.pre.rands:
                    old = self.bind.get(s.name)
                    if old is not None:
                        self.need(label + " uses the same randomness", old is a)
                        return
                    self.need(label + " is sampled independently", a not in self.bind.values())
                    self.bind[s.name] = a
                    return
            self.need(label + " is freshly sampled", False)
            return
        if isinstance(s, Fresh):
            if not isinstance(v, PtrV):
                self.need(label + " is not nil", False)
                return
            self.fresh(v.root, label)
            self.match(s.content, ex.read(st, v), label)
            return
        if isinstance(s, (GP, GOwn)):
            if not isinstance(v, PtrV):
                self.need(label + " is not nil", False)
                return
            own = self.own if isinstance(s, GOwn) else ()
            if v.root not in own:
                self.fresh(v.root, label)
            w = ex.read(st, v)
            if not isinstance(w, PtrV):
                self.need(label + " is initialised", False)
                return
            if w.root not in own:
                self.fresh(w.root, label + "'s value")
            self.match(s.p, ex.read(st, w), label)
            return
        if isinstance(s, (FBytes, VBytes)):
            if not isinstance(v, SliceV):
                self.need(label + " is a slice", False)
                return
            b = ex.sl_bytes(st, v) if v.len != 0 else Bytes()
            if isinstance(s, FBytes) and v.root is not None and v.len != 0:
                self.fresh(v.root, label)
            self.later.append((label, s.b, b))
            return
        if isinstance(s, (FVec, VVec)):
            if not isinstance(v, SliceV):
                self.need(label + " is a slice", False)
                return
            c = ieq(v.len, s.n)
            if not self.pv.prove(self.pc, c):
                self.need("length of " + label, c)
                return
            if self.pv.prove(self.pc, ieq(s.n, 0)):
                return
            if v.root is not None and isinstance(s, FVec):
                self.fresh(v.root, label)
            if s.n.is_const():
                for k in range(s.n.cval()):
                    self.match(s.fn(Int.const(k)), ex.sl_get(st, v, k), "%s[%d]" % (label, k))
            else:
                k = Int.of(atom("nat", "idx"))
                sv = self.pc
                self.pc = self.pc + (lt(k, s.n),)
                s2 = self.st
                self.st = s2.assume(lt(k, s.n))
                self.match(s.fn(k), ex.sl_get(self.st, v, k), label + "[i]")
                for i, (l, c) in enumerate(self.conds):
                    pass
                self.idxpc = lt(k, s.n)
                self.pc, self.st = sv, s2
                self.pc = self.pc
            return
        if isinstance(s, (Tup,)):
            if isinstance(v, TupleV):
                for k, (a, b) in enumerate(zip(s.v, v.v)):
                    self.match(a, b, "%s.%d" % (label, k))
                return
            self.need(label + " is a tuple", False)
            return
        if isinstance(s, St):
            if isinstance(v, StructV):
                ti = ex.prog.bystr[s.t]
                for k, a in s.f.items():
                    self.match(a, v.f[ex.prog.field_index(ti, k)], "%s.%s" % (label, k))
                return
            self.need(label + " is a struct", False)
            return
        if s is NIL:
            self.need(label + " is nil", v is NIL or (isinstance(v, SliceV) and v.root is None))
            return
        self.later.append((label, s, v))

    def finish(self):
        mp = {atom("randpat", n): Sc.of(a) for n, a in self.bind.items()}
        for label, s, v in self.later:
            if mp and isinstance(s, (Poly, Pt, Bytes, Atom)):
                s = subst(s, mp)
            self.need(label, self.eq(s, v))
        return self.conds

    def eq(self, s, v):
        return val_eq(self.ex, self.st, s, v)


def path_eq(p, q):
    if len(p) != len(q):
        return False
    c = True
    for (k, x), (l, y) in zip(p, q):
        if k != l:
            return False
        c = b_and(c, ieq(x, y) if k == "i" else x == y)
    return c


def val_eq(ex, st, s, v):
    if s is v:
        return True
    if isinstance(s, int) and not isinstance(s, bool):
        s = Int.const(s)
    if isinstance(s, (bool, Atom)) and isinstance(v, (bool, Atom)):
        return b_or(b_and(s, v), b_and(b_not(s), b_not(v)))
    if isinstance(s, Int) and isinstance(v, Int):
        return ieq(s, v)
    if isinstance(s, Poly) and type(s) is type(v):
        return eqS(s, v)
    if isinstance(s, Pt) and isinstance(v, Pt):
        return eqP(s, v) if s.g == v.g else False
    if isinstance(s, Bytes) and isinstance(v, Bytes):
        return eqB(s, v)
    if isinstance(s, BArr) and isinstance(v, BArr):
        return eqB(s.b, v.b)
    if isinstance(s, Bytes) and isinstance(v, BArr):
        return eqB(s, v.b)
    if isinstance(s, BufV) and isinstance(v, BufV):
        return eqB(s.b, v.b)
    if isinstance(s, StreamV) and isinstance(v, StreamV):
        return eqB(s.b, v.b)
    if isinstance(s, Bytes) and isinstance(v, (BufV, StreamV)):
        return eqB(s, v.b)
    if isinstance(s, HashV) and isinstance(v, HashV):
        return s.alg == v.alg and eqB(s.b, v.b)
    if isinstance(s, StructV) and isinstance(v, StructV):
        return b_and(*[val_eq(ex, st, a, b) for a, b in zip(s.f, v.f)])
    if isinstance(s, CArr) and isinstance(v, CArr) and len(s.e) == len(v.e):
        return b_and(*[val_eq(ex, st, a, b) for a, b in zip(s.e, v.e)])
    if isinstance(s, (SArr, CArr)) and isinstance(v, (SArr, CArr)):
        n, m = ex.arr_len(s), ex.arr_len(v)
        if n != m:
            return False
        k = Int.of(atom("nat", "idx"))
        s2 = st.assume(lt(k, n))
        return b_imp(lt(k, n), val_eq(ex, s2, ex.arr_get(s2, s, k), ex.arr_get(s2, v, k)))
    if isinstance(s, SliceV) and isinstance(v, SliceV):
        if s.root is None or v.root is None:
            return s.root is None and v.root is None or (s.len == 0 and v.len == 0)
        return b_and(s.root == v.root and path_eq(s.path, v.path), ieq(s.off, v.off), ieq(s.len, v.len))
    if isinstance(s, PtrV) and isinstance(v, PtrV):
        return s.root == v.root and path_eq(s.path, v.path)
    if isinstance(s, IfaceV) and isinstance(v, IfaceV):
        return s.t == v.t and val_eq(ex, st, s.v, v.v)
    if isinstance(s, V) and isinstance(v, V):
        return s == v
    return False


@twice
def check_contract(c, prog, contracts, cfg, symbolic=False, prover=None, dims=None):
    """list of Ob for one configuration"""
    ex = Exec(prog, contracts, symbolic=symbolic)
    ex.verifying = c.fn
    ex.naming = bool(c.opts.get("naming"))
    pv = prover or Prover()
    obs = []
    st = prog.base_state(ex)
    h = H(ex, st)
    args = c.inputs(h, **dims)
    pre = st.copy()
    prerands = len(st.rands)
    C = Ctx(ex, pre, "check")
    if c.requires is not None:
        r = c.requires(C, args)
        if r is False:
            return ex, []
        if r is not True:
            st.pc = st.pc + (r,)
            pre = st.copy()
            C = Ctx(ex, pre, "check")
    if not pv.sat(pre.pc):
        return ex, [Ob(c.fn, "vacuity", "precondition is satisfiable", cfg, False, definite=False)]
    cases = [k for k in c.spec(C, args) if k.guard is not False]
    outs = ex.run_fn(c.fn, list(args), st)
    tot = b_or(*[k.guard for k in cases])
    if tot is not True and not pv.prove(pre.pc, tot):
        obs.append(Ob(c.fn, "spec", "cases are exhaustive", cfg, False, definite=False))
    reached = set()
    frame_obs = {}
    for s2, v in outs:
        if not pv.sat(s2.pc):
            continue
        for ci, k in enumerate(cases):
            pc = s2.pc + ((k.guard,) if k.guard is not True else ())
            if k.guard is not True and not pv.sat(pc):
                continue
            reached.add(ci)
            lab = k.label or ("case %d" % ci)
            if isinstance(v, Panic):
                if k.ret is PANIC:
                    obs.append(Ob(c.fn, "panic", lab, cfg, True))
                else:
                    obs.append(Ob(c.fn, "safety", lab + ": no panic", cfg, False, repr(v), pc))
                continue
            if k.ret is PANIC:
                obs.append(Ob(c.fn, "panic", lab + ": must panic", cfg, False, "", pc))
                continue
            m = Matcher(ex, pre, s2, pc, pv)
            m.args = args
            m.C = C
            m.match(k.ret, v)
            wr = {}
            free = set()
            for p, spec in k.writes:
                wr.setdefault(p.root, []).append((p, spec))
                if isinstance(spec, GOwn):
                    g0 = ex.read(pre, p)
                    free |= {g0.root, ex.read(pre, g0).root}
                    m.own = free
                m.match(spec, ex.read(s2, p), "effect on %s" % str(p.root).split("#")[0])
            if k.extra is not None:
                for l, cond in k.extra(m, v):
                    m.need(l, cond)
            for l, cond in m.finish():
                pcx = pc + ((m.idxpc,) if hasattr(m, "idxpc") else ())
                ok = pv.prove(pcx, cond)
                obs.append(Ob(c.fn, "post", lab + ": " + l, cfg, ok, "" if ok else short(cond), pcx, cond))
            # frame
            for r, old in pre.mem.items():
                new = s2.mem.get(r)
                if r in free:
                    continue
                if r in wr:
                    # only the listed places may differ
                    tmp = s2.copy()
                    for p, _ in wr[r]:
                        if p.path:
                            ex.write(tmp, p, ex.read(pre, p))
                        else:
                            tmp.mem[r] = old
                    new = tmp.mem[r]
                if new is old:
                    continue
                cond = val_eq(ex, s2, old, new)
                ok = cond is True or pv.prove(pc, cond)
                if not ok:
                    obs.append(Ob(c.fn, "frame", "%s: %s unchanged" % (lab, str(r).split("#")[0]), cfg, False,
                                  short(cond), pc, cond))
                else:
                    frame_obs[str(r).split("#")[0]] = True
            for e in s2.events:
                if e[0] == "clobber":
                    obs.append(Ob(c.fn, "frame", "%s: memory behind %s not overwritten" % (lab, str(e[1]).split("#")[0]),
                                  cfg, False, "append at line %s" % (e[3],), pc))
            obs.append(Ob(c.fn, "frame", lab + ": nothing else written", cfg, True))
    for ci, k in enumerate(cases):
        if ci not in reached and pv.sat(pre.pc + ((k.guard,) if k.guard is not True else ())):
            if c.opts.get("reach", True):
                obs.append(Ob(c.fn, "reach", (k.label or "case %d" % ci) + " is reached", cfg, False, definite=False))
    return ex, obs


def short(c):
    s = repr(c)
    return s if len(s) < 400 else s[:400] + "..."
