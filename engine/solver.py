"""Bridge to z3: decides integer / propositional side conditions under a path condition."""
import time
import z3
from terms import *
from terms import _divexact

STATS = {"queries": 0, "time": 0.0, "sat": 0, "unsat": 0, "unknown": 0}


class Conv:
    def __init__(self):
        self.iv = {}
        self.bv = {}
        self.side = []
        self.done = set()

    def iatom(self, a):
        v = self.iv.get(a.id)
        if v is not None:
            return v
        h = a.head
        v = z3.Int("i%d" % a.id)
        self.iv[a.id] = v
        if h == "bit":
            self.side.append(z3.And(v >= 0, v <= 1))
        elif h in ("len", "byte", "catlen", "s2i", "nat"):
            self.side.append(v >= 0)
            if h == "nat" and len(a.args) > 1 and all(isinstance(x, Int) for x in a.args[1:]):
                # the same size for equal indices
                f = z3.Function("n " + str(a.args[0]), *[z3.IntSort()] * len(a.args))
                self.side.append(v == f(*[self.int(x) for x in a.args[1:]]))
        elif h == "mod" or h == "div":
            x, y = self.int(a.args[0]), self.int(a.args[1])
            q = self.iatom(atom("div", *a.args))
            m = self.iatom(atom("mod", *a.args))
            # used only where both operands are known to be non-negative / positive
            self.side.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(x == y * q + m, m >= 0, m < y, q >= 0)))
            self.side.append(z3.Implies(z3.And(x < 0, y > 0), z3.And(x == y * q + m, m <= 0, m > -y, q <= 0)))
        elif h == "iteI":
            c, x, y = self.bool(a.args[0]), self.int(a.args[1]), self.int(a.args[2])
            self.side.append(v == z3.If(c, x, y))
        if a.rng is not None:
            lo, hi = a.rng
            if lo is not None:
                self.side.append(v >= self.int(I(lo)))
            if hi is not None:
                self.side.append(v <= self.int(I(hi)))
        return v

    def int(self, p):
        r = None
        for m, c in p.d.items():
            t = z3.IntVal(c)
            for a, e in m:
                x = self.iatom(a)
                if not isinstance(e, int) or e < 0:
                    raise Unsupported("exponent in integer")
                for _ in range(e):
                    t = t * x
            r = t if r is None else r + t
        return r if r is not None else z3.IntVal(0)

    def bool(self, c):
        if c is True or c is False:
            return z3.BoolVal(c)
        v = self.bv.get(c.id)
        if v is not None:
            return v
        h = c.head
        if h == "and":
            v = z3.And(*[self.bool(x) for x in c.args])
        elif h == "not":
            v = z3.Not(self.bool(c.args[0]))
        elif h == "le0":
            v = self.int(c.args[0]) <= 0
        elif h == "eq0":
            v = self.int(c.args[0]) == 0
        else:
            v = z3.Bool("b%d" % c.id)
        self.bv[c.id] = v
        return v


_cache = {}


def check(conds, timeout=4000):
    """'sat' / 'unsat' / 'unknown' for the conjunction"""
    cs = []
    for c in conds:
        if c is True:
            continue
        if c is False:
            return "unsat"
        cs.append(c)
    key = frozenset(c.id for c in cs)
    r = _cache.get(key)
    if r is not None:
        return r
    STATS["queries"] += 1
    t0 = time.time()
    cv = Conv()
    s = z3.Solver()
    s.set("timeout", timeout)
    fs = [cv.bool(c) for c in cs]
    for f in fs:
        s.add(f)
    seen = 0
    while seen < len(cv.side):
        s.add(cv.side[seen])
        seen += 1
    for f in forall_instances(cs):
        s.add(cv.bool(f))
        while seen < len(cv.side):
            s.add(cv.side[seen])
            seen += 1
    r = str(s.check())
    STATS["time"] += time.time() - t0
    STATS[r] = STATS.get(r, 0) + 1
    _cache[key] = r
    return r


def model(conds, timeout=4000):
    cv = Conv()
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in conds:
        s.add(cv.bool(c))
    for x in list(cv.side):
        s.add(x)
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for aid, v in cv.iv.items():
        x = m.eval(v, model_completion=True)
        out[aid] = x.as_long()
    return out


def witness(conds, names, timeout=3000):
    """small values of the named sizes for which the conjunction could hold"""
    cv = Conv()
    s = z3.Solver()
    s.set("timeout", timeout)
    try:
        for c in conds:
            s.add(cv.bool(c))
        vs = {n: cv.iatom(atom("nat", n)) for n in names}
    except Unsupported:
        return None
    for x in list(cv.side):
        s.add(x)
    for top in (16, 80, 700, 5000):
        s.push()
        s.add(*[v <= top for v in vs.values()])
        if s.check() == z3.sat:
            m = s.model()
            return {n: m.eval(v, model_completion=True).as_long() for n, v in vs.items()}
        s.pop()
    return None


def _flat(cs):
    for c in cs:
        if isinstance(c, Atom) and c.head == "and":
            yield from _flat(c.args)
        else:
            yield c


def _foralls(cs):
    """the quantified predicates in the propositional structure of cs, and its other leaves"""
    fas, rest, seen, todo = [], [], set(), list(cs)
    while todo:
        c = todo.pop()
        if not isinstance(c, Atom) or c.id in seen:
            continue
        seen.add(c.id)
        if c.head in ("and", "not"):
            todo.extend(c.args)
        elif c.head == "forall":
            fas.append(c)
        else:
            rest.append(c)
    return fas, rest


def _match(f, rest):
    """indices at which a predicate or element in the body of f occurs in the ground facts"""
    bv = f.args[0]
    key = ((bv, 1),)
    pats = []
    for a in atoms_in(f.args[2]):
        for p, x in enumerate(a.args):
            if isinstance(x, Int) and key in x.d and not any(y is bv for m in x.d if m != key for y, e in m):
                pats.append((a, p, x.d[key], x - Int.of(bv) * x.d[key]))
    out = {}
    if not pats:
        return []
    for c in rest:
        for g in atoms_in(c):
            if g.bvs:
                continue
            for a, p, w, d in pats:
                if g.head != a.head or len(g.args) != len(a.args) or not isinstance(g.args[p], Int):
                    continue
                if any(q != p and not (isinstance(y, type(z)) and y == z) and not (isinstance(y, (Atom, Poly, Bytes)) and bv in y.bvs)
                       for q, (y, z) in enumerate(zip(a.args, g.args))):
                    continue
                t = _divexact(g.args[p] - d, w)
                if t is not None:
                    out[t] = True
    return list(out)


def forall_instances(cs, depth=2):
    """valid consequences of the bounded foralls in cs: each implies its body at the index terms around,
    and the negation of each names an index (a fresh constant) at which the body fails"""
    fas, rest = _foralls(cs)
    if not fas:
        return []
    out = []
    best, more = {}, {}
    done = set()
    for d in range(depth):
        new = [f for f in fas if f.id not in done and not f.bvs]
        sks = []
        for f in new:
            sk = Int.of(atom("nat", "sk%d" % f.id))
            best[sk] = True
            more[f.args[1] - 1] = True
            fails = b_not(subst(f.args[2], {f.args[0]: sk}))
            sks.append(fails)
            out.append(b_or(f, b_and(lt(sk, f.args[1]), fails)))
        for c in rest:
            for a in atoms_in(c):
                if a.bvs:
                    continue
                if a.head == "nat" and isinstance(a.args[0], str) and a.args[0].startswith(("it#", "sk", "idx")):
                    best[Int.of(a)] = True
                for x in a.args:
                    if isinstance(x, Int) and not x.bvs:
                        more[x] = True
        more[Int.const(0)] = True
        ks = list(best)[:24] + [x for x in more if x not in best][:12]
        for f in new:
            done.add(f.id)
            mine = [k for k in _match(f, sks + rest) if k not in ks]
            for k in ks + mine[:12]:
                body = subst(f.args[2], {f.args[0]: k})
                out.append(b_or(b_not(f), b_not(b_and(le(0, k), lt(k, f.args[1]))), body))
        fas, rest = _foralls(out)
        if not [f for f in fas if f.id not in done]:
            break
    return out


def decide(pc, c):
    """True if pc => c, False if pc => not c, else None"""
    if c is True or c is False:
        return c
    if c in pc:
        return True
    n = b_not(c)
    if n in pc:
        return False
    if check(list(pc) + [n]) == "unsat":
        return True
    if check(list(pc) + [c]) == "unsat":
        return False
    return None


def feasible(pc):
    return check(list(pc)) != "unsat"
