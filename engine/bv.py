"""Bit-precise execution of integer functions: every machine integer is a z3 bit vector, so wrap-around is exact.
Loops are unrolled while a further iteration is feasible (they are bounded by the width of the integers)."""
import time
import z3
import solver
from terms import Unsupported
from values import INTBITS


class Slice:
    """a slice of which only the length is followed"""
    def __init__(self, n):
        self.n = n


class Opaque:
    """a value that is not followed: using it to decide anything is not supported"""


OPAQUE, NILV, ERRV = Opaque(), Opaque(), Opaque()
ERRORS = ("errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "golang.org/x/xerrors.New")


class BV:
    MAXPATHS = 600
    MAXIT = 130

    def __init__(self, prog, pre=()):
        self.prog = prog
        self.s = z3.Solver()
        self.s.set("timeout", 60000)
        for c in pre:
            self.s.add(c)
        self.fns = set()
        self.externs = set()

    def width(self, t):
        n = self.prog.under(t).get("name")
        if n in INTBITS:
            return INTBITS[n]
        if n in ("bool", "untyped bool"):
            return None
        raise Unsupported("bv: type %s" % n)

    def feasible(self, pc):
        t0 = time.time()
        self.s.push()
        self.s.add(*pc)
        r = self.s.check()
        self.s.pop()
        solver.STATS["queries"] = solver.STATS.get("queries", 0) + 1
        solver.STATS["time"] = solver.STATS.get("time", 0) + time.time() - t0
        return r != z3.unsat

    def const(self, v):
        x = v["v"]
        if self.prog.under(v["t"]).get("name") not in INTBITS and self.prog.under(v["t"]).get("name") not in ("bool", "untyped bool"):
            return NILV if x is None else OPAQUE
        w = self.width(v["t"])
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if x is None:
            return z3.BoolVal(False) if w is None else z3.BitVecVal(0, w[0])
        return z3.BitVecVal(int(x["i"] if "i" in x else x["x"]), w[0])

    def call(self, fname, args, pc, depth=0):
        """[(pc, [results] or 'panic')]"""
        fn = self.prog.fns.get(fname)
        if fn is None:
            return [(pc, [self.extern(fname, args)])]
        if depth > 20:
            raise Unsupported("bv: recursion")
        self.fns.add(fname)
        env = {p["n"]: a for p, a in zip(fn["params"] or [], args)}
        work = [(pc, env, 0, None, 0)]
        outs = []
        while work:
            pc, env, blk, prev, it = work.pop()
            if it > 4000 or len(work) + len(outs) > self.MAXPATHS:
                raise Unsupported("bv: too many paths")
            b = fn["blocks"][blk]
            env = dict(env)
            val = lambda v: env[v["n"]] if v["k"] == "r" else self.const(v) if v["k"] == "c" else self.bad(v)
            new = {}
            for i in b["ins"]:
                if i["op"] != "phi":
                    break
                new[i["n"]] = val(i["edges"][b["preds"].index(prev)])
            env.update(new)
            for i in b["ins"]:
                op = i["op"]
                if op == "phi":
                    continue
                if op == "jump":
                    work.append((pc, env, b["succs"][0], blk, it + 1))
                    break
                if op == "if":
                    c = val(i["x"])
                    if isinstance(c, Opaque):
                        raise Unsupported("bv: branch on a value not followed")
                    c = z3.simplify(c)
                    for k, cc in ((0, c), (1, z3.Not(c))):
                        cc = z3.simplify(cc)
                        if z3.is_false(cc):
                            continue
                        p2 = pc if z3.is_true(cc) else pc + (cc,)
                        if p2 is pc or self.feasible(p2):
                            work.append((p2, env, b["succs"][k], blk, it + 1))
                    break
                if op == "return":
                    outs.append((pc, [val(x) for x in i["res"]]))
                    break
                if op == "panic":
                    outs.append((pc, "panic"))
                    break
                if op == "alloc":
                    env[i["n"]] = OPAQUE
                elif op == "store" and val(i["addr"]) is OPAQUE:
                    pass
                elif op in ("makeinterface", "slice", "indexaddr", "fieldaddr") and all(
                        v is None or v["k"] == "c" or isinstance(env.get(v["n"]), Opaque) for v in (i.get("x"), i.get("lo"), i.get("hi"), i.get("max"), i.get("i"))):
                    env[i["n"]] = OPAQUE
                elif op == "call" and "invoke" not in i and i["fn"]["k"] == "b" and i["fn"]["n"] == "len" and isinstance(val(i["args"][0]), Slice):
                    env[i["n"]] = val(i["args"][0]).n
                elif op == "call" and "invoke" not in i and i["fn"]["k"] == "f" and i["fn"]["n"] in ERRORS:
                    env[i["n"]] = ERRV
                    self.externs.add(i["fn"]["n"])
                elif op == "binop":
                    env[i["n"]] = self.binop(i, val(i["x"]), val(i["y"]))
                elif op == "unop":
                    x = val(i["x"])
                    env[i["n"]] = {"-": lambda: -x, "^": lambda: ~x, "!": lambda: z3.Not(x)}.get(i["o"], self.nope)()
                elif op == "convert":
                    w, s0 = self.width(i["t"]), self.width(i["x"].get("t", i["t"])) if "t" in i["x"] else None
                    x = val(i["x"])
                    src = i.get("xt")
                    sg = self.width(src)[1] if src is not None else 0
                    if w[0] <= x.size():
                        env[i["n"]] = z3.Extract(w[0] - 1, 0, x) if w[0] < x.size() else x
                    else:
                        env[i["n"]] = (z3.SignExt if sg else z3.ZeroExt)(w[0] - x.size(), x)
                elif op == "changetype":
                    env[i["n"]] = val(i["x"])
                elif op == "call" and "invoke" not in i and i["fn"]["k"] == "f":
                    rs = self.call(i["fn"]["n"], [val(a) for a in i["args"]], pc, depth + 1)
                    if len(rs) == 1 and rs[0][1] != "panic" and len(rs[0][1]) == 1:
                        pc = rs[0][0]
                        env[i["n"]] = rs[0][1][0]
                        continue
                    # join the outcomes of the callee
                    if any(r != "panic" and not (len(r) == 1 and z3.is_expr(r[0])) for _, r in rs):
                        raise Unsupported("bv: results of a call")
                    ok = [(q, r) for q, r in rs if r != "panic"]
                    for q, r in rs:
                        if r == "panic":
                            outs.append((q, r))
                    v = ok[-1][1][0]
                    for q, r in ok[:-1]:
                        v = z3.If(z3.And(*q[len(pc):]) if len(q) > len(pc) else z3.BoolVal(True), r[0], v)
                    pc = pc + (z3.Or(*[z3.And(*q[len(pc):]) for q, r in ok]),)
                    env[i["n"]] = v
                else:
                    raise Unsupported("bv: instruction " + op)
        return outs

    def bad(self, v):
        raise Unsupported("bv: operand")

    def nope(self):
        raise Unsupported("bv: operator")

    def binop(self, i, x, y):
        o = i["o"]
        if not z3.is_expr(x) or not z3.is_expr(y):
            raise Unsupported("bv: operation on a value not followed")
        if z3.is_bool(x):
            return {"==": lambda: x == y, "!=": lambda: x != y}.get(o, self.nope)()
        sg = self.width(i["xt"])[1]
        if o in ("<<", ">>"):
            n = x.size()
            k = z3.ZeroExt(n - y.size(), y) if y.size() < n else y
            big = z3.BoolVal(False)
            if y.size() > n:
                big = z3.UGE(y, n)
                k = z3.Extract(n - 1, 0, y)
            z = z3.BitVecVal(0, n)
            if o == "<<":
                return z3.If(big, z, x << k)
            return z3.If(big, z, (x >> k) if sg else z3.LShR(x, k))
        t = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
             "&^": lambda: x & ~y, "/": lambda: x / y if sg else z3.UDiv(x, y), "%": lambda: z3.SRem(x, y) if sg else z3.URem(x, y),
             "==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y if sg else z3.ULT(x, y),
             "<=": lambda: x <= y if sg else z3.ULE(x, y), ">": lambda: x > y if sg else z3.UGT(x, y),
             ">=": lambda: x >= y if sg else z3.UGE(x, y)}
        if o in ("/", "%") and not z3.is_bv_value(z3.simplify(y)):
            raise Unsupported("bv: division by a variable")
        return t.get(o, self.nope)()

    def extern(self, name, args):
        if not name.startswith("math/bits."):
            raise Unsupported("bv: external function " + name)
        self.externs.add(name)
        f = name[len("math/bits."):]
        x = args[0]
        n = x.size()
        W = 64

        def length():
            r = z3.BitVecVal(0, W)
            for k in range(n):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k + 1, W), r)
            return r
        if f.startswith("LeadingZeros"):
            return z3.BitVecVal(n, W) - length()
        if f.startswith("Len"):
            return length()
        if f.startswith("TrailingZeros"):
            r = z3.BitVecVal(n, W)
            for k in reversed(range(n)):
                r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k, W), r)
            return r
        if f.startswith("OnesCount"):
            r = z3.BitVecVal(0, W)
            for k in range(n):
                r = r + z3.ZeroExt(W - 1, z3.Extract(k, k, x))
            return r
        raise Unsupported("bv: " + name)

    def prove(self, pc, goal):
        """(True, None) or (False, model or None)"""
        t0 = time.time()
        self.s.push()
        self.s.add(*pc)
        self.s.add(z3.Not(goal))
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        solver.STATS["queries"] = solver.STATS.get("queries", 0) + 1
        solver.STATS["time"] = solver.STATS.get("time", 0) + time.time() - t0
        return r == z3.unsat, m
