"""Runtime values, memory and program representation of the symbolic executor."""
import itertools
from terms import *


class _Nil:
    def __repr__(self):
        return "nil"


NIL = _Nil()


class V:
    __slots__ = ()

    def __eq__(self, o):
        return self is o or (type(o) is type(self) and all(getattr(self, s) == getattr(o, s) for s in self.__slots__))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(getattr(self, s) for s in self.__slots__))

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join("%r" % (getattr(self, s),) for s in self.__slots__) + ")"


class PtrV(V):
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, path


class SliceV(V):
    __slots__ = ("root", "path", "off", "len", "cap")

    def __init__(self, root, path, off, ln, cap):
        self.root, self.path, self.off, self.len, self.cap = root, path, I(off), I(ln), cap if cap is None else I(cap)


NILSLICE = SliceV(None, (), 0, 0, 0)


class StructV(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)


class CArr(V):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)


class BArr(V):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class SArr(V):
    """array of symbolic length n: fn(i) unless overwritten by upd (latest first)"""
    __slots__ = ("n", "fn", "upd")

    def __init__(self, n, fn, upd=()):
        self.n, self.fn, self.upd = I(n), fn, upd


class IfaceV(V):
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class ErrV(V):
    __slots__ = ("info",)

    def __init__(self, info="error"):
        self.info = info

    def __eq__(self, o):
        return isinstance(o, ErrV)

    def __hash__(self):
        return 7


class FuncV(V):
    __slots__ = ("name", "bind")

    def __init__(self, name, bind=()):
        self.name, self.bind = name, bind


class TupleV(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)


class MapV(V):
    """content of a map root: entries latest first, default value"""
    __slots__ = ("ents", "default")

    def __init__(self, ents, default):
        self.ents, self.default = tuple(ents), default


class HashV(V):
    """state of a hash.Hash object"""
    __slots__ = ("alg", "size", "b")

    def __init__(self, alg, size, b):
        self.alg, self.size, self.b = alg, size, b


class BufV(V):
    """bytes.Buffer: unread content"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class StreamV(V):
    """abstract io.Reader (remaining bytes) or io.Writer (bytes written).
    fail: reads/writes may fail at any point."""
    __slots__ = ("b", "kind", "fail")

    def __init__(self, b, kind, fail):
        self.b, self.kind, self.fail = b, kind, fail


class PayloadV(V):
    """abstract merkletree.Payload: hash bytes h, ok predicate (Bool)"""
    __slots__ = ("h", "ok", "root")

    def __init__(self, h, ok, root):
        self.h, self.ok, self.root = h, ok, root


class OpaqueV(V):
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag


RS = "github.com/bwesterb/go-ristretto.Scalar"
RP = "github.com/bwesterb/go-ristretto.Point"
BN = "github.com/dusk-network/bn256."
INTBITS = {"int": (64, 1), "int8": (8, 1), "int16": (16, 1), "int32": (32, 1), "int64": (64, 1),
           "uint": (64, 0), "uint8": (8, 0), "byte": (8, 0), "uint16": (16, 0), "uint32": (32, 0),
           "uint64": (64, 0), "uintptr": (64, 0), "rune": (32, 1), "untyped int": (64, 1), "untyped rune": (32, 1)}


class Prog:
    def __init__(self, j):
        self.fns = j["fns"]
        self.types = j["types"]
        self.globals = j["globals"]
        self.mset = {}
        for m in j["mset"]:
            self.mset[(m["t"], m["m"])] = m["f"]
        self.bystr = {t["str"]: i for i, t in enumerate(self.types)}
        self._cfg = {}

    def under(self, t):
        """underlying structural type record"""
        x = self.types[t]
        while x["k"] in ("named", "alias"):
            x = self.types[x["u"]]
        return x

    def name(self, t):
        x = self.types[t]
        while x["k"] == "alias":
            x = self.types[x["u"]]
        return x.get("name") if x["k"] in ("named", "basic") else None

    def is_byte(self, t):
        u = self.under(t)
        return u["k"] == "basic" and u["name"] in ("uint8", "byte")

    def leafkind(self, t):
        n = self.name(t)
        if n == RS:
            return "Sc"
        if n == RP:
            return "Pt"
        if n in (BN + "G1", BN + "G2", BN + "GT"):
            return n[len(BN):]
        if n == "math/big.Int":
            return "Big"
        if n == "bytes.Buffer":
            return "Buf"
        return None

    def zero(self, t):
        lk = self.leafkind(t)
        if lk == "Sc":
            return Sc.const(0)
        if lk == "Pt":
            return Pt.of(atom("ZeroValue"))      # the zero value of a Point is not a curve point
        if lk in ("G1", "G2", "GT"):
            return NIL
        if lk == "Big":
            return Int.const(0)
        if lk == "Buf":
            return BufV(Bytes())
        u = self.under(t)
        k = u["k"]
        if k == "basic":
            n = u["name"]
            if n in INTBITS:
                return Int.const(0)
            if n in ("bool", "untyped bool"):
                return False
            if n in ("string", "untyped string"):
                return Bytes()
            if n == "untyped nil":
                return NIL
            return OpaqueV("zero " + n)
        if k == "slice":
            return NILSLICE
        if k in ("ptr", "map", "iface", "func", "chan"):
            return NIL
        if k == "struct":
            return StructV([self.zero(f["t"]) for f in u["fields"] or ()])
        if k == "array":
            if self.is_byte(u["e"]):
                return BArr(Bytes.lit(b"\0" * u["n"]))
            return CArr([self.zero(u["e"])] * u["n"])
        if k == "tuple":
            return TupleV([self.zero(x) for x in u["ts"]])
        return OpaqueV("zero " + u["k"])

    def field_index(self, t, name):
        u = self.under(t)
        for i, f in enumerate(u["fields"]):
            if f["name"] == name:
                return i
        raise KeyError(name)

    def base_state(self, ex):
        """state after running every package initialiser of the repository"""
        if getattr(self, "_base", None) is not None:
            return self._base.copy()
        st = State()
        self._base = st
        written = set()
        reach = self.reachable([n for n in self.fns if n.split(".")[-1][:1].isupper()])
        for n in reach:
            f = self.fns[n]
            for b in f["blocks"]:
                for i in b["ins"]:
                    if i["op"] == "store" and i["addr"].get("k") == "g":
                        written.add(i["addr"]["n"])
        self.written_globals = written
        for g, t in self.globals.items():
            st.mem["global:" + g] = self.zero(self.types[t]["e"])
            st.owner["global:" + g] = "global"
        sv, ex.contracts = ex.contracts, {}
        for n in sorted(self.fns):
            if n.endswith(".init"):
                outs = ex.run_fn(n, [], st)
                if len(outs) != 1 or not isinstance(outs[0][1], TupleV):
                    raise Unsupported("initialiser " + n)
                st = outs[0][0]
        ex.contracts = sv
        for r in st.mem:
            st.owner[r] = "global"
        for g in written:
            if g.endswith("init$guard"):
                continue
            et = self.types[self.globals[g]]["e"]
            st.mem["global:" + g] = self.havoc(et, g)
        st.events = ()
        st.rands = ()
        st.choices = ()
        self._base = st
        return st.copy()

    def refs(self, n):
        """names of the functions mentioned by n"""
        out = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "f" and "n" in x:
                    out.add(x["n"])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for b in self.fns[n]["blocks"]:
            walk(b["ins"])
        return out

    def reachable(self, roots):
        seen = set()
        work = [r for r in roots if r in self.fns]
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            work.extend(x for x in self.refs(n) if x in self.fns)
        return seen

    def havoc(self, t, tag):
        z = self.zero(t)
        if isinstance(z, Int):
            return Int.of(atom("anyint", tag))
        if isinstance(z, (bool,)):
            return pred("anybool", tag)
        if isinstance(z, Sc):
            return Sc.of(atom("anysc", tag))
        return OpaqueV("global " + tag)

    def cfg(self, fname):
        c = self._cfg.get(fname)
        if c is None:
            c = self._cfg[fname] = CFG(self.fns[fname])
        return c


class CFG:
    def __init__(self, fn):
        B = fn["blocks"]
        n = len(B)
        self.succs = [b["succs"] for b in B]
        self.preds = [b["preds"] for b in B]
        # reverse postorder
        seen, post = set(), []
        stack = [(0, iter(self.succs[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        order = post[::-1]
        self.rpo = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in self.preds[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in self.succs[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.preds[x])
        # nesting, outermost first
        self.nest = {}
        for b in order:
            hs = [h for h, body in self.loops.items() if b in body]
            hs.sort(key=lambda h: -len(self.loops[h]))
            self.nest[b] = hs


class State:
    __slots__ = ("mem", "owner", "pc", "events", "rands", "choices", "cnt", "tails", "ghost")

    def __init__(self):
        self.mem = {}
        self.owner = {}
        self.pc = ()
        self.events = ()
        self.rands = ()
        self.choices = ()
        self.cnt = {}
        self.tails = {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.owner = dict(self.owner)
        s.pc, s.events, s.rands, s.choices = self.pc, self.events, self.rands, self.choices
        s.cnt = dict(self.cnt)
        s.tails = dict(self.tails)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c):
        if c is True:
            return self
        s = self.copy()
        if isinstance(c, Atom) and c.head == "and":
            s.pc = s.pc + tuple(x for x in c.args if x not in s.pc)
        elif c not in s.pc:
            s.pc = s.pc + (c,)
        return s


_rootc = itertools.count(1)


def newroot(tag):
    return "%s#%d" % (tag, next(_rootc))
