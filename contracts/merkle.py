"""Contracts of package merkletree."""
from terms import *
from values import *
from contract import *

P = "merkletree."
NODE, TREE = P + "Node", P + "Tree"


def Hh(b):
    return hashB("sha3-256", 32, b)


def payloads(h, n, name="p"):
    """n payloads; the bytes they return live in their own memory"""
    f = h.fam(name + "!", n, lambda i: BArr(Bytes((atom("bsym", name, Int.of(atom("nat", "len " + name, I(i))), I(i)),))))
    root = f(0).root

    def one(i):
        i = I(i)
        ln = Int.of(atom("nat", "len " + name, i))
        b = Bytes((atom("bsym", name, ln, i),))
        return PayloadV(b, pred("payload ok", name, i), (root, (("i", i),)))
    return one


def merkle_root(hs):
    """specification: duplicate the last element of every odd level"""
    lv = list(hs)
    if len(lv) % 2:
        lv.append(lv[-1])
    while len(lv) > 1:
        if len(lv) % 2:
            lv.append(lv[-1])
        lv = [Hh(lv[i] + lv[i + 1]) for i in range(0, len(lv), 2)]
    return lv[0]


class View:
    """reads the nodes of a state"""
    def __init__(self, ex, st):
        self.ex, self.st = ex, st
        self.C = Ctx(ex, st, "check")

    def f(self, p, name):
        return self.C.field(p, NODE, name)

    def hash(self, p):
        return self.C.bytes(self.f(p, "Hash"))


def tree_ok(M, t, ps, n):
    """conditions: t is the tree of payloads ps"""
    w = View(M.ex, M.st)
    C = w.C
    hs = [p.h for p in ps]
    want = merkle_root(hs)
    out = []
    root = C.field(t, TREE, "Root")
    out.append(("merkle root", eqB(C.bytes(C.field(t, TREE, "MerkleRoot")), want)))
    if not isinstance(root, PtrV):
        return out + [("root node", False)]
    out.append(("root hash", eqB(w.hash(root), want)))
    lv = C.elems(C.field(t, TREE, "Leaves"))
    m = n + n % 2
    out.append(("number of leaves", len(lv) == m))
    if len(lv) != m:
        return out
    for k, l in enumerate(lv):
        j = min(k, n - 1)
        out.append(("leaf %d holds its payload" % k, w.f(l, "Data") == ps[j]))
        out.append(("leaf %d holds its hash" % k, eqB(w.hash(l), ps[j].h)))
        out.append(("leaf %d is marked" % k, w.f(l, "IsLeaf")))
    # links: the levels above the leaves
    level = lv
    seen = 0
    while len(level) > 1:
        up = []
        for i in range(0, len(level), 2):
            l = level[i]
            r = level[i + 1] if i + 1 < len(level) else level[i]
            par = w.f(l, "Parent")
            if not isinstance(par, PtrV):
                return out + [("node has a parent", False)]
            out.append(("parent links", b_and(w.f(r, "Parent") == par, w.f(par, "Left") == l, w.f(par, "Right") == r)))
            out.append(("inner hash", eqB(w.hash(par), Hh(w.hash(l) + w.hash(r)))))
            out.append(("inner node not a leaf", b_not(w.f(par, "IsLeaf"))))
            up.append(par)
        level = up
    out.append(("links end at the root", level[0] == root))
    out.append(("root has no parent", w.f(root, "Parent") is NIL))
    return out


def build_cases(C, ps, n, good, place=None):
    ok = b_and(*[p.ok for p in ps])
    if n == 0:
        return [Case(True, good(None), label="no payload")]
    return [Case(ok, good(True), label="hashes available"), Case(b_not(ok), good(False), label="payload error")]


NS = list(range(18)) + [31, 32, 33]


SHARES = [(0, 0), (0, 0, 0), (0, 1, 1), (0, 0, 2), (0, 1, 0), (0, 1, 1, 3), (0, 1, 0, 1), (0, 1, 2, 2), (0, 0, 2, 2, 4), (0, 1, 2, 3, 3)]


def nt_in(h, n, share=None):
    p = payloads(h, n)
    if share:       # the same payload at several positions
        return [h.slice(n, lambda i: p(share[I(i).cval()]), "payloads")]
    return [h.slice(n, p, "payloads")]


def nt_spec(C, a):
    n = a[0].len.cval()
    ps = C.elems(a[0])

    def good(k):
        if not k:
            return Tup(NIL, ERR)
        return Tup(Pred(lambda M, v: tree_ok(M, v, ps, n) if isinstance(v, PtrV) else [("tree", False)]), NIL)
    return build_cases(C, ps, n, good)


Contract(P + "NewTree", ["C06"], nt_in, nt_spec, dims={"n": NS}, sym=False, apply=False)
REG[P + "NewTree"].extra = [{"n": len(s), "share": s} for s in SHARES]


def old_tree(h):
    return h.new(h.struct(TREE, MerkleRoot=h.bytes("old root")), "tree")


def rb_spec(C, a):
    n = a[1].len.cval()
    ps = C.elems(a[1])
    ok = b_and(*[p.ok for p in ps]) if n else False
    w = [(a[0], Pred(lambda M, v: []))]

    def post(M, v):
        return tree_ok(M, a[0], ps, n)
    return [Case(ok, NIL, [(a[0], ANY)], label="rebuilt", extra=post),
            Case(b_not(ok), ERR, label="error leaves the tree alone")]


def rb_in(h, n):
    p = payloads(h, n)
    return [old_tree(h), h.slice(n, p, "payloads")]


Contract("(*merkletree.Tree).RebuildTreeUsing", ["C06"], rb_in, rb_spec, dims={"n": list(range(10))}, sym=False, apply=False)


def rebuild(L, n):
    h = L.h
    p = payloads(h, n)
    for i in range(n):
        h.assume(p(i).ok)
    a = [h.slice(n, p, "payloads")]
    for st, v in L.calls(L.st, P + "NewTree", a):
        t = v.v[0]
        pre = L.ctx(st).bytes(L.ctx(st).field(t, TREE, "MerkleRoot"))
        for s2, e in L.calls(st, "(*merkletree.Tree).RebuildTree", [t]):
            L.need(s2, "rebuilding succeeds", e is NIL)
            M = type("M", (), {})()
            M.ex, M.st, M.pc = L.ex, s2, s2.pc
            ps = [p(i) for i in range(n)]
            if n % 2:
                ps.append(ps[-1])
            L.need(s2, "same root after rebuilding", eqB(L.ctx(s2).bytes(L.ctx(s2).field(t, TREE, "MerkleRoot")), pre))
            for l, c in tree_ok(M, t, ps, len(ps)):
                L.need(s2, "rebuilt tree: " + l, c)


Lemma("merkle rebuild", ["C06"], rebuild, dims={"n": list(range(1, 12))}, sym=False)


# ------------------------------------------------------------------ verification
def vh(C, p):
    """(ok, bytes): recomputed hash of the subtree at p"""
    c = C.rd(p)
    if isinstance(c, OpaqueV):
        name = c.tag[1]
        return pred("subtree ok", name), Bytes((atom("bsym", "subtree " + name, Int.of(atom("nat", "len subtree " + name))),))
    f = lambda x: C.field(p, NODE, x)
    if f("IsLeaf") is True:
        d = f("Data")
        return d.ok, d.h
    l, r = vh(C, f("Left")), vh(C, f("Right"))
    return b_and(l[0], r[0]), Hh(l[1] + r[1])


def absnode(h, name):
    return h.new(OpaqueV(("node", name)), name)


def vn_in(h, leaf, parent):
    p = payloads(h, 1)
    st = h.bytes("stored")
    par = absnode(h, "parent") if parent else NIL
    dup = pred("is a duplicate")
    if leaf:
        return [h.new(h.struct(NODE, Hash=st, Data=p(0), IsLeaf=True, IsDup=dup, Parent=par), "node")]
    return [h.new(h.struct(NODE, Hash=st, Left=absnode(h, "left"), Right=absnode(h, "right"), IsLeaf=False, IsDup=dup, Parent=par), "node")]


def vn_spec(C, a):
    ok, b = vh(C, a[0])
    return [Case(ok, Tup(VBytes(b), NIL), label="recomputed"), Case(b_not(ok), Tup(ANY, ERR), label="payload error")]


class StructRec(Contract):
    """recursive on the two children: the recursive call is covered by the contract itself
    (structural induction over finite trees)"""
    def usable(self, ex, fname, st, args):
        if not self.enabled:
            return False
        p = args[0]
        if not isinstance(p, PtrV):
            return False
        c = st.mem.get(p.root)
        if isinstance(c, OpaqueV):
            return True
        return False


StructRec(P + "VerifyNode", ["C07"], vn_in, vn_spec, dims={"leaf": [0, 1], "parent": [0, 1]}, finite=["leaf", "parent"], sym=False)


def vt_in(h, leaves):
    ls = h.fam("leaf!", leaves, lambda i: OpaqueV(("node", "leaf", i)))
    return [h.new(h.struct(TREE, Root=absnode(h, "root"), MerkleRoot=h.bytes("stated root"),
                           Leaves=h.slice(leaves, ls, "leaves")), "tree")]


def vt_spec(C, a):
    ok, b = vh(C, C.field(a[0], TREE, "Root"))
    return [Case(ok, Tup(eqB(C.bytes(C.field(a[0], TREE, "MerkleRoot")), b), NIL), label="hashes available"),
            Case(b_not(ok), Tup(False, ERR), label="payload error")]


Contract(P + "VerifyTree", ["C07"], vt_in, vt_spec, dims={"leaves": [0, 2, 6]})


def cn_in(h, leaf, parent):
    p = payloads(h, 1)
    par = absnode(h, "parent") if parent else NIL
    dup = pred("is a duplicate")
    if leaf:
        return [h.new(h.struct(NODE, Hash=h.bytes("stored"), Data=p(0), IsLeaf=True, IsDup=dup, Parent=par), "node")]
    l = h.new(h.struct(NODE, Hash=h.bytes("lhash")), "left")
    r = h.new(h.struct(NODE, Hash=h.bytes("rhash")), "right")
    return [h.new(h.struct(NODE, Hash=h.bytes("stored"), Left=l, Right=r, IsLeaf=False, IsDup=dup, Parent=par), "node")]


def cn(C, p):
    f = lambda x: C.field(p, NODE, x)
    if f("IsLeaf") is True:
        return f("Data").ok, f("Data").h
    return True, Hh(C.bytes(C.field(f("Left"), NODE, "Hash")) + C.bytes(C.field(f("Right"), NODE, "Hash")))


def cn_spec(C, a):
    ok, b = cn(C, a[0])
    return [Case(ok, Tup(VBytes(b), NIL), label="calculated"), Case(b_not(ok), Tup(ANY, ERR), label="payload error")]


Contract(P + "CalculateNodeHash", ["C07"], cn_in, cn_spec, dims={"leaf": [0, 1], "parent": [0, 1]}, finite=["leaf", "parent"], sym=False, apply=False)


def tamper(L, n, what):
    """a tree of n payloads whose stored hashes were then replaced by arbitrary bytes"""
    h = L.h
    p = payloads(h, n)
    q = payloads(h, 1, "query")
    alt = payloads(h, n + n % 2, "altered")
    for i in range(n):
        h.assume(p(i).ok)
    for i in range(n + n % 2):
        h.assume(alt(i).ok)
    a = [h.slice(n, p, "payloads")]
    for st, v in L.calls(L.st, P + "NewTree", a):
        t = v.v[0]
        st = st.copy()
        C = L.ctx(st)
        leaves = C.elems(C.field(t, TREE, "Leaves"))
        nodes, level = [], leaves
        while level:
            nodes += [x for x in level if x not in nodes]
            level = [x for x in dict.fromkeys(C.field(y, NODE, "Parent") for y in level) if x is not NIL]
        if what == "tampered":
            for k, nd in enumerate(leaves):
                L.ex.write(st, C.fptr(nd, NODE, "Data"), alt(k))
            for k, nd in enumerate(nodes):
                b = Bytes((atom("bsym", "stored%d" % k, Int.of(atom("nat", "len stored%d" % k))),))
                s = L.ex.mk_bytes(st, b)
                L.ex.write(st, C.fptr(nd, NODE, "Hash"), s)
            s = L.ex.mk_bytes(st, Bytes((atom("bsym", "stored root", Int.of(atom("nat", "len stored root"))),)))
            L.ex.write(st, C.fptr(t, TREE, "MerkleRoot"), s)
        C = L.ctx(st)
        if what in ("fresh", "tampered"):
            for s2, r in L.calls(st, P + "VerifyTree", [t]):
                L.need(s2, "no error", r.v[1] is NIL)
                ok, b = vh(C, C.field(t, TREE, "Root"))
                want = eqB(C.bytes(C.field(t, TREE, "MerkleRoot")), b)
                L.need(s2, "VerifyTree compares the stated root with the leaves", val_eq(L.ex, s2, want, r.v[0]))
                if what == "fresh":
                    L.need(s2, "a built tree verifies", r.v[0])
        # membership
        for s2, r in L.calls(st, "(*merkletree.Tree).VerifyContent", [t, q(0)]):
            if r.v[1] is not NIL:
                L.need(s2, "error only when a payload fails", b_not(q(0).ok))
                L.need(s2, "no membership on error", r.v[0] is False)
                continue
            C2 = L.ctx(s2)
            res = False
            for lf in leaves:
                eq = eqB(C.field(lf, NODE, "Data").h, q(0).h)
                path, x = True, C.field(lf, NODE, "Parent")
                while x is not NIL:
                    lh = cn(C, C.field(x, NODE, "Left"))[1]
                    rh = cn(C, C.field(x, NODE, "Right"))[1]
                    path = b_and(path, eqB(C.bytes(C.field(x, NODE, "Hash")), Hh(lh + rh)))
                    x = C.field(x, NODE, "Parent")
                res = b_or(res, b_and(eq, path))
            L.need(s2, "query hash available", q(0).ok)
            L.need(s2, "membership only with a matching leaf whose path is consistent", b_or(b_not(r.v[0]), res))
            if what == "fresh":
                anyeq = b_or(*[eqB(p(i).h, q(0).h) for i in range(n)])
                L.need(s2, "membership iff a payload has that hash", val_eq(L.ex, s2, anyeq, r.v[0]))


Lemma("merkle membership", ["C07"], tamper, dims={"n": [1, 2, 3, 4, 5, 6, 7, 8, 9], "what": ["fresh", "tampered"]}, sym=False)
