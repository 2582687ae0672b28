"""Contracts of package rangeproof/vector."""
from terms import *
from values import *
from contract import *

V = "rangeproof/vector."
ZERO = Sc.const(0)
N1 = {"n": [0, 1, 2, 3, 4]}
N2 = {"n": [0, 1, 2, 3], "m": [0, 1, 2, 3]}


def two(h, n, m):
    return [h.scs("a", n), h.scs("b", m)]


def pointwise(fn, op):
    def spec(C, a):
        n, x = C.vec(a[0])
        m, y = C.vec(a[1])
        return [Case(ieq(n, m), Tup(FVec(n, lambda i: op(x(i), y(i))), NIL), label="same length"),
                Case(b_not(ieq(n, m)), Tup(ANY, ERR), label="length mismatch")]
    Contract(V + fn, ["C18"], two, spec, dims=N2)


pointwise("Add", lambda x, y: x + y)
pointwise("Sub", lambda x, y: x - y)
pointwise("Hadamard", lambda x, y: x * y)


def scal(h, n):
    return [h.scs("a", n), h.sc("b")]


Contract(V + "AddScalar", ["C18"], scal,
         lambda C, a: [Case(True, FVec(a[0].len, lambda i: C.vec(a[0])[1](i) + a[1]))], dims=N1)
Contract(V + "MulScalar", ["C18"], scal,
         lambda C, a: [Case(True, FVec(a[0].len, lambda i: C.vec(a[0])[1](i) * a[1]))], dims=N1)
Contract(V + "SubScalar", ["C18"], scal,
         lambda C, a: [Case(eqS(a[1], ZERO), VVec(a[0].len, lambda i: C.vec(a[0])[1](i), a[0]), label="b = 0"),
                       Case(b_not(eqS(a[1], ZERO)), FVec(a[0].len, lambda i: C.vec(a[0])[1](i) - a[1]), label="b != 0")],
         dims=N1)
Contract(V + "Neg", ["C18"], lambda h, n: [h.scs("a", n)],
         lambda C, a: [Case(True, FVec(a[0].len, lambda i: -C.vec(a[0])[1](i)))], dims=N1)


def ip_spec(C, a):
    n, x = C.vec(a[0])
    m, y = C.vec(a[1])
    if ieq(n, m) is False:
        return [Case(True, Tup(ANY, ERR), label="length mismatch")]
    return [Case(ieq(n, m), Tup(sum_(n, lambda i: x(i) * y(i)), NIL), label="same length"),
            Case(b_not(ieq(n, m)), Tup(ANY, ERR), label="length mismatch")]


Contract(V + "InnerProduct", ["C18"], two, ip_spec, dims=N2)


def exp_spec(C, a):
    n, x = C.vec(a[0])
    m, y = C.vec(a[1])
    ok = b_and(ieq(n, m), le(a[2] * a[3], n))
    if ok is False:
        return [Case(True, Tup(ANY, ERR), label="malformed")]
    return [Case(ok, Tup(psum_(n, lambda i: y(i).scale(x(i))), NIL), label="well-formed"),
            Case(b_not(ok), Tup(ANY, ERR), label="malformed")]


Contract(V + "Exp", ["C18"], lambda h, n, m: [h.scs("a", n), h.pts("b", m), h.nat("N"), h.nat("M")], exp_spec, dims=N2)


def pow_spec(C, a):
    n = a[1]
    z = eqS(a[0], ZERO)
    return [Case(b_not(z), FVec(n, lambda i: fpow(a[0], i)), label="non-zero base"),
            Case(z, FVec(n, lambda i: ANY), label="zero base")]


Contract(V + "ScalarPowers", ["C18"], lambda h, n: [h.sc("a"), I(n)], pow_spec, dims={"n": [0, 1, 2, 3, 4, 5]})
Contract(V + "ScalarPowersSum", ["C18"], lambda h, n: [h.sc("a"), I(n)],
         lambda C, a: [Case(True, sum_(a[1], lambda i: fpow(a[0], i)))], dims={"n": [0, 1, 2, 3, 4, 5]})
Contract(V + "FromScalar", ["C18"], lambda h, n: [h.sc("a"), I(n)],
         lambda C, a: [Case(True, FVec(a[1], lambda i: a[0]))], dims=N1)


def split(C, a):
    n, x = C.vec(a[0])
    ok = b_and(le(1, n), lt(a[1], n))
    s = a[0]
    lo = SliceV(s.root, s.path, s.off, a[1], s.cap)
    hi = SliceV(s.root, s.path, s.off + a[1], n - a[1], None if s.cap is None else s.cap - a[1])
    return [Case(ok, Tup(VVec(a[1], lambda i: x(i), lo), VVec(n - a[1], lambda i: x(i + a[1]), hi), NIL), label="0 <= n < len"),
            Case(b_not(ok), Tup(ANY, ANY, ERR), label="out of range")]


SP = {"n": [0, 1, 2, 3, 4], "k": [0, 1, 2, 3, 4, 5]}
Contract(V + "SplitScalars", ["C18"], lambda h, n, k: [h.scs("a", n), I(k)], split, dims=SP)
Contract(V + "SplitPoints", ["C18"], lambda h, n, k: [h.pts("a", n), I(k)], split, dims=SP)
