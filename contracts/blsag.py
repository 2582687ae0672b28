"""Contracts of package ringsig/blsag."""
from terms import *
from values import *
from contract import *

P = "ringsig/blsag."
RS_ = P + "RingSignature"


def step(m, I_, pk, s, c):
    """challenge of the next ring member"""
    Lp = BASE().scale(s) + pk.scale(c)
    Rp = HP(encP(pk)).scale(s) + I_.scale(c)
    return Hs(m + encP(Lp) + encP(Rp)), Lp, Rp


def chain(m, I_, pks, ss, c):
    for pk, s in zip(pks, ss):
        c = step(m, I_, pk, s, c)[0]
    return c


def clr_spec(C, a):
    c, Lp, Rp = step(C.bytes(a[0]), a[1], a[2], a[3], a[4])
    return [Case(True, Tup(c, Lp, Rp))]


Contract(P + "computeCLR", ["C08", "C09"], lambda h: [h.bytes("m"), h.pt("I"), h.pt("pk"), h.sc("s"), h.sc("c")], clr_spec)


def verify_in(h, n, k):
    return [h.bytes("m"), h.struct(RS_, I=h.pt("I"), C=h.sc("C"), S=h.scs("s", k), PubKeys=h.pts("pk", n))]


def verify_spec(C, a):
    f = lambda x: C.field(a[1], RS_, x)
    n, k = f("PubKeys").len, f("S").len
    ok = b_and(le(1, n), ieq(n, k))
    if ok is False:
        return [Case(True, False, label="malformed")]
    m = C.bytes(a[0])
    if n.is_const():
        c = chain(m, f("I"), C.elems(f("PubKeys")), C.elems(f("S")), f("C"))
    else:
        c = iter_(n, f("C"), lambda i, c: step(m, f("I"), C.vec(f("PubKeys"))[1](i), C.vec(f("S"))[1](i), c)[0])
    return [Case(ok, eqS(c, f("C")), label="well-formed"), Case(b_not(ok), False, label="malformed")]


Contract(P + "Verify", ["C09"], verify_in, verify_spec, dims={"n": [0, 1, 2, 3, 4], "k": [0, 1, 2, 3, 4]})


def sign_in(h, n):
    return [h.bytes("m"), h.pts("mixin", n), h.sc("x")]


def drawn(M, t, but=()):
    """is t a random value sampled in this call?"""
    new = [r for r in M.st.rands if r not in M.pre.rands]
    if t is None or t.head != "rand" or t in but:
        return False
    return t in new or any(r.head == "randfam" and r.args[0] == t.args[1] for r in new)


def good_any(M, c2, f, m, x, n, mix):
    """the signature over any number n of decoys, with the signer at any position j"""
    pk = BASE().scale(x)
    out = [("key image is x*Hp(xG)", eqP(f("I"), HP(encP(pk)).scale(x)))]
    if len(M.st.choices) != 1:
        raise Unsupported("how the position is chosen")
    j = M.st.choices[0][1]
    (kn, key), (sn, resp) = c2.vec(f("PubKeys")), c2.vec(f("S"))
    i = Int.of(atom("nat", "member"))
    out.append(("ring size", ieq(kn, n + 1)))
    out.append(("one response per ring member", ieq(sn, kn)))
    before, after = lt(i, j), b_and(lt(j, i), le(i, n))
    imp = lambda c, d: b_or(b_not(c), d)
    out.append(("decoys before the signer", imp(before, eqP(key(i), mix(i)))))
    out.append(("signer's key", eqP(key(j), pk)))
    out.append(("decoys after the signer", imp(after, eqP(key(i), mix(i - 1)))))
    at = lambda c, i: M.pv.under(M.st.assume(c).pc, resp(i))
    # randomness
    fams = []
    for nm, c in (("before", before), ("after", after)):
        t = at(c, i).single_atom()
        ok = drawn(M, t) and t.args[2:] and t.args[-1].d.get(((i.single_atom(), 1),)) in (1, -1)
        out.append(("responses %s the signer are freshly sampled, each one anew" % nm, imp(c, bool(ok))))
        fams.append(t)
    sj = at(True, j)
    fr = [t for mm in sj.d for t, e in mm if len(mm) == 1 and drawn(M, t)]
    out.append(("signer's response is blinded by fresh randomness", len(fr) == 1 and all(t is None or t.args[1] != fr[0].args[1] for t in fams)))
    # the ring closes
    st = lambda k, s, c: step(m, f("I"), k, s, c)[0]
    b = at(before, i)
    a = at(after, i)
    sub = lambda t, k: subst(t, {i.single_atom(): I(k)})
    cj = iter_(j, f("C"), lambda k, c: st(mix(k), sub(b, k), c))
    c1 = st(pk, sj, cj)
    last = iter_(n - j - 1, c1, lambda k, c: st(mix(j + k), sub(a, j + 1 + k), c))
    out.append(("challenges close the ring, signer last", imp(ieq(j, n), eqS(c1, f("C")))))
    out.append(("challenges close the ring", imp(lt(j, n), eqS(st(mix(n - 1), sub(a, n), last), f("C")))))
    for nm in ("PubKeys", "S"):
        out.append((nm + " is newly allocated", f(nm).root not in M.pre.mem))
    return out


def sign_spec(C, a):
    m, x = C.bytes(a[0]), a[2]
    n, mix = C.vec(a[1])

    def good(M, v):
        c2 = Ctx(M.ex, M.st, "check")
        f = lambda y: c2.field(v, RS_, y)
        out = []
        if not n.is_const():
            return good_any(M, c2, f, m, x, n, mix)
        pk = BASE().scale(x)
        img = HP(encP(pk)).scale(x)
        out.append(("key image is x*Hp(xG)", eqP(f("I"), img)))
        keys, ss = c2.elems(f("PubKeys")), c2.elems(f("S"))
        want = sorted([pk] + [mix(i) for i in range(n.cval())], key=hash)
        out.append(("ring is the mixin plus the signer", sorted(keys, key=hash) == want))
        out.append(("one response per ring member", len(ss) == len(keys)))
        c = chain(m, f("I"), keys, ss, f("C"))
        out.append(("challenges close the ring", eqS(c, f("C"))))
        rs = set(M.st.rands)
        seen = set()
        for k, s in enumerate(ss):
            if keys[k] == pk:
                fr = [t for mm in s.d for t, e in mm if t in rs and len(mm) == 1]
                out.append(("signer's response is blinded by fresh randomness",
                            len(fr) == 1 and fr[0] not in seen))
                seen |= set(fr[:1])
            else:
                t = s.single_atom()
                out.append(("decoy response %d is freshly sampled" % k, t is not None and t in rs and t not in seen))
                seen.add(t)
        for nm in ("PubKeys", "S"):
            r = f(nm).root
            out.append((nm + " is newly allocated", r not in M.pre.mem))
        M.signpos = [k for k in range(len(keys)) if keys[k] == pk]
        return out
    return [Case(True, Pred(good))]


Contract(P + "Sign", ["C08"], sign_in, sign_spec, dims={"n": [0, 1, 2, 3, 4]}, apply=False)


def complete(L, n):
    h = L.h
    args = sign_in(h, n)
    for st, v in L.calls(L.st, P + "Sign", args):
        for s2, r in L.calls(st, P + "Verify", [args[0], v]):
            if I(n).is_const() or len(s2.choices) != 1:
                L.need(s2, "a signature verifies", r)
                continue
            j = s2.choices[0][1]
            for what, c in (("last", ieq(j, n)), ("not last", lt(j, n))):
                if L.ex.decide(s2, c) is not False:
                    L.need(s2.assume(c), "a signature with the signer %s verifies" % what, r)


Lemma("blsag completeness", ["C08"], complete, dims={"n": [0, 1, 2, 3]})
