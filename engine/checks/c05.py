"""Plane and line equality and strict weak orders."""
from harness import *

LEVEL = "proof"


def T(n):
    return map1(lambda v: TRUE if v == 1 else FALSE, n)


def swo(o, run, mk, names, groups, valid, same, reference):
    """run(a, b) must be a strict weak order whose equivalence is `same`."""
    A, B, C = (mk(p) for p in "abc")
    ab, ba = run(A, B), run(B, A)
    va, vb, vc = valid(A), valid(B), valid(C)
    k = V("k")
    o.never(run(A, A), va, "irreflexive")
    o.never(AND(ab, ba), AND(va, vb), "asymmetric", groups=groups)
    inc = NOT(OR(ab, ba))
    forms = same(A, B)
    for f in forms:
        bad = AND(AND(va, vb), differs(inc, f))
        if bad is FALSE or lemmas(bad) is FALSE:
            forms = [f]
            break
    o.equal(inc, forms[0], AND(va, vb), "incomparable exactly when equal", groups=groups)
    known_form = None
    for ref in reference:
        bad = AND(AND(va, vb), differs(ab, ref(A, B)))
        if bad is FALSE or lemmas(bad) is FALSE:
            known_form = ref
    if known_form:
        # the result has the form of a lexicographic order on canonical
        # representatives, which is transitive for every input
        o.never(FALSE, TRUE, "transitive")
        return
    bc, ac = run(B, C), run(A, C)
    o.never(AND(AND(ab, bc), NOT(ac)), AND(AND(va, vb), vc), "transitive", groups=groups)


def check(chk):
    chk.rule = ("Equality and ordering entries are value-numbered for all inputs; equality must be 'same up to a "
                "positive factor' (or any factor where documented), and each ordering must be asymmetric, transitive "
                "and consistent with equality.")
    s = chk.session("geom.cpp")
    mk4 = lambda p: V(*[p + str(i) for i in range(4)])
    mk3 = lambda p: V(*[p + str(i) for i in range(3)])
    A, B = mk4("a"), mk4("b")
    A3, B3 = mk3("a"), mk3("b")
    nm = lambda n: [tuple("%s%d" % (p, i) for i in range(n)) for p in "abc"]
    G4, G3 = [tuple(nm(4))], [tuple(nm(3))]
    v4 = lambda p: NOT(allzero(p[:3]))
    v3 = lambda p: NOT(allzero(p[:2]))
    V4, V3_ = AND(v4(A), v4(B)), AND(v3(A3), v3(B3))
    k = V("k")
    o4 = (3, 0, 1, 2)
    o3 = (2, 0, 1)
    for name, fn, spec in (("3D half-space equality", "wv_hs3_eq", same_ray(A, B, o4)),
                           ("3D half-space inequality", "wv_hs3_ne", NOT(same_ray(A, B, o4))),
                           ("3D plane equality ignoring side", "wv_hs3_sameopp", same_ray(A, B, o4, False))):
        with chk.ob(name) as o:
            o.equal(o.run(fn, *A, *B), spec, V4, groups=G4)
            o.equal(o.run(fn, *A, *scale(A, k)),
                    {"wv_hs3_eq": GT0(k), "wv_hs3_ne": LT0(k), "wv_hs3_sameopp": TRUE}[fn],
                    AND(v4(A), NE0(k)), "multiple of itself")
    for name, fn, spec in (("2D half-space equality", "wv_hs2_eq", same_ray(A3, B3, o3)),
                           ("2D half-space inequality", "wv_hs2_ne", NOT(same_ray(A3, B3, o3))),
                           ("2D line equality ignoring side", "wv_hs2_sameline", same_ray(A3, B3, o3, False))):
        with chk.ob(name) as o:
            o.equal(o.run(fn, *A3, *B3), spec, V3_, groups=G3)
            o.equal(o.run(fn, *A3, *scale(A3, k)),
                    {"wv_hs2_eq": GT0(k), "wv_hs2_ne": LT0(k), "wv_hs2_sameline": TRUE}[fn],
                    AND(v3(A3), NE0(k)), "multiple of itself")
    # lines: direction D scaled by k, moment P x D
    L, M = V(*["l%d" % i for i in range(6)]), V(*["m%d" % i for i in range(6)])
    vl = lambda p: NOT(allzero(p[:3]))
    GL = [(tuple("l%d" % i for i in range(6)), tuple("m%d" % i for i in range(6)))]
    ol = (0, 1, 2)

    def line_same(p, q):
        return same_ray(p, q, ol)
    for name, fn, spec in (("line equality", "wv_pl_eq", line_same(L, M)), ("line inequality", "wv_pl_ne", NOT(line_same(L, M)))):
        with chk.ob(name) as o:
            o.equal(o.run(fn, *L, *M), spec, AND(vl(L), vl(M)), groups=GL)
            o.equal(o.run(fn, *L, *scale(L, k)), GT0(k) if fn == "wv_pl_eq" else LT0(k), AND(vl(L), NE0(k)), "multiple of itself")

    # orders
    def pivot(p):
        r = ZERO
        for x in reversed(p):
            r = ITE(NE0(x), pyabs(leaf(x)), r)
        return r

    def ref4(a, b):
        sa, sb = pivot(a[:3]), pivot(b[:3])
        sg = [nsgn(nsub(nmul(leaf(x), sb), nmul(leaf(y), sa))) for x, y in zip(a, b)]
        return lex_less(sg)
    with chk.ob("3D half-space order") as o:
        swo(o, lambda p, q: o.run("wv_hs3_cmp", *p, *q), mk4, 4, G4, v4, lambda p, q: [same_ray(p, q, o4), same_ray(p, q, (0, 1, 2))], [ref4])

    def up(p):
        return OR(GT0(p[1]), AND(EQ0(p[1]), GT0(p[0])))

    def ref3(p, q):
        cr = psub(pmul(p[0], q[1]), pmul(p[1], q[0]))
        fl = map2(lambda u, v: TRUE if u == v else FALSE, up(p), up(q))
        rot = map2(lambda u, v: leaf(u if v == 1 else -u), S(cr), fl)
        dx = map2(lambda u, v: leaf(u * v), S(psub(pmul(p[2], q[0]), pmul(q[2], p[0]))), S(pmul(p[0], q[0])))
        dy = map2(lambda u, v: leaf(u * v), S(psub(pmul(p[2], q[1]), pmul(q[2], p[1]))), S(pmul(p[1], q[1])))
        d = ITE(NE0(p[0]), dx, dy)
        return map2(lambda r, t: TRUE if r > 0 or (r == 0 and t < 0) else FALSE, rot, d)
    with chk.ob("2D line order ignoring side") as o:
        swo(o, lambda p, q: o.run("wv_hs2_sideless", *p, *q), mk3, 3, G3, v3, lambda p, q: [same_ray(p, q, o3, False), same_ray(p, q, (0, 1), False)], [ref3])
