"""Homogeneous point comparison."""
from harness import *

LEVEL = "proof"


def check(chk):
    chk.rule = ("Each point comparison entry is value-numbered for all coordinates and all nonzero denominators of "
                "either sign, and its gated result must be the comparison of the rational coordinates.")
    s = chk.session("geom.cpp")
    x, y, z, w, a, b, c, d = V(*"xyzwabcd")
    W = AND(NE0(w), NE0(d))
    W1 = NE0(w)
    G3 = [(("x", "y", "z", "w"), ("a", "b", "c", "d"))]
    G2 = [(("x", "y", "w"), ("a", "b", "d"))]
    eq = [EQ0(psub(pmul(p, d), pmul(q, w))) for p, q in ((x, a), (y, b), (z, c))]
    eqe = [EQ0(psub(p, pmul(q, w))) for p, q in ((x, a), (y, b), (z, c))]
    E3 = AND(AND(eq[0], eq[1]), eq[2])
    E2 = AND(eq[0], eq[1])
    F3 = AND(AND(eqe[0], eqe[1]), eqe[2])
    F2 = AND(eqe[0], eqe[1])

    def t(name, fn, args, spec, assume, groups):
        with chk.ob(name) as o:
            o.equal(o.run(fn, *args), spec, assume, groups=groups)
            o.clean(assume)
    t("3D equality", "wv_hp3_eq", (x, y, z, w, a, b, c, d), E3, W, G3)
    t("3D inequality", "wv_hp3_ne", (x, y, z, w, a, b, c, d), NOT(E3), W, G3)
    t("3D equality with an integer point", "wv_hp3_eq_e", (x, y, z, w, a, b, c), F3, W1, G3)
    t("3D inequality with an integer point", "wv_hp3_ne_e", (x, y, z, w, a, b, c), NOT(F3), W1, G3)
    t("integer point equal to 3D point", "wv_e_eq_hp3", (x, y, z, w, a, b, c), F3, W1, G3)
    t("2D equality", "wv_hp2_eq", (x, y, w, a, b, d), E2, W, G2)
    t("2D inequality", "wv_hp2_ne", (x, y, w, a, b, d), NOT(E2), W, G2)
    t("2D equality with an integer point", "wv_hp2_eq_e", (x, y, w, a, b), F2, W1, G2)
    t("2D inequality with an integer point", "wv_hp2_ne_e", (x, y, w, a, b), NOT(F2), W1, G2)
    t("integer point equal to 2D point", "wv_e_eq_hp2", (x, y, w, a, b), F2, W1, G2)
    sg = [cmp_frac(p, w, q, d) for p, q in ((x, a), (y, b), (z, c))]
    t("3D lexicographic order (static)", "wv_hp3_lex", (x, y, z, w, a, b, c, d), lex_less(sg), W, G3)
    t("3D lexicographic order (member)", "wv_hp3_lexm", (x, y, z, w, a, b, c, d), lex_less(sg), W, G3)
    t("3D topness order", "wv_hp3_top", (x, y, z, w, a, b, c, d), lex_less(sg[::-1]), W, G3)
    t("2D lexicographic order", "wv_hp2_lex", (x, y, w, a, b, d), lex_less(sg[:2]), W, G2)
    for i in range(3):
        with chk.ob("three-way comparison of component %d" % i) as o:
            o.equal(nsgn(o.run("wv_hp3_cmpc", x, y, z, w, a, b, c, d, i)), sg[i], W, groups=G3)
        with chk.ob("less-than on component %d" % i) as o:
            o.equal(o.run("wv_hp3_ltc", x, y, z, w, a, b, c, d, i), map1(lambda v: TRUE if v < 0 else FALSE, sg[i]), W, groups=G3)
        with chk.ob("equality of component %d" % i) as o:
            o.equal(o.run("wv_hp3_eqc", x, y, z, w, a, b, c, d, i), eq[i], W, groups=G3)
    p = (x, y, z)
    q = (a, b, c)
    se = [S(psub(u, v)) for u, v in zip(p, q)]
    ee = AND(AND(EQ0(psub(x, a)), EQ0(psub(y, b))), EQ0(psub(z, c)))
    t("integer 3D equality", "wv_e3_eq", p + q, ee, TRUE, G3)
    t("integer 3D inequality", "wv_e3_ne", p + q, NOT(ee), TRUE, G3)
    t("integer 3D lexicographic order", "wv_e3_lex", p + q, lex_less(se), TRUE, G3)
    t("integer 2D equality", "wv_e2_eq", (x, y, a, b), AND(EQ0(psub(x, a)), EQ0(psub(y, b))), TRUE, G2)
    t("strict (representation) equality", "wv_hp3_stricteq", (x, y, z, w, a, b, c, d), AND(ee, EQ0(psub(w, d))), TRUE, G3)
    t("3D vector equality", "wv_v3_eq", p + q, ee, TRUE, G3)
    t("2D vector equality", "wv_v2_eq", (x, y, a, b), AND(EQ0(psub(x, a)), EQ0(psub(y, b))), TRUE, G2)
    t("3D point validity", "wv_hp3_valid", (x, y, z, w), NE0(w), TRUE, G3)
    lt = cmp_frac(x, w, a, d)
    t("rational less-than", "wv_rat_lt", (x, w, a, d), map1(lambda v: TRUE if v < 0 else FALSE, lt), W, ())
    t("rational equality", "wv_rat_eq", (x, w, a, d), eq[0], W, ())
    # rounding a rational num/old to denominator new
    num, old, new = V("num", "old", "new")
    for nm, fn, up in (("up", "wv_rat_up", 1), ("down", "wv_rat_down", -1)):
        with chk.ob("rational rounded %s" % nm) as o:
            r, = o.run(fn, num, old, new, Out(1))
            T = pmul(num, new)
            # r/new >= num/old  and  (r -+ 1 step)/new < num/old, cleared of denominators
            e = nmul(leaf(up), nsub(nmul(r, leaf(old)), leaf(T)))          # up*(r*old - num*new)
            sg_e = map2(lambda u, v: leaf(u * v), nsgn(e), S(pmul(old, new)))
            bad = map1(lambda v: TRUE if v < 0 else FALSE, sg_e)           # on the wrong side
            step = map2(lambda u, v: leaf(pmul(u, v)), leaf(pmul(old, 1)), map1(lambda v: leaf(v or 1), S(new)))
            e2 = nsub(e, nmul(leaf(1), step))
            sg2 = map2(lambda u, v: leaf(u * v), nsgn(e2), S(pmul(old, new)))
            bad = OR(bad, map1(lambda v: TRUE if v >= 0 else FALSE, sg2))  # not the closest
            # meaning of truncating division for the opaque quotient
            o.never(bad, AND(AND(NE0(old), NE0(new)), div_axioms(T, old)))


def div_axioms(T, od):
    """Facts about q = T div od (truncated) and T - q*od."""
    q = var_named("<" + "div")  # any quotient variables created so far
    r = TRUE
    for v in q:
        t = v.info
        qa = mkpoly({((v.id, 1),): 1})
        n, m = t.args
        rem = psub(n, pmul(qa, m))
        srem, sn, sm = S(rem), S(n), S(m)
        r = AND(r, map2(lambda p, k: TRUE if p == 0 or p == k else FALSE, srem, sn))
        # |rem| < |m|
        for k in (rem, pneg(rem)):
            r = AND(r, map2(lambda p, q: TRUE if p == q else FALSE, S(padd(m, k)), sm))
    return r


def var_named(prefix):
    return [v for v in VARS if isinstance(v.info, Term) and v.info.op == "div"]
