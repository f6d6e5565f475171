"""Plane-side classification."""
from harness import *

LEVEL = "proof"


def check(chk):
    chk.rule = ("Every entry point that classifies a point or parallel plane against a half-space is "
                "value-numbered over its whole control-flow graph (all inputs at once); the resulting gated "
                "value must be identical, in normal form, to sign(n.p - d*w)*sign(w).")
    s = chk.session("geom.cpp")
    a, b, c, d, x, y, z, w, e, f, g, h = V(*"abcdxyzwefgh")
    n = (a, b, c)
    W = NE0(w)
    side3 = psub(dot(n, (x, y, z)), pmul(d, w))
    spec3 = mulsign(S(side3), S(w))
    spec3e = S(psub(dot(n, (x, y, z)), d))
    spec2 = mulsign(S(psub(dot((a, b), (x, y)), pmul(d, w))), S(w))
    spec2e = S(psub(dot((a, b), (x, y)), d))
    with chk.ob("side of a 3D half-space, homogeneous point") as o:
        o.equal(nsgn(o.run("wv_hs3_side_h", a, b, c, d, x, y, z, w)), spec3, W)
        o.clean(W)
    with chk.ob("side of a 3D half-space, integer point") as o:
        o.equal(nsgn(o.run("wv_hs3_side_e", a, b, c, d, x, y, z)), spec3e)
    with chk.ob("coincidence with a 3D plane, homogeneous point") as o:
        o.equal(o.run("wv_hs3_on_h", a, b, c, d, x, y, z, w), EQ0(side3), W)
    with chk.ob("coincidence with a 3D plane, integer point") as o:
        o.equal(o.run("wv_hs3_on_e", a, b, c, d, x, y, z), zero(spec3e))
    with chk.ob("side of a 2D half-space, homogeneous point") as o:
        o.equal(nsgn(o.run("wv_hs2_side_h", a, b, d, x, y, w)), spec2, W)
    with chk.ob("side of a 2D half-space, integer point") as o:
        o.equal(nsgn(o.run("wv_hs2_side_e", a, b, d, x, y)), spec2e)
    with chk.ob("coincidence with a 2D line, homogeneous point") as o:
        o.equal(o.run("wv_hs2_on_h", a, b, d, x, y, w), zero(spec2), W)
    with chk.ob("coincidence with a 2D line, integer point") as o:
        o.equal(o.run("wv_hs2_on_e", a, b, d, x, y), zero(spec2e))
    # A parallel plane lies at dist2/n2 along the shared axis.
    t = V("t")
    for dim in range(3):
        with chk.ob("side of a parallel plane, axis %d" % dim) as o:
            # other plane: normal = t * own normal (t != 0), distance h
            m = scale(n, t)
            r = o.run("wv_hs3_side_par", a, b, c, d, m[0], m[1], m[2], h, dim)
            # p satisfies n.p = h/t.  The test suite fixes the convention: the
            # result orders this plane against p along this plane's normal.
            spec = mulsign(S(psub(pmul(t, d), h)), S(t))
            assume = AND(NE0(t), NE0(n[dim]))
            o.equal(nsgn(r), spec, assume)
    with chk.ob("3D half-space validity") as o:
        o.equal(o.run("wv_hs3_valid", a, b, c, d), NOT(AND(AND(EQ0(a), EQ0(b)), EQ0(c))))
    with chk.ob("2D half-space validity") as o:
        o.equal(o.run("wv_hs2_valid", a, b, d), NOT(AND(EQ0(a), EQ0(b))))
    P3 = (a, b, c, d)
    for nm, fn in (("operator-", "wv_hs3_neg"), ("Negate", "wv_hs3_negate")):
        with chk.ob("3D half-space %s exchanges the sides" % nm) as o:
            r = o.run(fn, a, b, c, d, Out(4))
            o.never(not_pos_multiple(r, [N(pneg(v)) for v in P3]))
    for nm, fn in (("operator-", "wv_hs2_neg"), ("Negate", "wv_hs2_negate")):
        with chk.ob("2D half-space %s exchanges the sides" % nm) as o:
            r = o.run(fn, a, b, d, Out(3))
            o.never(not_pos_multiple(r, [N(pneg(v)) for v in (a, b, d)]))
    with chk.ob("2D half-space scaled by an integer") as o:
        k = V("k")
        r = o.run("wv_hs2_scale", a, b, d, k, Out(3))
        o.never(differs_any(r, [pmul(a, k), pmul(b, k), pmul(d, k)]))
