"""Derived geometry: incidence and orientation of constructed objects."""
from harness import *

LEVEL = "proof"


def drop(v, dim):
    return (v[(dim + 1) % 3], v[(dim + 2) % 3])


def check(chk):
    chk.rule = ("Every constructor of a derived object (plane through points, line through points or planes, "
                "intersection, projection, offset, reduction) is value-numbered for all inputs; its components must be "
                "proportional, with the right sign, to the textbook expression.")
    s = chk.session("geom.cpp")
    x, y, z, w, a, b, c, d, e, f, g, h = V(*"xyzwabcdefgh")
    P1, P2, P3 = (x, y, z), (a, b, c), (e, f, g)
    W2, W3 = AND(NE0(w), NE0(d)), AND(AND(NE0(w), NE0(d)), NE0(h))

    # plane through three points: P1/w, P2/d, P3/h
    u = vsub(scale(P3, d), scale(P2, h))
    v = vsub(scale(P1, d), scale(P2, w))
    C = cross(u, v)
    wh = pmul(w, h)
    ref = list(scale(C, pmul(wh, pmul(d, d)))) + [pmul(dot(C, P2), pmul(wh, d))]
    with chk.ob("plane through three homogeneous points") as o:
        r = o.run("wv_hs3_3h", *P1, w, *P2, d, *P3, h, Out(4))
        o.never(not_pos_multiple(r, [N(q) for q in ref]), W3)
    C = cross(vsub(P3, P2), vsub(P1, P2))
    with chk.ob("plane through three integer points") as o:
        r = o.run("wv_hs3_3e", *P1, *P2, *P3, Out(4))
        o.never(not_pos_multiple(r, [N(q) for q in list(C) + [dot(C, P1)]]))
    with chk.ob("plane with a given normal through a point") as o:
        r = o.run("wv_hs3_np", a, b, c, *P1, w, Out(4))
        o.never(not_pos_multiple(r, [N(q) for q in scale(P2, pmul(w, w))] + [N(pmul(dot(P2, P1), w))]), NE0(w))
    for dim in range(3):
        with chk.ob("axis aligned plane, axis %d" % dim) as o:
            r = o.run("wv_hs3_axis", dim, a, b, Out(4))
            ref = [0, 0, 0, a]
            ref[dim] = b
            o.never(not_pos_multiple(r, [N(q) for q in ref]), NE0(b))
        with chk.ob("2D half-space extruded along axis %d" % dim) as o:
            r = o.run("wv_hs3_extrude2", a, b, d, dim, Out(4))
            ref = [0, 0, 0, d]
            ref[(dim + 1) % 3], ref[(dim + 2) % 3] = a, b
            o.never(not_pos_multiple(r, [N(q) for q in ref]))
        with chk.ob("2D point projected onto a plane along axis %d" % dim) as o:
            # plane normal P2, distance d; point (x, y)/w
            r = o.run("wv_hs3_project", a, b, c, d, x, y, w, dim, Out(4))
            n = P2[dim]
            q = [None] * 3
            q[(dim + 1) % 3], q[(dim + 2) % 3] = pmul(x, n), pmul(y, n)
            q[dim] = psub(pmul(d, w), padd(pmul(x, P2[(dim + 1) % 3]), pmul(y, P2[(dim + 2) % 3])))
            o.never(not_same_point(r, [N(t) for t in q] + [N(pmul(w, n))]), AND(NE0(n), NE0(w)))
        with chk.ob("3D point dropping axis %d" % dim) as o:
            r = o.run("wv_hp3_drop", x, y, z, w, dim, Out(3))
            o.never(not_same_point(r, [N(t) for t in drop(P1, dim)] + [N(w)]), NE0(w))
    with chk.ob("2D line through two points") as o:
        r = o.run("wv_hs2_2e", a, b, x, y, Out(3))
        n = (psub(b, y), psub(x, a))     # left of p1 -> p2 is positive
        o.never(not_pos_multiple(r, [N(n[0]), N(n[1]), N(dot(n, (a, b)))]))

    # lines
    d12 = vsub(scale(P2, w), scale(P1, d))
    wd = pmul(w, d)
    ref = [pmul(t, wd) for t in d12] + [pmul(t, wd) for t in cross(P1, P2)]
    with chk.ob("line through two homogeneous points") as o:
        r = o.run("wv_pl_2h", *P1, w, *P2, d, Out(6))
        o.never(not_pos_multiple(r, [N(q) for q in ref]), W2)
    with chk.ob("line through two integer points") as o:
        r = o.run("wv_pl_2e", *P1, *P2, Out(6))
        o.never(not_pos_multiple(r, [N(q) for q in list(vsub(P2, P1)) + list(cross(P1, P2))]))
    with chk.ob("line common to two planes") as o:
        # planes (x,y,z | w) and (a,b,c | d)
        r = o.run("wv_pl_2p", *P1, w, *P2, d, Out(6))
        m = vsub(scale(P1, d), scale(P2, w))
        o.never(not_pos_multiple(r, [N(q) for q in list(cross(P1, P2)) + list(m)]))
    # a line through P1/w (w > 0) with direction P2, scaled by k
    k = V("k")
    dl = scale(P2, pmul(k, w))
    ml = scale(cross(P1, P2), k)
    L = list(dl) + list(ml)
    ok = AND(AND(NE0(w), NE0(k)), NOT(allzero(P2)))
    with chk.ob("intersection of a line and a plane") as o:
        r = o.run("wv_pl_meet", *L, e, f, g, h, Out(4))
        nD, nP = dot(P3, P2), dot(P3, P1)
        ref = [padd(pmul(p, nD), pmul(q, psub(pmul(h, w), nP))) for p, q in zip(P1, P2)] + [pmul(w, nD)]
        o.never(not_same_point(r, [N(q) for q in ref]), AND(ok, NE0(nD)))
    with chk.ob("line test of a homogeneous point") as o:
        r = o.run("wv_pl_on_h", *L, e, f, g, h)
        on = allzero(cross(vsub(scale(P3, w), scale(P1, h)), P2))
        o.equal(r, on, AND(ok, NE0(h)))
    with chk.ob("line test of an integer point") as o:
        r = o.run("wv_pl_on_e", *L, e, f, g)
        o.equal(r, allzero(cross(vsub(scale(P3, w), P1), P2)), ok)
    with chk.ob("line test of a plane parallel to the line") as o:
        n = cross(P2, P3)
        r = o.run("wv_pl_on_p", *L, *n, h)
        o.equal(r, EQ0(psub(dot(n, P1), pmul(h, w))), ok)
    with chk.ob("line test of a plane not parallel to the line") as o:
        r = o.run("wv_pl_on_p", *L, e, f, g, h)
        o.never(r, AND(ok, NE0(dot(P3, P2))))
    for dim in range(3):
        with chk.ob("line projected along axis %d" % dim) as o:
            r = o.run("wv_pl_proj", *L, dim, Out(3))
            dd = drop(P2, dim)
            n = (pneg(dd[1]), dd[0])
            ref = [pmul(n[0], pmul(k, w)), pmul(n[1], pmul(k, w)), pmul(dot(n, drop(P1, dim)), k)]
            o.never(not_pos_multiple(r, [N(q) for q in ref]), ok)
    l6 = [var("l%d" % i) for i in range(6)]
    for nm, fn in (("operator-", "wv_pl_neg"), ("in-place negation", "wv_pl_negate")):
        with chk.ob("line reversed by %s" % nm) as o:
            o.never(not_pos_multiple(o.run(fn, *l6, Out(6)), [N(pneg(q)) for q in l6]))
    with chk.ob("line validity") as o:
        o.equal(o.run("wv_pl_valid", *l6), NOT(allzero(l6[:3])))

    # points
    with chk.ob("difference of two homogeneous points") as o:
        r = o.run("wv_hp3_diff", *P1, w, *P2, d, Out(4))
        ref = [psub(pmul(p, d), pmul(q, w)) for p, q in zip(P1, P2)] + [pmul(w, d)]
        o.never(not_same_point(r, [N(q) for q in ref]), W2)
    with chk.ob("point moved by a rational offset") as o:
        r = o.run("wv_hp3_add", *P1, w, *P2, d, Out(4))
        ref = [padd(pmul(p, d), pmul(q, w)) for p, q in zip(P1, P2)] + [pmul(w, d)]
        o.never(not_same_point(r, [N(q) for q in ref]), W2)

    # common factor removal: every component is a multiple of `k`
    with chk.ob("point reduction keeps the point and makes the denominator positive") as o:
        r = o.run("wv_hp3_reduce", *P1, w, Out(4))
        o.never(not_same_point(r, [N(q) for q in P1] + [N(w)]), NE0(w), "same point")
        o.never(map1(lambda v: TRUE if v <= 0 else FALSE, nsgn(r[3])), NE0(w), "positive denominator")
    with chk.ob("plane reduction keeps the half-space") as o:
        r = o.run("wv_hs3_reduce", *P1, w, Out(4))
        o.never(not_pos_multiple(r, [N(q) for q in P1] + [N(w)]), NOT(allzero(P1)))
    with chk.ob("line reduction keeps the directed line") as o:
        r = o.run("wv_pl_reduce", *l6, Out(6))
        o.never(not_pos_multiple(r, [N(q) for q in l6]), NOT(allzero(l6[:3])))
    with chk.ob("vector reduction keeps the direction") as o:
        r = o.run("wv_v3_reduce", *P1, Out(3))
        o.never(not_pos_multiple(r, [N(q) for q in P1]), NOT(allzero(P1)))
