"""Orientation and rotation predicates."""
from harness import *

LEVEL = "proof"


def drop(v, dim):
    return (v[(dim + 1) % 3], v[(dim + 2) % 3])


def cross2(u, v):
    return psub(pmul(u[0], v[1]), pmul(u[1], v[0]))


def upper(x, y):
    """the vector's rotation from the x axis is in [0, half a turn)"""
    return OR(GT0(y), AND(EQ0(y), GT0(x)))


def check(chk):
    chk.rule = ("Every orientation / rotation predicate is value-numbered for all coordinates and all nonzero "
                "denominators of either sign; its gated result must be the sign of the exact cross product (or the "
                "rotation order built from it).")
    s = chk.session("geom.cpp")
    x, y, z, w, a, b, c, d, e, f, g, h = V(*"xyzwabcdefgh")
    W = AND(AND(NE0(w), NE0(d)), NE0(h))
    p2, p1, p3 = (x, y, z), (a, b, c), (e, f, g)
    G = [(("x", "y", "z", "w"), ("a", "b", "c", "d"), ("e", "f", "g", "h"))]
    for dim in range(3):
        u = tuple(psub(pmul(q, w), pmul(r, d)) for q, r in zip(drop(p1, dim), drop(p2, dim)))
        v = tuple(psub(pmul(q, w), pmul(r, h)) for q, r in zip(drop(p3, dim), drop(p2, dim)))
        # (p1-p2)/(d w), (p3-p2)/(h w): w appears squared
        spec = mulsign(S(cross2(u, v)), S(pmul(d, h)))
        for nm, fn in (("turn direction", "wv_hp3_twist"), ("reduced turn direction", "wv_hp3_twistr")):
            with chk.ob("%s of three homogeneous points, dropping axis %d" % (nm, dim)) as o:
                r = o.run(fn, dim, x, y, z, w, a, b, c, d, e, f, g, h)
                o.equal(nsgn(r), spec, W, groups=G)
                o.clean(W)
        u = vsub(drop(p1, dim), drop(p2, dim))
        v = vsub(drop(p3, dim), drop(p2, dim))
        with chk.ob("turn direction of three integer points, dropping axis %d" % dim) as o:
            o.equal(nsgn(o.run("wv_e3_twist", dim, *p2, *p1, *p3)), S(cross2(u, v)), groups=G)
        with chk.ob("reduced turn direction of three integer points, dropping axis %d" % dim) as o:
            o.equal(nsgn(o.run("wv_e3_twistr", dim, *p2, *p1, *p3)), S(cross2(u, v)), groups=G)
    with chk.ob("turn direction of three 2D integer points") as o:
        o.equal(nsgn(o.run("wv_e2_twist", x, y, a, b, e, f)), S(cross2((psub(a, x), psub(b, y)), (psub(e, x), psub(f, y)))))
    nz = AND(NOT(AND(EQ0(x), EQ0(y))), NOT(AND(EQ0(a), EQ0(b))))
    G2 = [(("x", "y"), ("a", "b"))]
    cr = psub(pmul(x, b), pmul(y, a))
    hv, hu = upper(x, y), upper(a, b)
    rot = ITE(hv, ITE(hu, GT0(cr), TRUE), ITE(hu, FALSE, GT0(cr)))
    same = map2(lambda p, q: TRUE if p == q else FALSE, hv, hu)
    half = ITE(same, GT0(cr), LT0(cr))
    for nm, fn, spec in (("rotation order", "wv_v2_rot", rot), ("rotation order functor", "wv_v2_rotc", rot),
                         ("half-rotation order", "wv_v2_half", half), ("half-rotation order functor", "wv_v2_halfc", half)):
        with chk.ob("%s of 2D vectors" % nm) as o:
            o.equal(o.run(fn, x, y, a, b), spec, nz, groups=G2)
            o.clean(nz)
    nv = (x, y, z)
    nu = (a, b, c)
    nz3 = AND(NOT(allzero(nv)), NOT(allzero(nu)))
    G3 = [(("x", "y", "z"), ("a", "b", "c"))]
    with chk.ob("same direction, 2D vectors") as o:
        o.equal(o.run("wv_v2_samedir", x, y, a, b), same_ray((x, y), (a, b), (0, 1)), nz, groups=G2)
    with chk.ob("same or opposite direction, 2D vectors") as o:
        o.equal(o.run("wv_v2_sameopp", x, y, a, b), same_ray((x, y), (a, b), (0, 1), False), nz, groups=G2)
    with chk.ob("same direction, 3D vectors") as o:
        o.equal(o.run("wv_v3_samedir", *nv, *nu), same_ray(nv, nu, (0, 1, 2)), nz3, groups=G3)
    with chk.ob("same or opposite direction, 3D vectors") as o:
        o.equal(o.run("wv_v3_sameopp", *nv, *nu), same_ray(nv, nu, (0, 1, 2), False), nz3, groups=G3)
    # pivot-free forms of the same facts, for any multiple k
    k = V("k")
    for nm, fn, v in (("2D", "wv_v2_samedir", (x, y)), ("3D", "wv_v3_samedir", nv)):
        with chk.ob("same direction as a multiple, %s vectors" % nm) as o:
            o.equal(o.run(fn, *v, *scale(v, k)), GT0(k), AND(NE0(k), NOT(allzero(v))))
    for nm, fn, v in (("2D", "wv_v2_sameopp", (x, y)), ("3D", "wv_v3_sameopp", nv)):
        with chk.ob("same or opposite direction as a multiple, %s vectors" % nm) as o:
            o.equal(o.run(fn, *v, *scale(v, k)), TRUE, AND(NE0(k), NOT(allzero(v))))
    with chk.ob("2D zero vector test") as o:
        o.equal(o.run("wv_v2_iszero", x, y), AND(EQ0(x), EQ0(y)))
    with chk.ob("3D zero vector test") as o:
        o.equal(o.run("wv_v3_iszero", x, y, z), allzero(nv))
    ar = (("2D cross product", "wv_v2_cross", (x, y, a, b), (cr,)),
          ("2D dot product", "wv_v2_dot", (x, y, a, b), (dot((x, y), (a, b)),)),
          ("2D difference", "wv_v2_sub", (x, y, a, b), vsub((x, y), (a, b))),
          ("2D negation", "wv_v2_neg", (x, y), (pneg(x), pneg(y))),
          ("2D squared length", "wv_v2_scalesq", (x, y), (dot((x, y), (x, y)),)),
          ("quarter turn", "wv_v2_perp", (x, y), (pneg(y), x)),
          ("3D cross product", "wv_v3_cross", nv + nu, cross(nv, nu)),
          ("3D dot product", "wv_v3_dot", nv + nu, (dot(nv, nu),)),
          ("3D sum", "wv_v3_add", nv + nu, vadd(nv, nu)),
          ("3D difference", "wv_v3_sub", nv + nu, vsub(nv, nu)),
          ("3D scaling", "wv_v3_scale", nv + (d,), scale(nv, d)),
          ("3D negation", "wv_v3_neg", nv, tuple(map(pneg, nv))),
          ("3D in-place negation", "wv_v3_negate", nv, tuple(map(pneg, nv))),
          ("3D squared length", "wv_v3_scalesq", nv, (dot(nv, nv),)))
    for nm, fn, args, spec in ar:
        with chk.ob(nm) as o:
            o.never(differs_any(o.run(fn, *args, Out(len(spec))), spec))
    for dim in range(3):
        with chk.ob("3D vector dropping axis %d" % dim) as o:
            o.never(differs_any(o.run("wv_v3_drop", x, y, z, dim, Out(2)), drop(nv, dim)))
