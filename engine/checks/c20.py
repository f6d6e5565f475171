"""The order of directions after the R transformation."""
from harness import *


def lexsign(ps):
    r = ZERO
    for p in reversed(ps):
        s = S(p)
        r = map2(lambda a, b: leaf(a if a else b), s, r)
    return r


def check(chk):
    chk.rule = ("The comparisons are interpreted for all inputs at once; the sign must be the one of the cross product of the "
                "transformed bivectors for every small enough epsilon, read off the cross product as a polynomial in epsilon, "
                "which is derived from the transformed points.")
    chk.anchors = ("RXYCompareBivector", "RTransform")
    s = chk.session("geom.cpp", defines=("-DNDEBUG",))
    a, b, c, d, e, f, g, k = V("a", "b", "c", "d", "e", "f", "g", "k")
    x, y, z, w = V("x", "y", "z", "w")
    with chk.ob("transformed point") as o:
        r = o.run("wv_rtrans", x, y, z, w, k, Out(4))
        k2 = pmul(k, k)
        want = (pmul(x, k2), pmul(y, k2), padd(pmul(padd(pmul(z, k), y), k), x), pmul(w, k2))
        o.never(not_same_point(r, [N(q) for q in want]), AND(NE0(k), NE0(w)))
    # normals transform so that planes keep their points: n' = (k^2 x - z, k^2 y - k z, k^2 z) / k^2
    u, v = (a, b, c), (d, e, f)
    t = [(psub(pmul(pmul(k, k), q[0]), q[2]), psub(pmul(pmul(k, k), q[1]), pmul(k, q[2]))) for q in (u, v)]
    cr = psub(pmul(t[0][0], t[1][1]), pmul(t[0][1], t[1][0]))
    kv = vid(k)
    co = {}
    for m, q in cr.t.items():
        e_ = dict(m).get(kv, 0)
        rest = tuple(p for p in m if p[0] != kv)
        co.setdefault(e_, {})[rest] = q
    order = [mkpoly(co[i]) for i in sorted(co, reverse=True)]
    spec = lexsign(order)
    with chk.ob("bivector comparison") as o:
        o.equal(o.run("wv_rxy", a, b, c, d, e, f), spec)
    nz = AND(NOT(allzero(u)), NOT(allzero(v)))
    with chk.ob("bivector comparison of multiples") as o:
        o.equal(o.run("wv_rxy", a, b, c, *scale(u, k)), 0)
    with chk.ob("zero exactly when parallel") as o:
        r = o.run("wv_rxy", a, b, c, d, e, f)
        o.equal(map1(lambda q: TRUE if q == 0 else FALSE, r), allzero(cross(u, v)))
    with chk.ob("swapping the bivectors negates") as o:
        r = o.run("wv_rxy", d, e, f, a, b, c)
        o.equal(map1(lambda q: leaf(-q), r), spec)
    for pos in (0, 1):
        with chk.ob("bivector against the %s side of a split" % ("positive" if pos else "negative")) as o:
            r = o.run("wv_rxyside", a, b, c, d, e, f, g, pos)
            o.equal(r, map1(lambda q: leaf(-q if pos else q), spec))
            o.clean()
