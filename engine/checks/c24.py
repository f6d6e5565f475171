"""Extreme vertices, projected area and centroid of convex polygons."""
import random
from harness import *
import polygen as pg
from checks.c19 import Shape, asleaf, sg, group

LEVEL = "other"


def order_atoms(sh):
    r = list(sh.nv) + cross_list(sh)
    for k in range(sh.n):
        r += [sh.v[k][3], sh.height(sh.l[k]), sh.hn(sh.l[k])]
        if k:
            r.append(psub(pmul(sh.height(sh.v[0]), sh.v[k][3]), pmul(sh.height(sh.v[k]), sh.v[0][3])))
            r.append(psub(pmul(sh.hn(sh.v[0]), sh.v[k][3]), pmul(sh.hn(sh.v[k]), sh.v[0][3])))
    return [p for p in r if isinstance(p, Poly)]


def cross_list(sh):
    return list(cross(sh.nv, sh.h[:3]))


class VShape(Shape):
    def hn(self, v):
        return dot(self.h[:3], v[:3])

    def ctx(self, full):
        c = TRUE
        for p in order_atoms(self):
            want = sg(self.ev(p))
            c = AND(c, map1(lambda x: TRUE if x == want else FALSE, S(p)))
        return c

    def signature(self, full):
        return tuple(sg(self.ev(p)) for p in order_atoms(self)[6:])


def patterns(n, dd, nsign, rng, cap):
    seen = {}
    for pts in pg.shapes(n, rng):
        for ln in pg.lines(pts, rng):
            for rot in range(n):
                sh = VShape(n, dd, pg.instance(pts, ln, rot, dd, rng, nsign))
                if all(sh.ev(p) == 0 for p in cross_list(sh)):
                    continue
                seen.setdefault(sh.signature(True), sh)
    r = list(seen.values())
    if cap and len(r) > cap:
        rng.shuffle(r)
        r = r[:cap]
    return r


def heights(sh):
    from fractions import Fraction
    flip = sg(sh.ev(sh.nv[sh.dd]))
    return [Fraction(flip * sh.ev(sh.height(v)), sh.ev(v[3])) for v in sh.v]


def h2n(sh):
    flip = sg(sh.ev(sh.nv[sh.dd]))
    return [p if flip > 0 else pneg(p) for p in sh.h2[:2]]


def extreme(chk, o, sh, three):
    g = sh.ctx(True)
    n = sh.n
    o.entry = "wv_extreme3" if three else "wv_extreme2"
    if three:
        r = chk.s.run("wv_extreme3", In(sh.args), n, sh.dd, *sh.h[:3], ctx=g)
    else:
        r = chk.s.run("wv_extreme2", In(sh.args), n, sh.dd, *h2n(sh), sh.dd, ctx=g)
    o.where = o.where or chk.construct(chk.s)
    r = asleaf(r, g)
    if r is None:
        return UNDECIDED, "index"
    hs = heights(sh)
    top = [k for k in range(n) if hs[k] == max(hs)]
    want = [k for k in top if (k - 1) % n not in top][0]
    return (PROVED, None) if r == want else (REFUTED, "index %s instead of %s" % (r, want))


def opposite(chk, o, sh):
    g = sh.ctx(True)
    n = sh.n
    o.entry = "wv_oppositeedges"
    r = chk.s.run("wv_oppositeedges", In(sh.args), n, sh.dd, *h2n(sh), Out(2, "i64"), ctx=g)
    o.where = o.where or chk.construct(chk.s)
    r = [asleaf(x, g) for x in r]
    if None in r:
        return UNDECIDED, "indices"
    hs = heights(sh)
    ok = all(0 <= k < n for k in r) and hs[(r[0] + 1) % n] > hs[r[0]] and hs[(r[1] + 1) % n] < hs[r[1]]
    return (PROVED, None) if ok else (REFUTED, "edges %s" % r)


def shoelace(v, drop):
    """numerator and denominator of twice the signed area, and of the moments"""
    i, j = pg.cyc(drop)
    n = len(v)
    den = 1
    for p in v:
        den = pmul(den, pmul(p[3], p[3]))
    a = 0
    mx = my = 0
    den3 = 1
    for p in v:
        den3 = pmul(den3, ppow(p[3], 3))
    for k in range(n):
        p, q = v[k], v[(k + 1) % n]
        c = psub(pmul(p[i], q[j]), pmul(q[i], p[j]))
        rest = rest3 = 1
        for t in range(n):
            if t == k or t == (k + 1) % n:
                rest = pmul(rest, v[t][3])
                rest3 = pmul(rest3, v[t][3])
            else:
                rest = pmul(rest, ppow(v[t][3], 2))
                rest3 = pmul(rest3, ppow(v[t][3], 3))
        a = padd(a, pmul(c, rest))
        mx = padd(mx, pmul(pmul(c, padd(pmul(p[i], q[3]), pmul(q[i], p[3]))), rest3))
        my = padd(my, pmul(pmul(c, padd(pmul(p[j], q[3]), pmul(q[j], p[3]))), rest3))
    return a, den, mx, my, den3


def measures(chk, n, dd):
    drop = dd
    args = [var(x) for x in pg.names(n)]
    v = [args[4 + 10 * i:8 + 10 * i] for i in range(n)]
    g = TRUE
    for p in v:
        g = AND(g, NE0(p[3]))
    for drop in range(3):
        a, den, mx, my, den3 = shoelace(v, drop)
        with chk.ob("projected area, %d vertices, dropped axis %d" % (n, drop)) as o:
            r = o.run("wv_area", In(args), n, dd, drop, Out(2), ctx=g)
            o.never(nonzero(nsub(nmul(r[0], N(pmul(2, den))), nmul(r[1], N(a)))), g, "shoelace formula")
            o.never(zero(r[1]), g, "denominator is nonzero")
        with chk.ob("projected centroid, %d vertices, dropped axis %d" % (n, drop)) as o:
            r = o.run("wv_centroid2", In(args), n, dd, drop, Out(3), ctx=g)
            # centroid = m / den3 / (3 a / den)
            for x, m, w in ((r[0], mx, "first"), (r[1], my, "second")):
                o.never(nonzero(nsub(nmul(x, N(pmul(3, pmul(a, den3)))), nmul(r[2], N(pmul(m, den))))), g, w + " coordinate")
    with chk.ob("centroid, %d vertices, dropped axis %d" % (n, dd)) as o:
        g3 = AND(g, NE0(args[dd]))
        a, den, mx, my, den3 = shoelace(v, dd)
        r = o.run("wv_centroid3", In(args), n, dd, Out(4), ctx=g3)
        i, j = pg.cyc(dd)
        for x, m, w in ((r[i], mx, "first"), (r[j], my, "second")):
            o.never(nonzero(nsub(nmul(x, N(pmul(3, pmul(a, den3)))), nmul(r[3], N(pmul(m, den))))), g3, w + " projected coordinate")
        e = N(0)
        for k in range(3):
            e = nadd(e, nmul(r[k], N(args[k])))
        o.never(nonzero(nsub(e, nmul(r[3], N(args[3])))), g3, "lies on the polygon's plane")


def check(chk):
    chk.anchors = ("::GetExtremeIndexBisect", "::GetOppositeEdgeIndicesBisect", "::GetProjectedCentroid", "::GetCentroid", "::GetProjectedArea")
    chk.rule = ("The binary searches are interpreted once per pattern of edge directions and height comparisons a convex "
                "polygon can show, with all coordinates symbolic, and must return the documented vertex; area and "
                "centroid are normalised to rational functions and compared with the shoelace formulas.")
    chk.session("poly.cpp", defines=("-DNDEBUG",), prefix="wv")
    deep = chk.tier != "quick"
    tasks = []

    def one(what, n, nsign, cap, pat):
        rng = random.Random(n * 2 + nsign)
        sh = patterns(n, (n + (nsign > 0)) % 3, nsign, rng, cap)
        group(chk, "%s, %d vertices, normal %s along the dropped axis" % (what, n, "positive" if nsign > 0 else "negative"), sh, pat)

    for n in ((12, 10, 9, 8, 7, 6, 5, 4, 3) if deep else (10, 6, 5, 4, 3)):
        for nsign in (1, -1):
            cap = 1500 if deep else 150
            for what, pat in (("farthest vertex along a 2D direction", lambda o, x: extreme(chk, o, x, False)),
                              ("farthest vertex along a 3D direction", lambda o, x: extreme(chk, o, x, True)),
                              ("edges along and against a direction", lambda o, x: opposite(chk, o, x))):
                tasks.append((what, lambda n=n, nsign=nsign, what=what, cap=cap, pat=pat: one(what, n, nsign, cap, pat)))
    for n in ((3, 4, 5) if deep else (3, 4)):
        for dd in range(3):
            tasks.append(("measures", lambda n=n, dd=dd: measures(chk, n, dd)))
    chk.par(tasks)
    chk.extra["patterns"] = sum((o["detail"] or {}).get("patterns", 0) for o in chk.obs if isinstance(o["detail"], dict))
