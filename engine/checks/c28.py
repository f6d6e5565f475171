"""Measures of meshes: the top point, the farthest point, the centroid."""
import random
from harness import *
import dd
from checks.bspmodel import *
from checks.c11 import Unset
from checks.c13 import finish, dot3, cross3
from checks.c26 import Loop, batch, run

LEVEL = "other"
SOLIDS = (
    (4, ((0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0))),
    (6, ((0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5))),
    (6, ((0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5))),
    (8, ((0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5))),
    (5, ((0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4))),
)


class Soup(Loop):
    """polygons over shared corners; planes and lines are not looked at"""

    def __init__(self, rng, styles, homo):
        self.rng = rng
        self.vals, self.sym, self.pts, self.flat2 = {}, [], [], []
        self.sync()


def fill(c, n, faces, m, wild):
    rng = c.rng
    ps = [[rng.randint(-m, m) for _ in range(3)] for _ in range(n)]
    c.corner, c.sp = [], []
    for i, p in enumerate(ps):
        w = rng.choice((1, 1, 2, 3, 4, 6, -1, -2, -6)) if wild != 0 else 1
        v = []
        for k, x in zip("xyz", p):
            nm = "v%d%s" % (i, k)
            c.vals[nm] = x * (w if rng.random() < 0.5 else 1)
            v.append(var(nm))
        v.append(w)
        if wild == 2:
            c.vals["v%dw" % i] = w
            v[3] = var("v%dw" % i)
        c.corner.append(v)
    c.sync()
    c.w = [[int(c.ev(x)) if not isinstance(x, int) else x for x in v] for v in c.corner]
    c.sp = [[Fraction(x, v[3]) for x in v[:3]] for v in c.w]
    c.pts = [[c.sp[i] for i in f] for f in faces]
    a, g = [len(faces)], []
    for f in faces:
        a += [len(f), rng.randrange(3)]
        g += [0, 0, 1, 0]
        for i in f:
            g += c.corner[i] + [0, 0, 1, 0, 0, 0]
    return In(a, 8), In(g)


def soup(rng):
    n = rng.randint(1, 7)
    return n, [[rng.randrange(n) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 4))]


def answer(c, g):
    v = [c.ev(x) for x in g.geo(4)]
    if not v[3]:
        raise Unset("the point is at infinity")
    return [Fraction(x, v[3]) for x in v[:3]]


def mesh_run(chk, c, fn, stats, *ins):
    r, cell = run(chk, c, fn, *ins, codes=False, room=4)
    stats["signs"] += len(cell.asked)
    return r


def corner(key):
    def decide(chk, c, fn, stats):
        rng = c.rng
        n, faces = soup(rng)
        ins = fill(c, n, faces, rng.choice((1, 2, 9)), rng.choice((0, 2, 2)))
        d = [rng.randint(-3, 3) for _ in range(3)]
        if fn == "wv_far":
            for i in range(3):
                c.vals["d%d" % i] = d[i]
            c.sync()
            ins += (In([var("d%d" % i) for i in range(3)]),)
        r = mesh_run(chk, c, fn, stats, *ins)
        if r is None:
            return REFUTED, "an assertion fails or memory is misused"
        p = answer(c, r)
        used = [q for f in c.pts for q in f]
        stats["points"] += len(used)
        if p not in used:
            return REFUTED, "the point is not a vertex of the mesh"
        if key(p, d) != max(key(q, d) for q in used):
            return REFUTED, "another vertex is farther"
        stats["inside"] += 1
        return PROVED, None
    return decide


def centroid(chk, c, fn, stats):
    rng = c.rng
    parts = [rng.choice(SOLIDS)]
    if rng.random() < 0.4:
        parts.append(rng.choice(SOLIDS))
    n, faces = 0, []
    flip = rng.random() < 0.3
    for k, fs in parts:
        for f in fs:
            s = rng.randrange(len(f))
            f = [n + i for i in f[s:] + f[:s]]
            faces.append(f[::-1] if flip else f)
        n += k
    rng.shuffle(faces)
    for _ in range(rng.choice((0, 0, 1))):
        faces.insert(rng.randrange(len(faces)), [rng.randrange(n) for _ in range(rng.randint(1, 2))])
    ins = fill(c, n, faces, 9, rng.choice((0, 1, 1, 1)))
    r = mesh_run(chk, c, fn, stats, *ins)
    if r is None:
        return REFUTED, "an assertion fails or memory is misused"
    g = r.geo(4)
    for again in range(3):
        vol, sum3 = Fraction(0), [Fraction(0)] * 3
        for f in faces:
            for i in range(2, len(f)):
                a, b, d = c.sp[f[0]], c.sp[f[i - 1]], c.sp[f[i]]
                v = dot3(a, cross3(b, d))
                vol += v
                sum3 = [s + v * (x + y + z) for s, x, y, z in zip(sum3, a, b, d)]
        o = [c.ev(x) for x in g]
        if vol:
            if not o[3]:
                return REFUTED, "the centroid is at infinity"
            if [Fraction(x, o[3]) for x in o[:3]] != [s / 4 / vol for s in sum3]:
                return REFUTED, "the point is not the centroid"
            stats["inside"] += 1
        stats["points"] += 1
        # the same polynomials at other corners: nothing was asked about coordinates
        for q in list(c.vals):
            c.vals[q] = rng.randint(-10 ** 6, 10 ** 6)
        c.sync()
        c.w = [[int(c.ev(x)) if not isinstance(x, int) else x for x in v] for v in c.corner]
        c.sp = [[Fraction(x, v[3]) for x in v[:3]] for v in c.w]
    return PROVED, None


def check(chk):
    chk.anchors = ("walnut::GetTopPoint", "walnut::GetFarthest", "walnut::GetCentroid")
    chk.rule = ("Meshes with symbolic corners are measured; the program is interpreted, one sign cell at a time. The top point "
                "must be the vertex with the greatest (z, y, x), the farthest one a vertex of greatest distance along the "
                "direction, and the centroid must be, as a rational function of the corners of a closed mesh, the centre of "
                "mass of the signed tetrahedra under its triangles.")
    chk.session("facet.cpp")
    deep = chk.tier != "quick"
    tasks = []
    for part in range(16 if deep else 6):
        for fn, nm, dec in (("wv_top", "top points", corner(lambda p, d: p[::-1])),
                            ("wv_far", "farthest points", corner(dot3)),
                            ("wv_centroid", "centroids", centroid)):
            name = "%s, part %d" % (nm, part)
            tasks.append((name, lambda name=name, fn=fn, dec=dec, part=part:
                          batch(chk, name, fn, ("mesh",), 50 if not deep else 80, 9000 + 100 * part + len(fn), dec, Soup)))
    chk.par(tasks)
    finish(chk, "inside")
