"""Extrusion: the pieces of the caps and sides are the boundary of the prism."""
from harness import *
import dd
from checks.bspmodel import *
from checks.c11 import Unset
from checks.c12 import sub
from checks.c13 import finish, dot3
from checks.c26 import Chain, Loop, batch, run, pieces

LEVEL = "other"


def extrude(chk, c, fn, stats):
    rng = c.rng
    pts = c.pts[0]
    # longer than the loop, so that no point of the top is one of the bottom
    span = [int(max(p[k] for p in pts) - min(p[k] for p in pts)) + 1 for k in range(3)]
    den = rng.choice((1, 1, 2, 3, -1, -2))
    d = [rng.choice((0, 0, 1, -1, 2)) * s for s in span]
    k = rng.randrange(3)
    d[k] = rng.choice((1, -1, 2)) * span[k]
    if rng.random() < 0.05:
        d = [0, 0, 0]
    for nm, x in zip(("d0", "d1", "d2", "d3"), [x * abs(den) * (1 if den > 0 else -1) + 0 for x in d] + [den]):
        c.vals[nm] = x
    c.sync()
    s = c.sym[0]
    r, cell = run(chk, c, fn, In([len(s)], 8), In([x for v in s for x in v]), In([var("d%d" % i) for i in range(4)]))
    stats["signs"] += len(cell.asked)
    if r is None:
        return REFUTED, "an assertion fails or memory is misused"
    fs = pieces(c, r, stats)
    d = [Fraction(x) for x in d]
    up = lambda p: [x + y for x, y in zip(p, d)]
    if not any(d):
        return (PROVED, None) if zero(fs, []) else (REFUTED, "the pieces of a flat prism do not cancel")
    bottom = {tuple(p) for p in pts}
    top = {tuple(up(p)) for p in pts}
    groups = {}
    n = len(pts)
    quads = []
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        quads.append([b, a, up(a), up(b)])
        groups.setdefault(frozenset(map(tuple, quads[-1])), ([], []))[0].append(quads[-1])
    low, high = [], []
    for f in fs:
        v = {tuple(p) for p in f.p}
        if v <= bottom:
            low.append(f)
        elif v <= top:
            high.append(f)
        else:
            g = [x for x in groups if v <= x]
            if not g:
                return REFUTED, "a piece has corners that belong to no side and no cap"
            groups[g[0]][1].append(f)
    stats["edges"] += n
    if not zero(low, [pts]):
        return REFUTED, "the pieces of the bottom do not add up to the loop"
    if not zero(high, [[up(p) for p in pts[::-1]]]):
        return REFUTED, "the pieces of the top do not add up to the reversed, moved loop"
    for q, f in groups.values():
        if not zero(f, q):
            return REFUTED, "the pieces of a side do not add up to it"
    if not zero(fs, []):
        return REFUTED, "the boundary is not closed"
    stats["inside"] += 1
    return PROVED, None


def zero(fs, loops):
    ch = Chain()
    for f in fs:
        ch.loop(f.p)
    for l in loops:
        ch.loop(l, -1)
    return ch.zero()


def check(chk):
    chk.anchors = ("walnut::Extrude", "HomoPoint3::AddOffset", "PlanarRange<")
    chk.rule = ("Loops of points are extruded; the program is interpreted with symbolic points and direction, one sign cell at a "
                "time. The pieces must be convex polygons; those of the bottom must add up to the loop, those of the top to "
                "the reversed loop moved by the direction, those of each side to its parallelogram, and all together to a "
                "closed surface.")
    chk.session("facet.cpp", defines=())
    deep = chk.tier != "quick"
    tasks = []
    for part in range(16 if deep else 4):
        for st in ("convex", "star", "monotone", "comb", "grid", "space"):
            name = "%s loops, part %d" % (st, part)
            tasks.append((name, lambda name=name, st=st, part=part:
                          batch(chk, name, "wv_extrude", (st,), 12 if not deep else 60, 7000 + 100 * part + len(st), extrude)))
    chk.par(tasks)
    finish(chk, "inside")
