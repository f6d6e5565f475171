"""Facets from loops of points: convex pieces whose boundaries add up to the loop."""
import math
import random
from fractions import Fraction
from harness import *
import dd
from checks.bspmodel import *
from checks.c11 import Unset, Reader, Case
from checks.c12 import sub
from checks.c13 import bad_facet, facet, dot3, cross3, finish
from checks.c25 import bad_access, leaked

LEVEL = "other"


class Chain:
    """a sum of directed segments, kept per line as the steps of its density"""

    def __init__(self):
        self.d = {}

    def add(self, a, b, w=1):
        e = sub(b, a)
        k = next((i for i in range(3) if e[i]), None)
        if k is None:
            return
        e = [Fraction(x) / e[k] for x in e]
        key = (tuple(e), tuple(cross3(a, e)))
        m = self.d.setdefault(key, {})
        for t, s in ((a[k], w), (b[k], -w)):
            m[t] = m.get(t, 0) + s

    def loop(self, ps, w=1):
        for i, p in enumerate(ps):
            self.add(p, ps[(i + 1) % len(ps)], w)

    def zero(self):
        return not any(x for m in self.d.values() for x in m.values())


def points2(rng, style):
    """a loop of points of the plane"""
    n = rng.randint(3, 8)
    if style == "convex":
        ps = [(rng.randint(-9, 9), rng.randint(-9, 9)) for _ in range(n + 3)]
        ps = sorted(set(ps))

        def half(ps):
            h = []
            for p in ps:
                while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                    h.pop()
                h.append(p)
            return h[:-1]
        ps = half(ps) + half(ps[::-1])
    elif style == "star":
        a = sorted(rng.sample(range(24), n))
        ps = []
        for t in a:
            r = rng.randint(2, 12)
            ps.append((int(round(r * math.cos(t * math.pi / 12))), int(round(r * math.sin(t * math.pi / 12)))))
    elif style == "monotone":
        xs = sorted(rng.sample(range(-9, 10), n))
        up = [rng.random() < 0.5 for _ in xs]
        up[0] = up[-1] = True
        ps = [(x, rng.randint(0, 7) if 0 < i < n - 1 else 0) for i, x in enumerate(xs) if up[i]]
        ps = ps[::-1] + [(x, -rng.randint(0, 7)) for i, x in enumerate(xs) if not up[i]]
        if rng.random() < 0.5:
            ps = [(y, x) for x, y in ps]
    elif style == "comb":
        ps = []
        for i in range(rng.randint(1, 3)):
            ps += [(4 * i, 5 + rng.randint(0, 3)), (4 * i + 1, 0), (4 * i + 2, 0), (4 * i + 3, 5)]
        ps += [(4 * i + 4, -2), (-1, -2)]
    else:
        m = rng.choice((1, 2, 4))
        ps = [(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(n)]
    if style != "grid":
        # straight and repeated points
        for _ in range(rng.choice((0, 0, 1, 2))):
            i = rng.randrange(len(ps))
            a, b = ps[i], ps[(i + 1) % len(ps)]
            t = rng.choice((0, 0.5, 0.5, 1)) if (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0 else rng.choice((0, 1))
            ps.insert(i + 1, tuple(int(x + t * (y - x)) for x, y in zip(a, b)))
    r = rng.randrange(len(ps))
    ps = ps[r:] + ps[:r]
    return ps[::-1] if rng.random() < 0.5 else ps


class Loop(Case):
    def __init__(self, rng, styles, homo):
        self.rng = rng
        self.vals = {}
        self.sym, self.pts, self.flat2 = [], [], []
        for style in styles:
            if style == "space":
                m = rng.choice((1, 2, 5))
                P = [[rng.randint(-m, m) for _ in range(3)] for _ in range(rng.randint(1, 6))]
                if rng.random() < 0.4:
                    # collinear stretches
                    i = rng.randrange(len(P))
                    P.insert(i + 1, [2 * b - a for a, b in zip(P[i - 1], P[i])])
            else:
                q = points2(rng, style)
                while True:
                    E = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(2)]
                    if rng.random() < 0.4:
                        i, j = rng.sample(range(3), 2)
                        E = [[(k == i) * rng.choice((1, -1)) for k in range(3)], [(k == j) * rng.choice((1, -2)) for k in range(3)]]
                    if any(cross3(*E)):
                        break
                o = [rng.randint(-3, 3) for _ in range(3)]
                P = [[o[k] + E[0][k] * u + E[1][k] * v for k in range(3)] for u, v in q]
                self.E = E
            self.flat2.append(None if style == "space" else q)
            self.grow(P, homo)
        self.sync()

    def grow(self, P, homo):
        b = len(self.pts)
        s = []
        for i, p in enumerate(P):
            w = self.rng.choice((1, 1, 2, 3)) * self.rng.choice((1, -1)) if homo else 1
            v = []
            for k, x in zip("xyzw", p + [1]):
                if k == "w" and not homo:
                    v.append(1)
                    continue
                nm = "l%d_%d%s" % (b, i, k)
                self.vals[nm] = x * w
                v.append(var(nm))
            s.append(v)
        self.sym.append(s)
        self.pts.append([list(map(Fraction, p)) for p in P])

    def planes(self):
        return [(None, self.cur.sym)]


def run(chk, c, fn, *ins, codes=True, room=8000):
    cell = dd.Cell(Env(dict(c.env.vals)))
    dd.CELL[0] = cell
    try:
        outs = (Out(3000, "i64"), Out(room)) if codes else (Out(room),)
        got = chk.s.run(fn, *ins, *outs)
        got = got if codes else (got,)
        if bad_access(chk, TRUE) or leaked(chk):
            return None, cell
    finally:
        dd.CELL[0] = None
    return Reader(*got) if codes else Reader([], got[0]), cell


def pieces(c, r, stats):
    k = r.code()
    if not 0 <= k < 200:
        raise Unset("%d pieces" % k)
    fs = []
    for _ in range(k):
        f = facet(c, r)
        f.id, c.cur = None, f
        bad = bad_facet(c, f)
        if bad:
            raise Unset(bad.replace("an output polygon", "a piece"))
        fs.append(f)
    stats["polygons"] += k
    return fs


def loops(chk, c, fn, stats):
    w = 4 if fn == "wv_facetsh" else 3
    r, cell = run(chk, c, fn, In([len(c.sym)] + [len(s) for s in c.sym], 8), In([x for s in c.sym for v in s for x in v[:w]]))
    stats["signs"] += len(cell.asked)
    if r is None:
        return REFUTED, "an assertion fails or memory is misused"
    fs = pieces(c, r, stats)
    known = [tuple(v) for s in c.sym for v in s]
    ch = Chain()
    for f in fs:
        ch.loop(f.p)
    for ps in c.pts:
        ch.loop(ps, -1)
        stats["edges"] += len(ps)
    if not ch.zero():
        return REFUTED, "the boundaries of the pieces do not add up to the loop"
    pts = [p for ps in c.pts for p in ps]
    for f in fs:
        for p in f.p:
            if p not in pts:
                return REFUTED, "a piece has a vertex that is not a point of the loop"
    stats["inside"] += 1
    return PROVED, None


def batch(chk, name, fn, styles, number, seed, decide=loops, make=Loop):
    rng = random.Random(seed)
    with chk.ob(name) as o:
        res, why, wit = PROVED, None, None
        stats = {k: 0 for k in ("cells", "signs", "points", "inside", "polygons", "edges", "around")}
        for _ in range(number):
            c = make(rng, [rng.choice(styles) for _ in range(rng.choice((1, 1, 2)) if decide is loops else 1)], fn != "wv_facets")
            o.entry = fn
            stats["cells"] += 1
            try:
                st, msg = decide(chk, c, fn, stats)
            except (Unset, dd.NeverReturns) as e:
                st, msg = REFUTED, str(e)
            except Unsupported as e:
                st, msg = UNDECIDED, str(e)[:120]
            o.where = o.where or chk.construct(chk.s)
            if st == REFUTED:
                res, why = st, msg
                wit = dict(c.vals, loops=str([[tuple(map(str, p)) for p in ps] for ps in c.pts])[:900])
                break
            if st == UNDECIDED:
                res, why = st, msg
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail=stats)


STYLES = ("convex", "star", "monotone", "comb", "grid", "space")


def check(chk):
    chk.anchors = ("PlanarRange<", "MonotoneRange<", "::EmitOriented")
    chk.rule = ("Loops of points are built into facets; the program is interpreted with symbolic points, one sign cell at a "
                "time. Every piece must be a convex polygon of positive area on its plane with its edge lines, its vertices points of "
                "the loop, and the boundaries of the pieces must add up to the loop, segment by segment.")
    chk.session("facet.cpp", defines=())
    deep = chk.tier != "quick"
    tasks = []
    for part in range(16 if deep else 4):
        for st in STYLES:
            for fn, nm in (("wv_facets", "points"), ("wv_facetsh", "rational points")):
                name = "%s loops of %s, part %d" % (st, nm, part)
                tasks.append((name, lambda name=name, fn=fn, st=st, part=part:
                              batch(chk, name, fn, (st,), 20 if not deep else 100, 100 * part + STYLES.index(st))))
    chk.par(tasks)
    finish(chk, "inside")
