"""Boolean operations end to end: the output bounds what the operation says."""
import math
import random
from fractions import Fraction
from harness import *
import dd
import polygen as pg
from checks.bspmodel import *
from checks.c11 import Unset, Reader, integral, through
from checks.c12 import TETRA, CUBE, PYRAMID, MeshCase, orient, det3, sub
from checks.c25 import bad_access, leaked

LEVEL = "other"
NOKD = (1 << 64) - 1
WEDGE = ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
         [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)])

# operation -> what is inside, given the winding numbers by content id
OPS = {
    "union": (0, lambda w: w[0] > 0 or w[1] > 0),
    "intersection": (1, lambda w: w[0] > 0 and w[1] > 0),
    "difference": (2, lambda w: w[0] > 0 and w[1] >= 0),
    "exclusive or": (3, lambda w: (w[0] > 0) != (w[1] > 0)),
    "one solid": (4, lambda w: w[0] > 0),
    "odd winding": (5, lambda w: w[0] % 2 == 1),
    "union of ids": (6, lambda w: w[0] > 0 or w[1] > 0),
    "intersection of ids": (7, lambda w: w[0] > 0 and w[1] > 0),
    "difference of ids": (8, lambda w: w[0] > 0 and w[1] >= 0),
    "inverted solid": (9, lambda w: w[1] >= 0),
    "intersection, then union": (10, lambda w: (w[0] > 0 and w[1] > 0) or w[2] > 0),
    "union, then intersection": (11, lambda w: (w[0] > 0 or w[1] > 0) and w[2] > 0),
}


def placed(rng, vs, style, how, prev):
    """coordinates of a mesh; `how` relates it to the previous one"""
    if how == "same" or how == "shift":
        A, off = prev
        off = list(off)
        if how == "shift":
            # along a face of the previous mesh: planes of both coincide
            ks = rng.sample(range(3), rng.choice((1, 2)))
            for k in ks:
                t = rng.choice((Fraction(1, 2), Fraction(-1, 3), 1, -1, Fraction(1, 4)))
                off = [o + t * A[i][k] for i, o in enumerate(off)]
    elif how == "touch":
        A, off = prev
        k = rng.randrange(3)
        off = [o + rng.choice((1,)) * A[i][k] for i, o in enumerate(off)]
        if rng.random() < 0.4:
            j = (k + rng.choice((1, 2))) % 3
            off = [o + rng.choice((Fraction(1, 2), 1)) * A[i][j] for i, o in enumerate(off)]
    elif how == "inner":
        A, off = prev
        t = rng.choice((Fraction(1, 2), Fraction(1, 3), Fraction(3, 2), 2))
        A = [[x * t for x in r] for r in A]
        if rng.random() < 0.5:
            d = Fraction(rng.randint(1, 3), 8)
            off = [o + d * sum(r) for o, r in zip(off, prev[0])]
    else:
        while True:
            A = [[rng.randint(-6, 6) for _ in range(3)] for _ in range(3)]
            if style == "axis":
                A = [[0] * 3 for _ in range(3)]
                for i, j in enumerate(rng.sample(range(3), 3)):
                    A[i][j] = rng.choice((-7, -4, 3, 5, 6))
            if det3(A):
                break
        off = [rng.randint(-3, 3) for _ in range(3)]
        if prev is not None:
            # the centres are close, so the solids overlap
            mid = [sum(prev[0][i]) * Fraction(2, 5) + prev[1][i] for i in range(3)]
            off = [int(m - sum(A[i]) * Fraction(2, 5)) + rng.randint(-1, 1) for i, m in enumerate(mid)]
    return A, off


class BoolCase(MeshCase):
    """closed meshes with content ids, every coordinate, plane and line a symbol"""

    def __init__(self, rng, shapes, ids, flips, style, hows, levels):
        self.rng = rng
        self.vals = {}
        self.polys, self.ids, self.tris, self.h, self.turn = [], [], {}, [], []
        k = 0
        prev = None
        for (vs, faces), mid, flip, how in zip(shapes, ids, flips, hows):
            prev = A, off = placed(rng, vs, style, how, prev)
            P = [[sum(A[i][j] * v[j] for j in range(3)) + off[i] for i in range(3)] for v in vs]
            rev = (det3(A) < 0) != flip
            den = [rng.choice((1, -1)) * rng.randint(1, 5) for _ in vs]
            tr = self.tris.setdefault(mid, [])
            for f in rng.sample(faces, len(faces)):
                f = f[::-1] if rev else f
                r = rng.randrange(len(f))
                f = f[r:] + f[:r]
                ps = [P[i] for i in f]
                pl = integral(through(ps[:3]))
                kk = rng.randint(1, 3)
                pl = [kk * x for x in pl]
                hv = []
                for i in f:
                    m = 1
                    for x in P[i]:
                        m = m * Fraction(x).denominator
                    w = den[i] * m
                    hv.append([int(x * w) for x in P[i]] + [w])
                es = []
                for i in range(len(f)):
                    a, b = hv[i], hv[(i + 1) % len(f)]
                    s = 1 if a[3] * b[3] > 0 else -1
                    mm = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
                    es.append([s * (b[t] * a[3] - a[t] * b[3]) for t in range(3)] + [s * x for x in mm])
                drop = rng.choice([i for i in range(3) if pl[i]])
                pre = "f%d_" % k
                e = pg.env(pl, hv, es, [0] * 4, pre)
                self.vals.update({q: v for q, v in e.items() if not q.startswith("h")})
                self.polys.append(([var(x) for x in pg.names(len(f), pre)], len(f), drop))
                self.ids.append(mid)
                for i in range(1, len(f) - 1):
                    tr.append((ps[0], ps[i], ps[i + 1]))
                k += 1
        pts = [v for t in self.tris.values() for x in t for v in x]
        for lv in range(levels):
            p = rng.choice(pts)
            n = [rng.randint(-3, 3) for _ in range(3)]
            if not any(n):
                n = [0, 1, 0]
            d = sum(x * y for x, y in zip(n, p)) + rng.choice((0, 0, 1, Fraction(-1, 2)))
            for i, x in enumerate(integral(n + [d])):
                self.vals["h%d" % (4 * lv + i)] = x
            self.h.append([var("h%d" % (4 * lv + i)) for i in range(4)])
        self.sync()


    def planes(self):
        return [(k, args[:4]) for k, (args, _, _) in zip(self.ids, self.polys)]


def run(chk, c, fn, op, bound, when):
    q = [op, bound, len(c.h), len(c.polys), when]
    args = []
    for k, (a, n, drop) in enumerate(c.polys):
        q += [n, drop, c.ids[k]]
        args += a
    hs = [x for h in c.h for x in h] or [0]
    cell = dd.Cell(Env(dict(c.env.vals)))
    dd.CELL[0] = cell
    try:
        codes, geo = chk.s.run(fn, In(q, 8), In(args), In(hs), Out(6000, "i64"), Out(12000))
        bad = (bad_access(chk, TRUE) or leaked(chk))
    finally:
        dd.CELL[0] = None
    if bad:
        return "an assertion fails or memory is misused", cell
    return Reader(codes, geo), cell


class Facet:
    pass


def facet(c, r):
    f = Facet()
    f.id, n, f.drop = r.code(), r.code(), r.code()
    if not 0 < n < 60:
        raise Unset("an output polygon has %d vertices" % n)
    ev = lambda xs: [c.ev(x) for x in xs]
    f.sym = r.geo(4)
    f.plane = ev(f.sym)
    f.v, f.l = [], []
    for _ in range(n):
        f.v.append(ev(r.geo(4)))
        f.l.append(ev(r.geo(6)))
    f.p = []
    for v in f.v:
        if not v[3]:
            raise Unset("a vertex of an output polygon is at infinity")
        f.p.append([Fraction(x, v[3]) for x in v[:3]])
    return f


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot3(a, b):
    return sum(x * y for x, y in zip(a, b))


def on(plane, p):
    return dot3(plane[:3], p) == plane[3]


def bad_facet(c, f):
    n, N = len(f.p), f.plane[:3]
    if n < 3:
        return "an output polygon has %d vertices" % n
    if f.drop not in (0, 1, 2) or not N[f.drop]:
        return "the dropped axis of an output polygon"
    if not all(on(f.plane, p) for p in f.p):
        return "a vertex of an output polygon is off its plane"
    turns = 0
    for i in range(n):
        a, b = f.p[i], f.p[(i + 1) % n]
        e = sub(b, a)
        if not any(e):
            return "two adjacent vertices of an output polygon are equal"
        D, M = f.l[i][:3], f.l[i][3:]
        if any(cross3(D, e)) or dot3(D, e) <= 0:
            return "an edge line of an output polygon has the wrong direction"
        if any(x != y for x, y in zip(cross3(a, D), M)):
            return "an edge line of an output polygon misses its vertex"
        t = dot3(cross3(e, sub(f.p[(i + 2) % n], b)), N)
        if t < 0:
            return "an output polygon is not convex"
        turns += t > 0
        if any(dot3(cross3(e, sub(p, a)), N) < 0 for p in f.p):
            return "an output polygon is not convex"
    if turns < 3:
        return "an output polygon has no area"
    for k, plane in c.planes():
        if k == f.id and same_tuple(c.ev, f.sym, plane, False) is not False:
            return None
    return "an output polygon is not on the plane of a facet of its id"


def fsign(m):
    """sign of a determinant, exact where floating point could be wrong"""
    a = [[float(x) for x in r] for r in m]
    d = det3(a)
    s = 1.0
    for r in a:
        s *= sum(abs(x) for x in r)
    if abs(d) > 1e-9 * s:
        return 1 if d > 0 else -1
    return sg(det3(m))


def orient_f(a, b, c, d):
    return fsign([sub(b, a), sub(c, a), sub(d, a)])


def winding(tris, q, far):
    tot = 0
    for a, b, c in tris:
        s1, s2 = orient_f(a, b, c, q), orient_f(a, b, c, far)
        if s1 == 0 or s2 == 0:
            if not any(cross3(sub(b, a), sub(c, a))):
                continue
            return None
        if s1 == s2:
            continue
        o = [orient_f(q, far, x, y) for x, y in ((a, b), (b, c), (c, a))]
        if 0 in o:
            return None
        if o[0] == o[1] == o[2]:
            tot += 1 if s1 < 0 else -1
    return tot


def samples(c, facets, rng, number):
    """points beside input facets, beside output polygons and anywhere near"""
    def beside(tri):
        w = [rng.randint(1, 99) for _ in tri]
        p = [Fraction(sum(k * v[i] for k, v in zip(w, tri)), sum(w)) for i in range(3)]
        n = cross3(sub(tri[1], tri[0]), sub(tri[2], tri[0]))
        m = max(abs(x) for x in n)
        if not m:
            return []
        r = []
        for s in (1, -1):
            r.append([x + s * Fraction(y, 1) / m * Fraction(1, 5000 + rng.randint(0, 999)) for x, y in zip(p, n)])
        return r
    pts = []
    tri = [t for ts in c.tris.values() for t in ts]
    for t in tri if len(tri) < number else rng.sample(tri, number):
        pts += beside(t)
    for f in facets if len(facets) < number else rng.sample(facets, number):
        k = rng.randrange(1, len(f.p) - 1)
        pts += beside((f.p[0], f.p[k], f.p[k + 1]))
    vs = [v for t in tri for v in t]
    for _ in range(number):
        a = rng.sample(vs, min(4, len(vs)))
        w = [rng.randint(1, 99) for _ in a]
        pts.append([Fraction(sum(k * v[i] for k, v in zip(w, a)), sum(w)) + Fraction(rng.randint(-9, 9), 997) for i in range(3)])
    pts.append([x + 1000 for x in vs[0]])
    return pts


def bad_solid(c, facets, inside, parity, rng, number, stats):
    out = []
    for f in facets:
        for i in range(1, len(f.p) - 1):
            out.append((f.p[0], f.p[i], f.p[i + 1]))
    most = max(list(c.tris) + [2])
    zero = inside([0] * (most + 1))
    for q in samples(c, facets, rng, number):
        for _ in range(8):
            far = [x + 10 ** 5 * rng.randint(-10 ** 4, 10 ** 4) + Fraction(rng.randint(-999, 999), 1009) for x in q]
            w = [winding(c.tris.get(m, []), q, far) for m in range(most + 1)]
            got = winding(out, q, far)
            if got is not None and None not in w:
                break
        else:
            continue
        want = int(bool(inside(w))) - int(bool(zero))
        if parity:
            got, want = got % 2, want % 2
        stats["points"] += 1
        stats["inside"] += want != 0
        if got != want:
            return "the output surrounds the point (%s) %d times, should be %d (inputs %s)" % (
                ", ".join("%.4g" % float(x) for x in q), got, want, w)
    # nothing is covered twice, but for walls between solids that touch
    for i, f in enumerate(facets):
        w = [rng.randint(1, 99) for _ in f.p]
        p = [Fraction(sum(k * v[t] for k, v in zip(w, f.p)), sum(w)) for t in range(3)]
        for j, g in enumerate(facets):
            if i == j or not within(g.p, g.plane, p):
                continue
            if dot3(f.plane[:3], g.plane[:3]) > 0:
                if not parity:
                    return "two output polygons overlap"
                continue
            N = f.plane[:3]
            ways = {dot3(cross3(sub(t[1], t[0]), sub(t[2], t[0])), N) > 0 for ts in c.tris.values() for t in ts
                    if touches(t, p)}
            if len(ways) < 2:
                return "two opposite output polygons overlap"
    return None


def within(ps, plane, p):
    N = plane[:3]
    return on(plane, p) and all(
        dot3(cross3(sub(ps[(k + 1) % len(ps)], a), sub(p, a)), N) > 0 for k, a in enumerate(ps))


def touches(t, p):
    N = cross3(sub(t[1], t[0]), sub(t[2], t[0]))
    return dot3(N, sub(p, t[0])) == 0 and all(
        dot3(cross3(sub(t[(k + 1) % 3], a), sub(p, a)), N) >= 0 for k, a in enumerate(t))


def bad_records(c, r, f):
    """the plane records of a collected polygon"""
    n = len(f.p)

    def side():
        k = r.code()
        if k not in (0, 1, 2):
            raise Unset("a plane record")
        return [c.ev(x) for x in r.geo(4)] if k else None

    def created(i):
        k = r.code()
        if k not in (0, 1, 2):
            raise Unset("a plane record")
        if not k:
            return None
        h = [c.ev(x) for x in r.geo(4)]
        if not any(h[:3]) or not on(h, f.p[i]) or not on(h, f.p[(i + 1) % n]):
            return "the plane that created an edge does not contain it"
        if any((dot3(h[:3], p) - h[3]) * (-1, 1)[k - 1] < 0 for p in f.p):
            return "the polygon is on the other side of the plane that created its edge"
    h = side()
    if h is None or any(cross3(h[:3], f.plane[:3])) or not on(h, f.p[0]):
        return "an output polygon is not on its node plane"
    for i in range(n):
        bad = created(i)
        if bad:
            return bad
        for what, pts in (("first plane of an edge", (i, i + 1)), ("last plane of a vertex", (i,)), ("last plane of an edge", (i, i + 1))):
            h = side()
            if h is None:
                return "the %s is not set" % what
            if not any(h[:3]) or not all(on(h, f.p[k % n]) for k in pts):
                return "the %s does not contain it" % what
    return None


def bad_partners(fs, parity, stats):
    for i, f in enumerate(fs):
        n = len(f.p)
        for k, (own, pi, pe, back) in enumerate(f.partner):
            if not own:
                return "an edge does not know its polygon"
            if pi == -1 and pe == -1:
                return "an edge of the closed output has no partner"
            if not 0 <= pi < len(fs) or not 0 <= pe < len(fs[pi].p):
                return "the partner of an edge is not an edge of an output polygon"
            if not back:
                return "the partner of an edge has another partner"
            if parity:
                continue
            g = fs[pi]
            m = len(g.p)
            if g.p[pe] != f.p[(k + 1) % n] or g.p[(pe + 1) % m] != f.p[k]:
                return "partners do not join the same two points"
            # the closest facet on the inside
            a, b = f.p[k], f.p[(k + 1) % n]
            mid = [(x + y) / 2 for x, y in zip(a, b)]
            d = sub(b, a)
            best = None
            for q, h in enumerate(fs):
                for t in range(len(h.p)):
                    if (q, t) == (i, k):
                        continue
                    x, y = h.p[t], h.p[(t + 1) % len(h.p)]
                    e = sub(y, x)
                    if any(cross3(e, d)) or any(cross3(sub(mid, x), d)):
                        continue
                    if not 0 < dot3(sub(mid, x), e) < dot3(e, e):
                        continue
                    # how far to turn from f, through the solid, to h
                    u = cross3(f.plane[:3], d)
                    v = cross3(h.plane[:3], e)
                    s = math.sqrt(float(dot3(d, d)))
                    ang = math.atan2(float(dot3(cross3(v, u), d)) / s, float(dot3(u, v)))
                    if ang < 1e-9:
                        ang += 2 * math.pi
                    if best is None or ang < best[0] - 1e-9:
                        best = (ang, set())
                    if ang < best[0] + 1e-9:
                        best[1].add((q, t))
                    stats["around"] += 1
            if best is None or (pi, pe) not in best[1]:
                return "an edge is not joined to the closest facet around it"
            stats["edges"] += 1
    return None


def one(chk, c, fn, op, bound, when, stats):
    num, inside = OPS[op]
    parity = num in (3, 5)       # facets keep the direction they came with
    r, cell = run(chk, c, fn, num, bound, when)
    stats["signs"] += len(cell.asked)
    if isinstance(r, str):
        return REFUTED, r
    if fn == "wv_connect":
        e = r.code()
        if e:
            return REFUTED, "errors are reported for closed meshes"
    k = r.code()
    if not 0 <= k < 300:
        return REFUTED, "%d output polygons" % k
    fs = []
    for _ in range(k):
        f = facet(c, r)
        fs.append(f)
        if fn == "wv_connect":
            f.partner = [[r.code() for _ in range(4)] for _ in f.p]
        bad = bad_facet(c, f)
        if not bad and fn == "wv_collect":
            bad = bad_records(c, r, f)
        if bad:
            return REFUTED, bad
    stats["polygons"] += k
    bad = bad_solid(c, fs, inside, parity, c.rng, 14, stats)
    if not bad and fn == "wv_connect":
        bad = bad_partners(fs, parity, stats)
    return (REFUTED, bad) if bad else (PROVED, None)


def batch(chk, name, fn, ops, shapes, style, how, bound, levels, number, seed):
    rng = random.Random(seed)
    with chk.ob(name) as o:
        res, why, wit = PROVED, None, None
        stats = {k: 0 for k in ("cells", "signs", "points", "inside", "polygons", "edges", "around")}
        for t in range(number):
            op = ops[t % len(ops)]
            ids = [0, 1, 2][:len(shapes)]
            flips = [rng.random() < 0.15 for _ in shapes]
            if "diff" in op or "inverted" in op:
                flips[1:] = [rng.random() < 0.8 for _ in flips[1:]]
            if op in ("odd winding", "one solid"):
                ids = [0] * len(shapes)
            c = BoolCase(rng, shapes, ids, flips, style, ["free"] + [how] * (len(shapes) - 1), levels)
            b = rng.choice(bound)
            when = rng.randrange(3)
            o.entry = fn
            stats["cells"] += 1
            try:
                st, msg = one(chk, c, fn, op, b, when, stats)
            except (Unset, dd.NeverReturns) as e:
                st, msg = REFUTED, str(e)
            except Unsupported as e:
                st, msg = UNDECIDED, str(e)[:120]
                if "ostringstream" in msg:
                    st, msg = REFUTED, "an error is reported for closed meshes"
            o.where = o.where or chk.construct(chk.s)
            if st == REFUTED:
                res, why = st, op + ": " + msg
                wit = dict(c.vals, ids=str(c.ids), operation=op, kd_bound=str(b), flips=str(flips))
                break
            if st == UNDECIDED:
                res, why = st, msg
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail=stats)


ALL = [x for x in OPS if "then" not in x]


def finish(chk, what):
    for k in ("cells", "signs", "points", "inside", "polygons", "edges", "around"):
        chk.extra[k] = sum((o["detail"] or {}).get(k, 0) for o in chk.obs if isinstance(o["detail"], dict))
    if not chk.extra[what] and all(o["status"] == PROVED for o in chk.obs):
        from check import CheckError
        raise CheckError("nothing was reached")


def check(chk):
    chk.anchors = ("BSPTraverser<", "::VisitLeaf", "PlanePartitioner<")
    chk.rule = ("Closed meshes are put in a tree and traversed with each of the filters; the program is interpreted from "
                "AddContent to the collected polygons with symbolic coordinates, one sign cell at a time. The output must be "
                "convex polygons on facet planes of its id, inside the planes they record, without overlaps, and must "
                "surround a point beside any facet, and any other, as often as the operation says for that point.")
    chk.session("csg.cpp", defines=())
    deep = chk.tier != "quick"
    tasks = []

    def t(name, *a):
        tasks.append((name, lambda: batch(chk, name, "wv_collect", *a)))
    kd = [0, 1, 2, 6, NOKD]
    for part in range(24 if deep else 6):
        ops = ALL[part % 5:] + ALL[:part % 5]
        st = "axis" if part % 2 else "free"
        t("two tetrahedra, part %d" % part, ops, [TETRA, TETRA], "free", "free", kd, 0, 3, 100 + part)
        t("aligned boxes, part %d" % part, ops, [CUBE, CUBE], "axis", "free", kd, 0, 3, 200 + part)
        t("solids with common facet planes, part %d" % part, ops, [CUBE, (WEDGE, CUBE, TETRA)[part % 3]], "axis", "shift", kd, 0, 3, 300 + part)
        t("nested and identical solids, part %d" % part, ops, [TETRA, TETRA], st, ("inner", "same")[part % 2], kd, 0, 4, 400 + part)
        t("touching solids, part %d" % part, ops, [WEDGE, CUBE], st, "touch", kd, 0, 3, 500 + part)
        t("trees that are split already, part %d" % part, ops, [TETRA, TETRA], st, ("free", "shift")[part % 2], kd, 1 + part % 3, 3, 600 + part)
        t("three solids, part %d" % part, ["intersection, then union", "union, then intersection"][part % 2:], [TETRA] * 3, "axis",
          ("free", "shift")[part % 2], kd, 0, 2, 700 + part)
    chk.par(tasks)
    finish(chk, "inside")
