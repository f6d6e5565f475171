"""Winding numbers of cells."""
import itertools
import random
from fractions import Fraction
from harness import *
import dd
import polygen as pg
from checks.bspmodel import *
from checks.c11 import Case, Unset, run, integral, through, count

LEVEL = "other"

# closed meshes: vertices, faces counter-clockwise seen from outside
TETRA = ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)])
CUBE = ([(x, y, z) for z in (0, 1) for y in (0, 1) for x in (0, 1)],
        [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)])
PYRAMID = ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (Fraction(1, 2), Fraction(1, 2), 1)],
           [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)])


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def orient(a, b, c, d):
    return sg(det3([sub(b, a), sub(c, a), sub(d, a)]))


def winding(tris, q, rng):
    """signed crossings of a ray from q (exact)"""
    for _ in range(200):
        r = [rng.randint(-10 ** 6, 10 ** 6) for _ in range(3)]
        far = [x + 10 ** 6 * y for x, y in zip(q, r)]
        tot = 0
        for a, b, c in tris:
            s1, s2 = orient(a, b, c, q), orient(a, b, c, far)
            if s1 == 0:
                return None         # on the plane of a face: pick another point
            if s2 == 0:
                break
            if s1 == s2:
                continue
            o = [orient(q, far, x, y) for x, y in ((a, b), (b, c), (c, a))]
            if 0 in o:
                break
            if o[0] == o[1] == o[2]:
                # from the inner side of a face to its outer side
                tot += 1 if s1 < 0 else -1
        else:
            return tot
    return None


def solve(a, b, c):
    d = det3([a[:3], b[:3], c[:3]])
    if not d:
        return None
    r = []
    for k in range(3):
        m = [list(x[:3]) for x in (a, b, c)]
        for row, x in zip(m, (a, b, c)):
            row[k] = x[3]
        r.append(Fraction(det3(m), d))
    return r


def inner_point(cuts, rng):
    """a point strictly inside the cell given by (plane, side)"""
    R = 10 ** 5
    allc = list(cuts)
    for k in range(3):
        for s in (1, -1):
            n = [0, 0, 0, R]
            n[k] = s
            allc.append((n, -1))
    vs = []
    for a, b, c in itertools.combinations(allc, 3):
        p = solve(a[0], b[0], c[0])
        if p is None:
            continue
        if all(sg(sum(x * y for x, y in zip(h[:3], p)) - h[3]) in (0, s) for h, s in allc):
            vs.append(p)
    if len(vs) < 4:
        return None
    w = [rng.randint(1, 50) for _ in vs]
    q = [sum(k * v[i] for k, v in zip(w, vs)) / sum(w) for i in range(3)]
    if all(sg(sum(x * y for x, y in zip(h[:3], q)) - h[3]) == s for h, s in allc):
        return q
    return None


class MeshCase(Case):
    """closed meshes, every coordinate, plane and line a symbol"""

    def __init__(self, rng, shapes, levels, style):
        self.rng = rng
        self.vals = {}
        self.polys = []
        self.ids = []
        self.tris = []
        k = 0
        for m, (vs, faces) in enumerate(shapes):
            while True:
                A = [[rng.randint(-6, 6) for _ in range(3)] for _ in range(3)]
                if style == "axis":
                    A = [[0] * 3 for _ in range(3)]
                    for i, j in enumerate(rng.sample(range(3), 3)):
                        A[i][j] = rng.choice((-7, -4, 3, 5))
                D = det3(A)
                if D:
                    break
            off = [rng.randint(-4, 4) for _ in range(3)]
            P = [[sum(A[i][j] * v[j] for j in range(3)) + off[i] for i in range(3)] for v in vs]
            flip = (D < 0) != (rng.random() < 0.25)      # sometimes inside out
            wind = -1 if (D < 0) == flip and False else 1
            den = [rng.choice((1, -1)) * rng.randint(1, 9) for _ in vs]
            self.tris.append([])
            for f in faces:
                f = f[::-1] if flip else f
                r = rng.randrange(len(f))
                f = f[r:] + f[:r]
                ps = [P[i] for i in f]
                pl = integral(through(ps[:3]))
                kk = rng.randint(1, 3)
                pl = [kk * x for x in pl]
                hv = []
                for i in f:
                    w = den[i] * max(1, Fraction(P[i][0]).denominator * Fraction(P[i][1]).denominator * Fraction(P[i][2]).denominator)
                    hv.append([int(x * w) for x in P[i]] + [w])
                es = []
                for i in range(len(f)):
                    a, b = hv[i], hv[(i + 1) % len(f)]
                    s = 1 if a[3] * b[3] > 0 else -1
                    mm = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
                    es.append([s * (b[t] * a[3] - a[t] * b[3]) for t in range(3)] + [s * x for x in mm])
                drop = rng.choice([i for i in range(3) if pl[i]])
                pre = "f%d_" % k
                e = pg.env(pl, hv, es, [0] * 4, pre)
                self.vals.update({q: v for q, v in e.items() if not q.startswith("h")})
                self.polys.append(([var(x) for x in pg.names(len(f), pre)], len(f), drop))
                self.ids.append(m)
                for i in range(1, len(f) - 1):
                    self.tris[m].append((ps[0], ps[i], ps[i + 1]))
                k += 1
        self.h = []
        self.turn = []
        self.sync()
        self.model = Model(self.ev)
        cur = [self.polygon(i, self.ids[i]) for i in range(len(self.polys))]
        self.grow(cur, levels, style)

    def grow(self, cur, levels, style):
        rng = self.rng
        goal = None
        self.axis = rng.choice(([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -2, 3], [0, 1, 2]))
        if style in ("around", "faces") or rng.random() < 0.3:
            # a point inside the first mesh that the path closes in on
            ps = [v for t in self.tris[0] for v in t]
            w = [rng.randint(1, 9) for _ in ps]
            goal = [Fraction(sum(k * v[i] for k, v in zip(w, ps)), sum(w)) for i in range(3)]
        order = rng.sample([(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], 4) * 2
        for lv in range(levels):
            for _ in range(80):
                u = rng.random()
                if style == "faces" and u < 0.8:
                    ins = [p for p in cur if not p.onp]
                    if not ins:
                        break
                    h = [rng.choice((1, -1, 2)) * self.ev(x) for x in rng.choice(ins).plane]
                    k = rng.choice((1, -1))
                    h = [k * x for x in h]
                elif style == "around" and u < 0.94:
                    n = [4 * x + rng.randint(-2, 2) for x in order[lv % 8]]
                    d = sum(x * y for x, y in zip(n, goal))
                    k = rng.choice((1, -1))
                    h = integral([k * x for x in n] + [k * (d + Fraction(rng.randint(0, 8), 4))])
                elif style == "prism" and u < 0.85:
                    # normals that depend on each other
                    n = list(cross(self.axis, [rng.randint(-3, 3) for _ in range(3)]))
                    if not any(n):
                        continue
                    k = rng.choice((1, -1))
                    if goal and rng.random() < 0.6:
                        d = sum(x * y for x, y in zip(n, goal)) + Fraction(rng.randint(0, 8), 4)
                    else:
                        p = rng.choice(cur) if cur else None
                        d = sum(x * y for x, y in zip(n, self.point(rng.choice(p.edges).v))) if p else rng.randint(-9, 9)
                        if rng.random() < 0.4:
                            d += Fraction(rng.randint(-9, 9), 2)
                    h = integral([k * x for x in n] + [k * d])
                elif style == "axis" and u < 0.7:
                    h = [0, 0, 0, 0]
                    h[rng.randrange(3)] = rng.choice((1, -1, 2))
                    h[3] = rng.randint(-9, 9)
                    if u < 0.3:
                        h[rng.randrange(3)] = rng.choice((1, -2))
                else:
                    h = self.plane(cur, 0.05 if u < 0.3 else rng.random())
                if h is None or not any(h[:3]) or any(self.parallel(h, g) for g in self.hv()):
                    continue
                break
            else:
                h = [rng.randint(-5, 5), rng.randint(-5, 5), 7, rng.randint(-99, 99)]
            for i in range(4):
                self.vals["h%d" % (4 * lv + i)] = h[i]
            self.h.append([var("h%d" % (4 * lv + i)) for i in range(4)])
            self.sync()
            go = {-1: [], 1: []}
            for p in cur:
                for side, q in self.model.split(p, self.h[lv], lv).items():
                    go[side].append(q)
            t = rng.randrange(2)
            if goal and rng.random() < 0.9:
                t = int(sum(x * y for x, y in zip(h[:3], goal)) > h[3])
            elif sum(not p.onp for p in go[1 if t else -1]) < sum(not p.onp for p in go[-1 if t else 1]) and rng.random() < 0.7:
                t = 1 - t
            self.turn.append(t)
            cur = go[1 if t else -1]


def cells_of(c):
    """(plane, side) lists of the leaves, in the driver's order"""
    hv = c.hv()
    out, path = [], []
    for l, h in enumerate(hv):
        go = 1 if c.turn[l] else -1
        out.append(path + [(h, -go)])
        path = path + [(h, go)]
    out.append(path)
    return out


def one(chk, c, fn, at, how, stats):
    res, cell = run(chk, c, fn, at, how, c.ids)
    stats["signs"] += len(cell.asked)
    if isinstance(res, str):
        return REFUTED, res
    leaves, _ = res
    for k, ((lf, ci, cb, info), cuts) in enumerate(zip(leaves, cells_of(c))):
        for m, tris in enumerate(c.tris):
            if count(ci, m):
                continue
            w = None
            for _ in range(6):
                q = inner_point(cuts, c.rng)
                if q is None:
                    break
                w = winding(tris, q, c.rng)
                if w is not None:
                    break
            if w is None:
                stats["empty"] += 1
                continue
            stats["leaves"] += 1
            stats["nonzero"] += w != 0
            if info[m][2] != w:
                return REFUTED, "leaf %d: winding number %d of mesh %d, should be %d" % (k, info[m][2], m, w)
    return PROVED, None


def batch(chk, name, shapes, levels, style, late, number, seed):
    rng = random.Random(seed)
    with chk.ob(name) as o:
        res, why, wit = PROVED, None, None
        stats = {"cells": 0, "signs": 0, "leaves": 0, "nonzero": 0, "empty": 0}
        for t in range(number):
            c = MeshCase(rng, shapes, levels, style)
            at = [0] * len(c.polys)
            if late:
                lv = [rng.randint(0, levels) for _ in shapes]
                at = [lv[m] for m in c.ids]
            how = [rng.randrange(4) for _ in c.polys]
            o.entry = "wv_bsp"
            stats["cells"] += 1
            try:
                st, msg = one(chk, c, "wv_bsp", at, how, stats)
            except (Unset, dd.NeverReturns) as e:
                st, msg = REFUTED, str(e)
            except Unsupported as e:
                st, msg = UNDECIDED, str(e)[:120]
            o.where = o.where or chk.construct(chk.s)
            if st == REFUTED:
                res, why = st, msg
                wit = dict(c.vals, turn=str(c.turn), added_at=str(at))
                break
            if st == UNDECIDED:
                res, why = st, msg
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail=stats)


def check(chk):
    chk.anchors = ("::GetPWNEffectAtVertex", "::PushContentPWNToChildren")
    chk.rule = ("Closed meshes are added to a tree that is split by planes in general and special position; the program is "
                "interpreted with symbolic coordinates, one sign cell at a time. In every leaf without facets of a mesh in its "
                "interior the winding number must be the number of times the mesh surrounds the cell.")
    chk.session("bsp.cpp", defines=())
    deep = chk.tier != "quick"
    tasks = []

    def t(name, *a):
        tasks.append((name, lambda: batch(chk, name, *a)))
    for part in range(16 if deep else 4):
        t("tetrahedron, splits along faces, part %d" % part, [TETRA], 4, "faces", False, 10, 700 + part)
        t("cube, splits along faces, part %d" % part, [CUBE], 6, "faces", part % 2 == 1, 6, 800 + part)
        t("tetrahedron, splits around an inner point, part %d" % part, [TETRA], 5, "around", False, 16, 900 + part)
        t("two tetrahedra, splits around an inner point, part %d" % part, [TETRA, TETRA], 5, "around", True, 6, 1000 + part)
        t("tetrahedron, splits parallel to a line, part %d" % part, [TETRA], 5, "prism", part % 2 == 1, 16, 1200 + part)
        t("cube, splits parallel to a line, part %d" % part, [CUBE], 5, "prism", False, 10, 1300 + part)
        t("cube, splits around an inner point, part %d" % part, [CUBE], 6, "around", part % 2 == 1, 6, 1100 + part)
        t("tetrahedron, oblique planes, part %d" % part, [TETRA], 4, "free", False, 12, 100 + part)
        t("tetrahedron, axis-aligned planes, part %d" % part, [TETRA], 4, "axis", False, 12, 200 + part)
        t("cube, axis-aligned planes, part %d" % part, [CUBE], 4, "axis", False, 8, 300 + part)
        t("cube, oblique planes, part %d" % part, [CUBE], 4, "free", False, 8, 400 + part)
        t("pyramid added to a split tree, part %d" % part, [PYRAMID], 3, "free", True, 8, 500 + part)
        t("two tetrahedra, five splits, part %d" % part, [TETRA, TETRA], 5, "axis", True, 5, 600 + part)
    chk.par(tasks)
    for k in ("cells", "signs", "leaves", "nonzero"):
        chk.extra[k] = sum((o["detail"] or {}).get(k, 0) for o in chk.obs if isinstance(o["detail"], dict))
    if not chk.extra["nonzero"] and all(o["status"] == PROVED for o in chk.obs):
        from check import CheckError
        raise CheckError("no leaf inside a mesh was reached")
