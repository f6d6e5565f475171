"""Splitting BSP nodes."""
import random
from fractions import Fraction
from harness import *
import dd
import polygen as pg
from checks.bspmodel import *
from checks.c25 import bad_access, leaked

LEVEL = "other"


def integral(h):
    m = 1
    for x in h:
        m = m * Fraction(x).denominator // _g(m, Fraction(x).denominator)
    r = [int(Fraction(x) * m) for x in h]
    g = 0
    for x in r:
        g = _g(g, abs(x))
    return [x // g for x in r] if g else r


def _g(a, b):
    while b:
        a, b = b, a % b
    return a


def through(ps):
    a, b, c = ps
    u = [y - x for x, y in zip(a, b)]
    v = [y - x for x, y in zip(a, c)]
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return n + [sum(x * y for x, y in zip(n, a))]


class Case:
    """polygons and split planes: symbols plus a representative"""

    def __init__(self, rng, sizes, levels, late=False):
        self.rng = rng
        self.vals = {}
        self.polys = []
        self.meta = []
        for k, n in enumerate(sizes):
            drop = rng.randrange(3)
            pts = pg.shapes(n, rng)[-1 if rng.random() < 0.4 else 0]
            pts = [(x // 40 + rng.randint(-1, 1), y // 40) for x, y in pts] if n < 5 else pts
            while any(turn2(pts[i - 2], pts[i - 1], pts[i]) <= 0 for i in range(len(pts))):
                pts = pg.shapes(n, rng)[0]
            inst = pg.instance(pts, (1, 0, 0), rng.randrange(n), drop, rng, rng.choice((1, -1)))
            pre = "ab"[k]
            e = pg.env(*inst[:3], [0] * 4, pre)
            self.vals.update({q: v for q, v in e.items() if not q.startswith("h")})
            args = [var(x) for x in pg.names(n, pre)]
            self.polys.append((args, n, drop))
        self.h = []
        self.turn = []
        self.env = Env({})
        self.sync()
        self.model = Model(self.ev)
        cur = [self.polygon(k) for k in range(len(sizes))]
        for lv in range(levels):
            want = self.rng.random()
            for _ in range(60):
                h = self.plane(cur, want)
                if h is None or not any(h[:3]):
                    continue
                if any(self.parallel(h, g) for g in self.hv()):
                    continue
                break
            else:
                h = [rng.randint(-5, 5), rng.randint(-5, 5), 7, rng.randint(-99, 99)]
            for i in range(4):
                self.vals["h%d" % (4 * lv + i)] = h[i]
            self.h.append([var("h%d" % (4 * lv + i)) for i in range(4)])
            self.sync()
            go = {-1: [], 1: []}
            for p in cur:
                for side, q in self.model.split(p, self.h[lv], lv).items():
                    go[side].append(q)
            t = rng.randrange(2)
            if not go[1 if t else -1]:
                t = 1 - t
            self.turn.append(t)
            cur = go[1 if t else -1]

    def hv(self):
        return [[self.vals["h%d" % (4 * k + i)] for i in range(4)] for k in range(len(self.h))]

    @staticmethod
    def parallel(a, b):
        return all(a[i] * b[j] == a[j] * b[i] for i in range(4) for j in range(i))

    def sync(self):
        self.env = Env({list(pvars(var(k)))[0]: v for k, v in self.vals.items()})

    def ev(self, p):
        return self.env.poly(p)

    def polygon(self, k, pid=None):
        args, n, _ = self.polys[k]
        return Polygon(k if pid is None else pid, args[:4],
                       [Edge(args[4 + 10 * i:8 + 10 * i], args[8 + 10 * i:14 + 10 * i]) for i in range(n)])

    def point(self, v):
        w = self.ev(v[3])
        return [Fraction(self.ev(x), w) for x in v[:3]]

    def plane(self, cur, want):
        rng = self.rng
        if not cur:
            return [rng.randint(-9, 9) for _ in range(4)]
        p = rng.choice(cur)
        pts = [self.point(e.v) for e in p.edges]
        n = len(pts)
        rp = lambda: [rng.randint(-30, 30) for _ in range(3)]
        if want < 0.12:
            if p.onp:
                return None
            k = rng.choice((1, -1, 2, -3))
            return [k * self.ev(x) for x in p.plane]
        if want < 0.3:
            i = rng.randrange(n)
            q = [pts[i], pts[(i + 1) % n], rp()]
        elif want < 0.45:
            i, j = rng.sample(range(n), 2)
            q = [pts[i], pts[j], rp()]
        elif want < 0.6:
            q = [rng.choice(pts), rp(), rp()]
        elif want < 0.9:
            i = rng.randrange(n)
            f = [Fraction(rng.randint(1, 9), 10) for _ in range(2)]
            m = [[a + (b - a) * t for a, b in zip(pts[k % n], pts[(k + 1) % n])] for k, t in zip((i, i + 1), f)]
            q = [m[0], m[1], rp()]
        else:
            q = [rp(), rp(), rp()]
        h = integral(through(q))
        if rng.random() < 0.5:
            h = [-x for x in h]
        return h


def turn2(a, b, c):
    return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])


def count(xs, i):
    return sum(1 for p in xs if p.id == i)


class Unset(Exception):
    pass


class Reader:
    def __init__(self, codes, geo):
        self.c, self.g, self.i, self.j = codes, geo, 0, 0

    def code(self):
        x = self.c[self.i]
        self.i += 1
        if isinstance(x, Node) and x.a is None and x.v is dd.UNDEF:
            raise Unset("a reported value was never set")
        if not isinstance(x, Node) or x.a is not None or not isinstance(x.v, int):
            raise Unsupported("a reported number is not constant in the cell")
        return x.v if x.v < 1 << 63 else x.v - (1 << 64)

    def geo(self, n):
        r = self.g[self.j:self.j + n]
        self.j += n
        return [x.v if isinstance(x, Node) and x.a is None else x for x in r]

    def polygon(self):
        pid, n, drop, onp = [self.code() for _ in range(4)]
        if not 0 < n < 40:
            raise Unsupported("vertex count %d" % n)
        plane = self.geo(4)
        es = []
        for _ in range(n):
            cs = [self.code() for _ in range(4)]
            v, l = self.geo(4), self.geo(6)
            es.append(Edge(v, l, *cs))
        p = Polygon(pid, plane, es, onp)
        p.drop = drop
        return p


def match(ev, got, want):
    """None if equal, else what differs; 'undecided' when not provable"""
    n = len(want.edges)
    if got.id != want.id:
        return "content id"
    if len(got.edges) != n:
        return "vertex count"
    if got.onp != want.onp:
        return "node plane side"
    r = same_tuple(ev, got.plane, want.plane, False)
    if r is False:
        return "plane"
    if got.drop not in (0, 1, 2) or ev(want.plane[got.drop]) == 0:
        return "drop dimension"
    weak = r is None
    best = None
    for rot in range(n):
        why = None
        soft = weak
        for k in range(n):
            a, b = got.edges[k], want.edges[(k + rot) % n]
            r = same_tuple(ev, a.v, b.v, True)
            if r is False:
                why = why or "vertex"
                break
            soft = soft or r is None
            r = same_tuple(ev, a.line, b.line, False)
            if r is False:
                why = "edge line"
                break
            soft = soft or r is None
            if a.codes() != b.codes():
                why = "split records %s of an edge, should be %s" % (a.codes(), b.codes())
                break
        else:
            return "undecided" if soft else None
        if best is None or why != "vertex":
            best = why
    return best


def same_set(ev, got, want):
    if len(got) != len(want):
        return "%d polygons, should be %d" % (len(got), len(want))
    left = list(want)
    res = None
    for g in got:
        whys = []
        for w in left:
            r = match(ev, g, w)
            if r is None or r == "undecided":
                res = res or r
                left.remove(w)
                break
            whys.append(r)
        else:
            whys.sort(key=lambda x: ("records" not in x, "line" not in x, x))
            return whys[0]
    return res


def run(chk, c, fn, at, how, ids):
    """-> per leaf: (is leaf, contents, borders, {id: (interior, border, pwn)}), interior nodes"""
    np, lv = len(c.polys), len(c.h)
    q = [lv, np, max(ids) + 1] + c.turn
    args = []
    for k, (a, n, drop) in enumerate(c.polys):
        q += [n, drop, ids[k], at[k], how[k]]
        args += a
    hs = [x for h in c.h for x in h]
    cell = dd.Cell(Env(dict(c.env.vals)))
    dd.CELL[0] = cell
    try:
        codes, geo = chk.s.run(fn, In(q, 8), In(args), In(hs), Out(2000, "i64"), Out(2500))
        bad = (bad_access(chk, TRUE) or leaked(chk))
    finally:
        dd.CELL[0] = None
    if bad:
        return "an assertion fails or memory is misused", cell
    r = Reader(codes, geo)
    leaves, inner = [], []
    for l in range(lv + 1):
        if l < lv:
            inner.append([r.code() for _ in range(3)] + [r.geo(4)])
        lf, nc, nb = [r.code() for _ in range(3)]
        if not (0 <= nc < 50 and 0 <= nb < 50):
            return "a node reports %d and %d polygons" % (nc, nb), cell
        info = {i: [r.code() for _ in range(3)] for i in range(max(ids) + 1)}
        leaves.append((lf, [r.polygon() for _ in range(nc)], [r.polygon() for _ in range(nb)], info))
    return (leaves, inner), cell


def one(chk, c, fn, at, how, ids, cells):
    """-> (status, why)"""
    res, cell = run(chk, c, fn, at, how, ids)
    cells.append(len(cell.asked))
    if isinstance(res, str):
        return REFUTED, res
    leaves, inner = res
    weak = False
    for k, (lf, nc, nb, split) in enumerate(inner):
        if lf or nc or nb:
            return REFUTED, "the node split at level %d keeps %d and %d polygons" % (k, nc, nb)
        if same_tuple(c.ev, split, c.h[k], False) is False:
            return REFUTED, "split plane at level %d" % k
    want = c.model.tree([c.polygon(k, ids[k]) for k in range(len(c.polys))], c.h, c.turn)
    for k, ((lf, ci, cb, info), (wi, wb)) in enumerate(zip(leaves, want)):
        name = "leaf %d" % k
        if not lf & 1:
            return REFUTED, name + " is not a leaf"
        for got, exp, what in ((ci, wi, "contents"), (cb, wb, "border contents")):
            r = same_set(c.ev, got, exp)
            if r == "undecided":
                weak = True
            elif r:
                return REFUTED, "%s, %s: %s" % (name, what, r)
        for i, (a, b, _) in info.items():
            if (a, b) != (count(wi, i), count(wb, i)):
                return REFUTED, "%s counts %d interior and %d border polygons of id %d, has %d and %d" % (
                    name, a, b, i, count(wi, i), count(wb, i))
    if any(at):
        # winding numbers do not depend on when contents were added
        ref, _ = run(chk, c, fn, [0] * len(at), how, ids)
        if isinstance(ref, str):
            return REFUTED, ref
        for k, (x, y) in enumerate(zip(leaves, ref[0])):
            for i in x[3]:
                if x[3][i][2] != y[3][i][2]:
                    return REFUTED, "leaf %d has winding number %d of id %d when added late, %d when added before the splits" % (
                        k, x[3][i][2], i, y[3][i][2])
    return (UNDECIDED, "not proved equal") if weak else (PROVED, None)


def batch(chk, name, sizes, levels, fn, late, number, seed):
    rng = random.Random(seed)
    with chk.ob(name) as o:
        res, why, wit, cells = PROVED, None, None, []
        for t in range(number):
            c = Case(rng, sizes, levels)
            at = [rng.randint(0, levels) if late else 0 for _ in sizes]
            if late and not any(at):
                at[-1] = levels
            how = [rng.randrange(5) for _ in sizes]
            ids = [0, rng.choice((0, 1, 2))][:len(sizes)]
            rng.shuffle(ids)
            o.entry = fn
            try:
                st, msg = one(chk, c, fn, at, how, ids, cells)
            except (Unset, dd.NeverReturns) as e:
                st, msg = REFUTED, str(e)
            except Unsupported as e:
                st, msg = UNDECIDED, str(e)[:120]
            o.where = o.where or chk.construct(chk.s)
            if st == REFUTED:
                res, why = st, msg
                wit = dict(c.vals, turn=str(c.turn), added_at=str(at), how=str(how), ids=str(ids))
                break
            if st == UNDECIDED:
                res, why = st, msg
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail={"cells": len(cells), "signs": sum(cells), "found": why})


def check(chk):
    chk.anchors = ("::PushContentsToChildren", "::PushBorderContentsToChildren")
    chk.rule = ("Building a tree, adding polygons and splitting is interpreted with symbolic vertices, lines and planes, one "
                "sign cell at a time (the signs the code asks about are those at a representative, and are recorded). Every "
                "leaf must hold exactly the pieces on its side with the recorded split planes of their edges and vertices, "
                "the counters must agree, and nothing may depend on when the contents were added.")
    chk.session("bsp.cpp", defines=())
    deep = chk.tier != "quick"
    k = 20 if deep else 4
    tasks = []

    def t(name, *a):
        tasks.append((name, lambda: batch(chk, name, *a)))
    for part in range(2 * k):
        t("one polygon, one split, part %d" % part, [3 + part % 3], 1, "wv_bsp", False, 24, 100 + part)
        t("one polygon, two splits, part %d" % part, [3 + part % 3], 2, "wv_bsp", False, 16, 200 + part)
        t("one polygon, three splits, part %d" % part, [3 + part % 2], 3, "wv_bsp", False, 12, 300 + part)
        t("polygon added to a split tree, part %d" % part, [3 + part % 2], 2, "wv_bsp", True, 12, 400 + part)
        t("two polygons, some added to a split tree, part %d" % part, [3, 3 + part % 2], 2, "wv_bsp", True, 12, 500 + part)
        t("two polygons, four splits, part %d" % part, [3, 3], 4, "wv_bsp", True, 6, 600 + part)
        t("polygon with bounding box, two splits, part %d" % part, [3 + part % 2], 2, "wv_bspbox", part % 2 == 1, 5, 700 + part)
    t("large polygon, two splits", [11], 2, "wv_bsp", False, 6, 801)
    chk.par(tasks)
    chk.extra["cells"] = sum((o["detail"] or {}).get("cells", 0) for o in chk.obs if isinstance(o["detail"], dict))
    chk.extra["sign_conditions"] = sum((o["detail"] or {}).get("signs", 0) for o in chk.obs if isinstance(o["detail"], dict))
