"""Partitioning a node by the extents of its polygons."""
import random
from fractions import Fraction
from harness import *
import dd
import polygen as pg
from checks.bspmodel import *
from checks.c11 import Case, Unset, Reader, integral, through, count, same_set
from checks.c25 import bad_access, leaked

LEVEL = "other"


class GridCase(Case):
    """triangles and parallelograms with many equal coordinates"""

    def __init__(self, rng, number, levels, size):
        self.rng = rng
        self.vals = {}
        self.polys = []
        pool = []
        for k in range(number):
            while True:
                g = lambda: (rng.choice(pool) if pool and rng.random() < 0.3
                             else [rng.randrange(size) for _ in range(3)])
                ps = [list(g()) for _ in range(3)]
                if rng.random() < 0.45:
                    d = rng.randrange(3)
                    for p in ps:
                        p[d] = ps[0][d]
                pl = through(ps)
                if any(pl[:3]):
                    break
            if rng.random() < 0.5:
                ps.append([a - b + c for a, b, c in zip(ps[0], ps[1], ps[2])])
            pool += ps
            r = rng.randrange(len(ps))
            ps = ps[r:] + ps[:r]
            pl = integral(pl)
            kk = rng.randint(1, 3)
            pl = [kk * x for x in pl]
            hv = []
            for p in ps:
                w = rng.choice((1, 1, -1, 2, -3))
                hv.append([x * w for x in p] + [w])
            es = []
            for i in range(len(ps)):
                a, b = hv[i], hv[(i + 1) % len(ps)]
                s = rng.randint(1, 2) * (1 if a[3] * b[3] > 0 else -1)
                mm = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
                es.append([s * (b[t] * a[3] - a[t] * b[3]) for t in range(3)] + [s * x for x in mm])
            drop = rng.choice([i for i in range(3) if pl[i]])
            pre = "f%d_" % k
            e = pg.env(pl, hv, es, [0] * 4, pre)
            self.vals.update({q: v for q, v in e.items() if not q.startswith("h")})
            self.polys.append(([var(x) for x in pg.names(len(ps), pre)], len(ps), drop))
        self.h = []
        self.turn = []
        self.sync()
        self.model = Model(self.ev)
        cur = [self.polygon(k) for k in range(number)]
        for lv in range(levels):
            for _ in range(60):
                h = [0, 0, 0, rng.randint(0, 2 * size)]
                h[rng.randrange(3)] = rng.choice((2, -2, 1, 3))
                if rng.random() < 0.4:
                    h = self.plane(cur, rng.random())
                if h is None or not any(h[:3]) or any(self.parallel(h, g) for g in self.hv()):
                    continue
                go = {-1: [], 1: []}
                hh = list(h)
                for p in cur:
                    for side, q in self.model.split(p, hh, lv).items():
                        go[side].append(q)
                t = int(sum(not p.onp for p in go[1]) > sum(not p.onp for p in go[-1]))
                if sum(not p.onp for p in go[1 if t else -1]) > 1:
                    break
            else:
                break
            for i in range(4):
                self.vals["h%d" % (4 * lv + i)] = h[i]
            self.h.append([var("h%d" % (4 * lv + i)) for i in range(4)])
            self.sync()
            self.turn.append(t)
            cur = go[1 if t else -1]
        self.cur = cur









class R(Reader):
    def events(self):
        n = self.code()
        if not 0 <= n < 200:
            raise Unsupported("%d events" % n)
        return [(self.code(), self.code(), self.code()) for _ in range(n)]

    def infos(self, ids):
        return {i: [self.code() for _ in range(3)] for i in range(ids)}


def extent(c, p, d):
    xs = [c.point(e.v)[d] for e in p.edges]
    return min(xs), max(xs)


def bad_events(c, ev, polys, d):
    """None if the events describe the extents of the polygons along axis d"""
    n = len(polys)
    if len(ev) != 2 * n:
        return "%d events for %d polygons" % (len(ev), n)
    ext = [extent(c, p, d) for p in polys]
    seen = set()
    loc = [None] * len(ev)
    owner = [None] * len(ev)
    for i, (start, _, k) in enumerate(ev):
        if start:
            continue
        if not 0 <= k < n or k in seen:
            return "an end event names polygon %d" % k
        seen.add(k)
        owner[i] = k
        loc[i] = ext[k][1]
    used = set()
    for i, (start, _, k) in enumerate(ev):
        if not start:
            continue
        if not i < k < len(ev) or ev[k][0] or k in used:
            return "start event %d has partner %d" % (i, k)
        used.add(k)
        owner[i] = owner[k]
        loc[i] = ext[owner[k]][0]
    for i, (start, new, _) in enumerate(ev):
        if i == 0:
            if new != 1:
                return "the first event is not marked as a new location"
            continue
        if loc[i] < loc[i - 1]:
            return "event %d is before event %d" % (i, i - 1)
        if new != (loc[i] != loc[i - 1]):
            return "event %d: new location %d" % (i, new)
        if loc[i] == loc[i - 1] and not start and any(
                ev[j][0] and loc[j] == loc[i] and ext[owner[j]][1] != loc[i] for j in range(i)):
            return "event %d ends a polygon after others start at the same place" % i
    c.loc = loc
    c.owner = owner
    return None


def choose(c, rng, polys, old):
    """axis, place and plane, preferring places that cut polygons"""
    best = []
    for d in range(3):
        ext = [extent(c, p, d) for p in polys]
        for t in sorted(set(b for _, b in ext)):
            if any(h[d] and not any(h[x] for x in range(3) if x != d) and Fraction(h[3]) / h[d] == t for h in old):
                continue
            # also prefer flat polygons along the other axes, and equal places
            cut = [k for k, (a, b) in enumerate(ext) if a < t < b]
            tie = 0
            for e in range(3):
                xe = [extent(c, p, e) for p in polys]
                tie += e != d and any(xe[k][0] == xe[k][1] for k in cut)
            best.append((len(cut) + 2 * tie, rng.random(), d, t))
    best.sort(reverse=True)
    if not best:
        return None
    _, _, d, t = best[0 if rng.random() < 0.6 else min(rng.randrange(5), len(best) - 1)]
    # number of runs of ends before the one at t
    seq = []
    for x, k in sorted((x, k) for a, b in (extent(c, p, d) for p in polys)
                       for x, k in (((a, 1),) if a == b else ((a, 2), (b, 0)))):
        seq += [(x, 1), (x, 0)] if k == 1 else [(x, 1 if k else 0)]
    places = [x for i, (x, k) in enumerate(seq) if not k and (i + 1 == len(seq) or seq[i + 1][1])]
    at = [i for i, x in enumerate(places) if x == t]
    h = [0, 0, 0, t.numerator]
    h[d] = t.denominator
    return d, (rng.choice(at) if at and rng.random() < 0.9 else -1), h


def plan(c, rng, stages):
    """[dimension, candidate, child] per partition"""
    out = []
    polys = [p for p in c.cur if not p.onp]
    old = c.hv()
    for k in range(stages):
        r = choose(c, rng, polys, old)
        if r is None:
            break
        d, cand, h = r
        go = {-1: [], 1: []}
        for p in polys:
            for side, q in c.model.split(p, h, len(c.h) + k).items():
                if not q.onp:
                    go[side].append(q)
        t = rng.randrange(2) if rng.random() < 0.3 else int(len(go[1]) > len(go[-1]))
        out += [d, cand, t]
        polys = go[1 if t else -1]
        old = old + [h]
    return out or [rng.randrange(3), -1, 0]


def tree_info(chk, c, hs, turn, ids):
    """the same tree split by the ordinary operation, winding numbers per leaf"""
    q = [len(hs), len(c.polys), max(ids) + 1] + turn
    args = []
    for k, (a, n, drop) in enumerate(c.polys):
        q += [n, drop, ids[k], 0, 0]
        args += a
    codes, geo = chk.s.run("wv_bsp", In(q, 8), In(args), In([x for h in hs for x in h] or [0]), Out(6000, "i64"), Out(8000))
    return read_dump(R(codes, geo), len(hs), max(ids) + 1)


def read_dump(r, levels, ids):
    leaves, inner = [], []
    for l in range(levels + 1):
        if l < levels:
            inner.append([r.code() for _ in range(3)] + [r.geo(4)])
        lf, nc, nb = [r.code() for _ in range(3)]
        if not (0 <= nc < 100 and 0 <= nb < 100):
            raise Unsupported("a node reports %d and %d polygons" % (nc, nb))
        info = r.infos(ids)
        leaves.append((lf, [r.polygon() for _ in range(nc)], [r.polygon() for _ in range(nb)], info))
    return leaves, inner


def one(chk, c, stages, ids, stats):
    lv = len(c.h)
    q = [lv, len(c.polys), max(ids) + 1] + c.turn
    args = []
    for k, (a, n, drop) in enumerate(c.polys):
        q += [n, drop, ids[k], 0, 0]
        args += a
    q += [len(stages) // 3] + stages
    hs = [x for h in c.h for x in h] or [0]
    cell = dd.Cell(Env(dict(c.env.vals)))
    dd.CELL[0] = cell
    try:
        codes, geo = chk.s.run("wv_kd", In(q, 8), In(args), In(hs), Out(6000, "i64"), Out(8000))
        if (bad_access(chk, TRUE) or leaked(chk)):
            return REFUTED, "an assertion fails or memory is misused"
        r = R(codes, geo)
        turn = list(c.turn)
        cuts = []           # (axis, vertices of the polygon at the place, coordinate)
        side = []           # events of the child the path leaves
        for stage in range(len(stages) // 3 + 1):
            n = r.code()
            polys = [r.polygon() for _ in range(n)]
            events = [r.events() for _ in range(3)]
            for d in range(3):
                b = bad_events(c, events[d], polys, d)
                if b:
                    return REFUTED, "axis %d%s: %s" % (d, " of a child after a split along axis %d" % cuts[-1][0] if cuts else "", b)
            again = r.code()
            if not again:
                break
            dim, cand, t = stages[3 * stage:3 * stage + 3]
            ev = events[dim]
            bad_events(c, ev, polys, dim)
            loc, owner = c.loc, c.owner
            idx, neg, pos = [r.code() for _ in range(3)]
            if not 0 <= idx < 2 * n or ev[idx][0] or (idx + 1 < 2 * n and not ev[idx + 1][0]):
                return REFUTED, "event %d is no place to split" % idx
            if neg != sum(e[0] for e in ev[:idx + 1]) or pos != sum(not e[0] for e in ev[idx + 1:]):
                return REFUTED, "counts %d and %d at the place of lowest cost" % (neg, pos)
            if again == 2:
                break
            if cand >= 0:
                places = [i for i in range(2 * n) if not ev[i][0] and (i + 1 == 2 * n or ev[i + 1][0])]
                idx = places[cand % len(places)]
            cnt = [r.code() for _ in range(3)]
            at = loc[idx]
            kinds = [0, 0, 0]
            for a, b in (extent(c, p, dim) for p in polys):
                if a == b == at:
                    kinds[2] += 1
                else:
                    kinds[0] += a < at
                    kinds[1] += b > at
            if cnt != kinds:
                return REFUTED, "discounted counts %s, should be %s" % (cnt, kinds)
            stats["split"] += sum(kinds) - n
            stats["flat"] += kinds[2]
            stats["partitions"] += 1
            cuts.append((dim, polys[owner[idx]], at))
            side.append([r.events() for _ in range(3)])
            turn.append(t)
        levels = r.code()
        if levels != len(turn):
            return REFUTED, "%d levels" % levels
        leaves, inner = read_dump(r, levels, max(ids) + 1)
        planes = list(c.h)
        for (dim, poly, at), x in zip(cuts, inner[lv:]):
            h = x[3]
            if any(not isinstance(x, (int, Poly)) for x in h):
                return UNDECIDED, "split plane is not a polynomial"
            okp = False
            for e in poly.edges:
                if c.point(e.v)[dim] != at:
                    continue
                s = 1 if c.ev(e.v[3]) > 0 else -1
                w = [0, 0, 0, pmul(s, e.v[dim])]
                w[dim] = pmul(s, e.v[3])
                okp = okp or same_tuple(c.ev, h, w, False)
            if not okp:
                return REFUTED, "the split plane is not at the chosen place"
            planes.append(h)
        want = c.model.tree([c.polygon(k, ids[k]) for k in range(len(c.polys))], planes, turn)
        weak = False
        for k, ((lf, ci, cb, info), (wi, wb)) in enumerate(zip(leaves, want)):
            name = "leaf %d" % k
            if not lf & 1:
                return REFUTED, name + " is not a leaf"
            for got, exp, what in ((ci, wi, "contents"), (cb, wb, "border contents")):
                x = same_set(c.ev, got, exp)
                if x == "undecided":
                    weak = True
                elif x:
                    return REFUTED, "%s, %s: %s" % (name, what, x)
            for i, (a, b, _) in info.items():
                if (a, b) != (count(wi, i), count(wb, i)):
                    return REFUTED, "%s counts %d interior and %d border polygons of id %d, has %d and %d" % (
                        name, a, b, i, count(wi, i), count(wb, i))
        for j, evs in enumerate(side):
            for d in range(3):
                b = bad_events(c, evs[d], leaves[lv + j][1], d)
                if b:
                    return REFUTED, "axis %d of a child after a split along axis %d: %s" % (d, cuts[j][0], b)
        ref, _ = tree_info(chk, c, planes, turn, ids)
        for k, (x, y) in enumerate(zip(leaves, ref)):
            for i in x[3]:
                if x[3][i] != y[3][i]:
                    return REFUTED, "leaf %d: id %d has %s, after an ordinary split %s" % (k, i, x[3][i], y[3][i])
    finally:
        stats["signs"] += len(cell.asked)
        dd.CELL[0] = None
    return (UNDECIDED, "not proved equal") if weak else (PROVED, None)


def batch(chk, name, number, levels, size, stages, times, seed):
    rng = random.Random(seed)
    with chk.ob(name) as o:
        res, why, wit = PROVED, None, None
        stats = {"cells": 0, "signs": 0, "split": 0, "flat": 0, "partitions": 0}
        for t in range(times):
            c = GridCase(rng, rng.choice(number), levels, size)
            ids = [rng.choice((0, 0, 1, 2)) for _ in c.polys]
            o.entry = "wv_kd"
            stats["cells"] += 1
            try:
                st, msg = one(chk, c, plan(c, rng, stages), ids, stats)
            except (Unset, dd.NeverReturns) as e:
                st, msg = REFUTED, str(e)
            except Unsupported as e:
                st, msg = UNDECIDED, str(e)[:120]
            o.where = o.where or chk.construct(chk.s)
            if st == REFUTED:
                res, why = st, msg
                wit = dict(c.vals, turn=str(c.turn), ids=str(ids))
                break
            if st == UNDECIDED:
                res, why = st, msg
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail=stats)


def check(chk):
    chk.anchors = ("PolygonEventPointPartition::ApplyPrimary", "PolygonEventPointPartition::ApplySecondary",
                   "PolygonEventPointPartition::DiscountBorderPolygons", "MakeEventPoints")
    chk.rule = ("The event lists of a node, the choice of a place, and the partition are interpreted with symbolic vertices, "
                "lines and planes, one sign cell at a time, with many equal coordinates. The lists must describe the extents "
                "of the polygons, and both children must be what an ordinary split by the same plane gives, with the lists of "
                "all three axes again describing their polygons.")
    chk.session("bsp.cpp", defines=())
    deep = chk.tier != "quick"
    tasks = []

    def t(name, *a):
        tasks.append((name, lambda: batch(chk, name, *a)))
    for part in range(40 if deep else 6):
        t("few polygons, part %d" % part, (1, 2, 3), 0, 3, 2, 10, 100 + part)
        t("more polygons, part %d" % part, (4, 5, 6), 0, 4, 1, 6, 200 + part)
        t("more polygons, three partitions, part %d" % part, (4, 5, 6), 0, 3, 3, 5, 700 + part)
        t("many polygons, part %d" % part, (7, 8), 0, 3, 2, 5, 600 + part)
        t("many equal coordinates, part %d" % part, (5, 6, 7), 0, 2, 2, 6, 300 + part)
        t("after one split, part %d" % part, (4, 5), 1, 4, 2, 5, 400 + part)
        t("after two splits, part %d" % part, (4, 5), 2, 4, 1, 4, 500 + part)
    chk.par(tasks)
    for k in ("cells", "signs", "split", "flat", "partitions"):
        chk.extra[k] = sum((o["detail"] or {}).get(k, 0) for o in chk.obs if isinstance(o["detail"], dict))
    if not (chk.extra["split"] and chk.extra["flat"]) and all(o["status"] == PROVED for o in chk.obs):
        from check import CheckError
        raise CheckError("no polygon was split, or none lay in the plane")
