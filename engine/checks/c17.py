"""The border of a BSP node within a box."""
import random
from fractions import Fraction
from harness import *
import dd
from checks.bspmodel import *
from checks.c11 import Unset, Reader, integral
from checks.c13 import BoolCase, bad_facet, bad_partners, winding, facet, within, on, dot3, cross3, finish
from checks.c12 import sub
from checks.c25 import bad_access, leaked

LEVEL = "other"


class Box(BoolCase):
    def __init__(self, rng, levels, style):
        self.rng = rng
        self.vals = {}
        self.h, self.turn, self.tris, self.ids, self.polys = [], [], {}, [], []
        den = rng.randint(1, 4)
        lo = [rng.randint(-9, 3) for _ in range(3)]
        hi = [x + rng.randint(2, 9) for x in lo]
        s = rng.choice((1, 1, -1))
        for k in range(3):
            self.vals["l%d" % k] = s * lo[k]
            self.vals["u%d" % k] = s * hi[k]
        self.vals["dn"] = s * den
        self.lo = [Fraction(x, den) for x in lo]
        self.hi = [Fraction(x, den) for x in hi]
        goal = [a + (b - a) * Fraction(rng.randint(1, 99), 100) for a, b in zip(self.lo, self.hi)]
        seen = []
        for lv in range(levels):
            while True:
                u = rng.random()
                k = rng.randrange(3)
                p = [a + (b - a) * Fraction(rng.randint(1, 19), 20) for a, b in zip(self.lo, self.hi)]
                if style == "walls" and u < 0.5:
                    # a plane that holds a wall of the box
                    n = [0, 0, 0]
                    n[k] = rng.choice((1, -1, 3))
                    p = [rng.choice((a, b)) for a, b in zip(self.lo, self.hi)]
                elif style != "free" and u < 0.8:
                    n = [0, 0, 0]
                    n[k] = rng.choice((1, -1, -2))
                    if u < 0.65:
                        n[(k + 1) % 3] = rng.choice((1, -1))
                else:
                    n = [rng.randint(-4, 4) for _ in range(3)]
                    if u < 0.3:
                        # through a corner or an edge of the box
                        p = [rng.choice((a, b, x)) for a, b, x in zip(self.lo, self.hi, p)]
                if not any(n):
                    continue
                h = integral(n + [dot3(n, p)])
                cs = [dot3(h[:3], q) - h[3] for q in self.corners()]
                wall = sum(x == 0 for x in cs) == 4 and sum(map(bool, n)) == 1
                if wall and style != "walls" or not wall and not (min(cs) < 0 < max(cs)):
                    continue
                if any(self.parallel(h, g) for g in seen):
                    continue
                break
            seen.append(h)
            side = dot3(h[:3], goal) - h[3]
            self.turn.append(int(side > 0) if rng.random() < 0.85 or wall else rng.randrange(2))
            for i in range(4):
                self.vals["h%d" % (4 * lv + i)] = h[i]
            self.h.append([var("h%d" % (4 * lv + i)) for i in range(4)])
        self.sync()

    def corners(self):
        import itertools
        return list(itertools.product(*zip(self.lo, self.hi)))

    def planes(self):
        r = []
        for k in range(3):
            for s, w in ((1, "u"), (-1, "l")):
                n = [0, 0, 0]
                n[k] = var("dn")
                if s * self.vals["dn"] < 0:
                    n[k] = pneg(var("dn"))
                d = var("%s%d" % (w, k))
                r.append((0, n + [d if s * self.vals["dn"] > 0 else pneg(d)]))
        for h, t in zip(self.h, self.turn):
            r.append((1, [pneg(x) for x in h] if t else h))
        return r

    def inside(self, p):
        if not all(a < x < b for a, x, b in zip(self.lo, p, self.hi)):
            return False
        for h, t in zip(self.hv(), self.turn):
            s = dot3(h[:3], p) - h[3]
            if (s > 0) != bool(t):
                return False
        return True


def run(chk, c, fn):
    cell = dd.Cell(Env(dict(c.env.vals)))
    dd.CELL[0] = cell
    try:
        codes, geo = chk.s.run(fn, In([len(c.h)] + c.turn, 8),
                               In([var(x) for x in ("l0", "l1", "l2", "u0", "u1", "u2", "dn")]),
                               In([x for h in c.h for x in h] or [0]), Out(3000, "i64"), Out(6000))
        bad = (bad_access(chk, TRUE) or leaked(chk))
    finally:
        dd.CELL[0] = None
    if bad:
        return "an assertion fails or memory is misused", cell
    return Reader(codes, geo), cell


def one(chk, c, fn, stats):
    r, cell = run(chk, c, fn)
    stats["signs"] += len(cell.asked)
    if isinstance(r, str):
        return REFUTED, r
    k = r.code()
    if not 0 <= k < 200:
        return REFUTED, "%d polygons" % k
    fs = []
    closed = fn == "wv_border"
    for _ in range(k):
        f = facet(c, r)
        if closed:
            f.partner = [[r.code() for _ in range(4)] for _ in f.p]
        else:
            f.id = 1
        bad = bad_facet(c, f)
        if bad:
            return REFUTED, bad
        fs.append(f)
    stats["polygons"] += k
    rng = c.rng
    pts = []
    for _ in range(60):
        pts.append([a - (b - a) / 10 + (b - a) * Fraction(rng.randint(0, 1200), 1000) for a, b in zip(c.lo, c.hi)])
    if closed:
        tri = [(f.p[0], f.p[i], f.p[i + 1]) for f in fs for i in range(1, len(f.p) - 1)]
        for t in tri:
            w = [rng.randint(1, 9) for _ in t]
            p = [Fraction(sum(k * v[i] for k, v in zip(w, t)), sum(w)) for i in range(3)]
            n = cross3(sub(t[1], t[0]), sub(t[2], t[0]))
            m = max(abs(x) for x in n)
            pts += [[x + s * y / m / 9999 for x, y in zip(p, n)] for s in (1, -1)]
        for q in pts:
            for _ in range(6):
                far = [x + 10 ** 5 * rng.randint(-10 ** 4, 10 ** 4) + Fraction(rng.randint(-999, 999), 1009) for x in q]
                got = winding(tri, q, far)
                if got is not None:
                    break
            else:
                continue
            stats["points"] += 1
            want = int(c.inside(q))
            stats["inside"] += want
            if got != want:
                return REFUTED, "the border surrounds a point %d times, should be %d" % (got, want)
        bad = bad_partners(fs, False, stats)
        return (REFUTED, bad) if bad else (PROVED, None)
    # points of the split planes
    for l, (h, t) in enumerate(zip(c.hv(), c.turn)):
        for _ in range(40):
            p = [a - (b - a) / 10 + (b - a) * Fraction(rng.randint(0, 1200), 1000) for a, b in zip(c.lo, c.hi)]
            i = rng.choice([i for i in range(3) if h[i]])
            p[i] += Fraction(h[3] - dot3(h[:3], p)) / h[i]
            out = -1 if not t else 1
            q = [x + out * Fraction(y) / 10 ** 9 for x, y in zip(p, h[:3])]
            near = [x for x in fs if on(x.plane, p)]
            got = sum(within(x.p, x.plane, p) for x in near)
            if any(x.plane and any(dot3(cross3(sub(x.p[(k + 1) % len(x.p)], a), sub(p, a)), x.plane[:3]) == 0
                                   for k, a in enumerate(x.p)) for x in near):
                continue
            on_wall = any(p[k] in (c.lo[k], c.hi[k]) for k in range(3))
            if on_wall and not all(a <= x <= b for a, x, b in zip(c.lo, p, c.hi)):
                continue
            if on_wall:
                want = None         # in a wall of the box: either
                continue
            want = int(c.inside(q))
            stats["points"] += 1
            stats["inside"] += want
            if got != want:
                return REFUTED, "%d border polygons at a point of split plane %d, should be %d" % (got, l, want)
    return PROVED, None


def section(chk, c, fn, stats):
    """one plane, anywhere, with the box; or the walls of the box"""
    cell = dd.Cell(Env(dict(c.env.vals)))
    dd.CELL[0] = cell
    try:
        box = In([var(x) for x in ("l0", "l1", "l2", "u0", "u1", "u2", "dn")])
        out = (Out(900, "i64"), Out(900))
        codes, geo = chk.s.run(fn, box, *((In(c.h[0]),) if fn == "wv_section" else ()), *out)
        bad = (bad_access(chk, TRUE) or leaked(chk))
    finally:
        dd.CELL[0] = None
    stats["signs"] += len(cell.asked)
    if bad:
        return REFUTED, "an assertion fails or memory is misused"
    r = Reader(codes, geo)
    k = r.code()
    fs = []
    for _ in range(k if 0 <= k < 30 else 0):
        f = facet(c, r)
        f.id = int(fn == "wv_section")
        bad = bad_facet(c, f)
        if bad:
            return REFUTED, bad
        fs.append(f)
    stats["polygons"] += k
    if fn == "wv_walls":
        import itertools
        if k != 6 or len(set(tuple(int(x > 0) - int(x < 0) for x in f.plane[:3]) for f in fs)) != 6:
            return REFUTED, "the walls are not the six sides"
        for f in fs:
            want = [p for p in map(list, c.corners()) if on(f.plane, p)]
            if len(f.p) != 4 or sorted(want) != sorted(f.p):
                return REFUTED, "a wall does not have the corners of its side"
        stats["inside"] += 1
        return PROVED, None
    h = c.hv()[0]
    cs = [dot3(h[:3], q) - h[3] for q in c.corners()]
    area = min(cs) < 0 < max(cs) or sum(x == 0 for x in cs) == 4
    if area != (k == 1):
        return REFUTED, "the section %s, %d polygons" % ("has area" if area else "has no area", k)
    stats["inside"] += area
    if not area:
        return PROVED, None
    f = fs[0]
    if not all(a <= x <= b for p in f.p for a, x, b in zip(c.lo, p, c.hi)):
        return REFUTED, "the section leaves the box"
    for _ in range(60):
        p = [a - (b - a) / 10 + (b - a) * Fraction(c.rng.randint(0, 1200), 1000) for a, b in zip(c.lo, c.hi)]
        i = c.rng.choice([i for i in range(3) if h[i]])
        p[i] += Fraction(h[3] - dot3(h[:3], p)) / h[i]
        if all(a < x < b for a, x, b in zip(c.lo, p, c.hi)):
            stats["points"] += 1
            if not all(dot3(cross3(sub(f.p[(j + 1) % len(f.p)], a), sub(p, a)), f.plane[:3]) >= 0 for j, a in enumerate(f.p)):
                return REFUTED, "the section misses a point"
    return PROVED, None


def loose(c, how):
    """any plane: missing, touching or cutting the box"""
    rng = c.rng
    n = [rng.randint(-4, 4) for _ in range(3)]
    for k in rng.sample(range(3), (0, 0, 1, 2)[how]):
        n[k] = 0
    if not any(n):
        n[rng.randrange(3)] = rng.choice((1, -2))
    u = rng.random()
    if u < 0.6:
        p = list(rng.choice(c.corners()))
        if u < 0.2:
            # through two or three corners
            a, b = rng.sample(c.corners(), 2)
            m = [rng.randint(-3, 3) for _ in range(3)]
            m = cross3(sub(b, a), m)
            if any(m):
                n, p = m, list(a)
    else:
        p = [a - (b - a) / 4 + (b - a) * Fraction(rng.randint(0, 30), 20) for a, b in zip(c.lo, c.hi)]
    h = integral(n + [dot3(n, p)])
    for i in range(4):
        c.vals["h%d" % i] = h[i]
    c.turn = [0]
    c.sync()


def batch(chk, name, fn, levels, style, number, seed):
    rng = random.Random(seed)
    with chk.ob(name) as o:
        res, why, wit = PROVED, None, None
        stats = {k: 0 for k in ("cells", "signs", "points", "inside", "polygons", "edges", "around")}
        for _ in range(number):
            if fn in ("wv_section", "wv_walls"):
                c = Box(rng, 1, "free")
                loose(c, levels)
            else:
                c = Box(rng, rng.randint(0, levels) if rng.random() < 0.2 else levels, style)
            o.entry = fn
            stats["cells"] += 1
            try:
                st, msg = (section if fn in ("wv_section", "wv_walls") else one)(chk, c, fn, stats)
            except (Unset, dd.NeverReturns) as e:
                st, msg = REFUTED, str(e)
            except Unsupported as e:
                st, msg = UNDECIDED, str(e)[:120]
                if "ostringstream" in msg or "basic_ostream" in msg:
                    st, msg = REFUTED, "an error is reported"
            o.where = o.where or chk.construct(chk.s)
            if st == REFUTED:
                res, why = st, msg
                wit = dict(c.vals, path=str(c.turn))
                break
            if st == UNDECIDED:
                res, why = st, msg
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail=stats)


def check(chk):
    chk.anchors = ("::GetNodeBorder", "AABB::IntersectPlane", "AABB::GetWalls")
    chk.rule = ("Trees are split along a path and the border of the last node within a box is computed; the program is interpreted "
                "with symbolic planes and box, one sign cell at a time. The border must surround exactly the points in the box "
                "and on the node's side of every split, with every edge joined to its neighbour; the open variant must have, on "
                "each split plane, exactly the part that bounds the node.")
    chk.session("csg.cpp", defines=())
    deep = chk.tier != "quick"
    tasks = [("sections, part %d" % part, lambda part=part: batch(chk, "sections, part %d" % part, "wv_section", part % 4, "", 60, 500 + part))
             for part in range(16 if deep else 8)]
    tasks.append(("walls", lambda: batch(chk, "walls", "wv_walls", 0, "", 20, 600)))
    for part in range(16 if deep else 4):
        for st in ("free", "axis", "walls"):
            for fn, nm in (("wv_border", "border"), ("wv_borderopen", "border without walls")):
                if st == "walls" and fn == "wv_borderopen":
                    continue
                tasks.append(("%s, %s planes, part %d" % (nm, st, part),
                              lambda nm=nm, st=st, part=part, fn=fn:
                              batch(chk, "%s, %s planes, part %d" % (nm, st, part), fn, 1 + part % 4, st, 8, 10 * part + len(st))))
    chk.par(tasks)
    finish(chk, "inside")
