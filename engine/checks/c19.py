"""Splitting a convex polygon by a plane."""
import random
import sys
import time
from harness import *
import polygen as pg

LEVEL = "other"


def sg(x):
    return (x > 0) - (x < 0)


class Shape:
    """symbolic polygon, plane and splitting plane with a concrete instance"""

    def __init__(self, n, dd, inst, pre="", unit=False):
        self.n, self.dd = n, dd
        plane, vs, es, h = inst
        self.vals = pg.env(plane, vs, es, h, pre)
        self.args = [var(x) for x in pg.names(n, pre)]
        if unit:
            # integer vertices: denominators are the numbers 1 or -1
            for i in range(n):
                self.args[7 + 10 * i] = vs[i][3]
        self.h = [var("h%d" % i) for i in range(4)]
        self.nv = self.args[:3]
        self.d = self.args[3]
        self.v = [self.args[4 + 10 * i:8 + 10 * i] for i in range(n)]
        self.l = [self.args[8 + 10 * i:14 + 10 * i] for i in range(n)]
        self.num = Env({list(pvars(var(k)))[0]: v for k, v in self.vals.items()})
        # the split line in the dropped coordinates: hn*n_dd - n*hn_dd, oriented like the plane
        i1, i2 = pg.cyc(dd)
        nd, hd = self.nv[dd], self.h[dd]
        self.h2 = [psub(pmul(self.h[i], nd), pmul(self.nv[i], hd)) for i in (i1, i2)] + \
            [psub(pmul(self.h[3], nd), pmul(self.d, hd))]
        self.i = (i1, i2)

    def ev(self, p):
        return self.num.poly(p)

    def height(self, v):
        return padd(pmul(self.h2[0], v[self.i[0]]), pmul(self.h2[1], v[self.i[1]]))

    def at2(self, k):
        return psub(self.height(self.v[k]), pmul(self.h2[2], self.v[k][3]))

    def at3(self, k):
        return psub(padd(padd(pmul(self.h[0], self.v[k][0]), pmul(self.h[1], self.v[k][1])), pmul(self.h[2], self.v[k][2])),
                    pmul(self.h[3], self.v[k][3]))

    def atoms(self, full):
        """polynomials whose signs fix the combinatorial situation"""
        r = list(self.nv)
        r += cross(self.nv, self.h[:3])
        for k in range(self.n):
            r += [self.v[k][3], self.at2(k), self.at3(k)]
            if full:
                r.append(self.height(self.l[k]))
                if k:
                    r.append(psub(pmul(self.height(self.v[0]), self.v[k][3]), pmul(self.height(self.v[k]), self.v[0][3])))
        return [p for p in r if isinstance(p, Poly)]

    def ctx(self, full):
        c = TRUE
        for p in self.atoms(full):
            want = sg(self.ev(p))
            c = AND(c, map1(lambda x: TRUE if x == want else FALSE, S(p)))
        return c

    def signs(self):
        return [sg(self.ev(self.at3(k))) * sg(self.ev(self.v[k][3])) for k in range(self.n)]

    def signature(self, full):
        s = tuple(self.signs())
        if full:
            s += tuple(sg(self.ev(p)) for p in self.atoms(True)[6:])
        else:
            s += (sg(self.ev(self.nv[self.dd])),)
        return s

    def sample(self, rng, vals):
        return self.vals


def meet(l, h):
    D, M = l[:3], l[3:]
    c = cross(h[:3], M)
    return [padd(c[i], pmul(D[i], h[3])) for i in range(3)] + [dot(h[:3], D)]


def expect(sh):
    """the two children as cyclic lists of (point, line)"""
    s = sh.signs()
    n = sh.n
    newd = cross(sh.nv, sh.h[:3])
    newm = vsub(scale(sh.nv, sh.h[3]), scale(sh.h[:3], sh.d))
    out = []
    for side in (-1, 1):
        run = [k for k in range(n) if s[k] == side]
        k0 = next(k for k in run if s[k - 1] != side)
        edges = []
        k = k0
        while s[k % n] == side:
            edges.append((sh.v[k % n], sh.l[k % n]))
            k += 1
        line = list(newd) + list(newm)
        if side > 0:
            line = [pneg(t) for t in line]
        j = k % n
        last = (k - 1) % n
        edges.append((sh.v[j] if s[j] == 0 else meet(sh.l[last], sh.h), line))
        j = (k0 - 1) % n
        edges.append((sh.v[j] if s[j] == 0 else meet(sh.l[j], sh.h), sh.l[j]))
        out.append(edges)
    return out


def asleaf(nd, g):
    if g is not TRUE and isinstance(nd, Node) and nd.a is not None:
        nd = restrict(nd, g)
    return nd.v if isinstance(nd, Node) and nd.a is None else None


def samepoint(o, chk, a, b, g, sh):
    la = [asleaf(x, g) for x in a]
    if all(isinstance(x, (int, Poly)) for x in la):
        if all(x == y or x is y for x, y in zip(la, b)):
            return PROVED
        a = [leaf(x) for x in la]
    st, w = decide(not_same_point(a, [N(q) for q in b]), g, chk.rng, 6, (), sh.sample)
    return st


def sameray(o, chk, a, b, g, sh):
    la = [asleaf(x, g) for x in a]
    if all(isinstance(x, (int, Poly)) for x in la):
        if all(x is y or x == y for x, y in zip(la, b)):
            return PROVED
        a = [leaf(x) for x in la]
    st, w = decide(not_pos_multiple(a, [N(q) for q in b]), g, chk.rng, 6, (), sh.sample)
    return st


def num(sh, xs):
    r = []
    for x in xs:
        v = sh.num.node(x) if isinstance(x, Node) else sh.ev(x)
        r.append(v)
    return r


def child_ok(o, chk, sh, got, spec, g):
    """got: flat result buffer of one child; compares up to the start vertex"""
    m = len(spec)
    gv = [(got[4 + 10 * k:8 + 10 * k], got[8 + 10 * k:14 + 10 * k]) for k in range(m)]
    gp = [num(sh, a) for a, _ in gv]
    sp = [num(sh, a) for a, _ in spec]

    def same(p, q):
        return all(x * q[3] == y * p[3] for x, y in zip(p[:3], q[:3])) and p[3] and q[3]
    rots = [r for r in range(m) if all(same(gp[k], sp[(k + r) % m]) for k in range(m))]
    if not rots:
        return REFUTED
    r = rots[0]
    res = PROVED
    for k in range(m):
        a, l = gv[k]
        b, t = spec[(k + r) % m]
        for st in (samepoint(o, chk, a, b, g, sh), sameray(o, chk, l, t, g, sh)):
            if st == REFUTED:
                return REFUTED
            if st == UNDECIDED:
                res = UNDECIDED
    return res


def worst(a, b):
    for s in (REFUTED, UNDECIDED, PROVED):
        if s in (a, b):
            return s


def patterns(n, dd, nsign, rng, full, cap, seeds=1, unit=False):
    seen = {}
    for _ in range(seeds):
        for pts in pg.shapes(n, rng):
            for ln in pg.lines(pts, rng):
                for rot in range(n):
                    # cheap signature first
                    i = pg.instance(pts, ln, rot, dd, rng, nsign, unit)
                    sh = Shape(n, dd, i, unit=unit)
                    k = sh.signature(full)
                    if full:
                        k = k[:n] + tuple(k[n:])
                    if k in seen:
                        continue
                    seen[k] = sh
    r = list(seen.values())
    if cap and len(r) > cap:
        rng.shuffle(r)
        r = r[:cap]
    return r


def split_pattern(chk, o, sh, fn, full):
    """-> status of one pattern"""
    g = sh.ctx(full)
    n, dd = sh.n, sh.dd
    sz = 4 + 10 * (n + 2)
    r = chk.s.run(fn, In(sh.args), n, dd, In(sh.h), Out(6, "i64"), Out(sz), Out(sz), ctx=g)
    o.where = o.where or chk.construct(chk.s)
    o.entry = fn
    code, on, op = r
    s = sh.signs()
    spec_emit = [int(-1 in s), int(1 in s)]
    bad = FALSE
    for nt in chk.s.last.notes:
        if nt[0] in ("badload", "badstore", "undef-branch", "noreturn", "badfree"):
            bad = OR(bad, AND(g, nt[2]))
    if bad is not FALSE:
        return REFUTED, "invalid access"
    res = PROVED
    code = [asleaf(c, g) for c in code[:2]] + [code[k] for k in range(2, 6)]
    if None in code[:2]:
        return UNDECIDED, "emission flags"
    if [c & 0xff for c in code[:2]] != spec_emit:
        return REFUTED, "emitted sides"
    if sum(spec_emit) < 2:
        return PROVED, None
    code = code[:2] + [asleaf(c, g) for c in code[2:]]
    if None in code:
        return UNDECIDED, "vertex counts"
    e = expect(sh)
    if code[2:4] != [len(e[0]), len(e[1])]:
        return REFUTED, "vertex counts %s" % code[2:4]
    if any(c not in (0, 1, 2) for c in code[4:]):
        return REFUTED, "drop dimension"
    for got, spec in ((on, e[0]), (op, e[1])):
        if any(c != dd and sh.ev(sh.nv[c]) == 0 for c in code[4:]):
            return REFUTED, "drop dimension"
        st = sameray(o, chk, got[:4], list(sh.nv) + [sh.d], g, sh)
        res = worst(res, st)
        if st == REFUTED:
            return REFUTED, "plane of a child"
        st = child_ok(o, chk, sh, got, spec, g)
        res = worst(res, st)
        if st == REFUTED:
            return REFUTED, "edges of a child"
    return res, None


def group(chk, name, shapes, f):
    with chk.ob(name) as o:
        res, cnt, wit, why = PROVED, 0, None, None
        for sh in shapes:
            try:
                st, msg = f(o, sh)
            except Unsupported as e:
                st, msg = UNDECIDED, str(e)[:120]
            cnt += 1
            if st == REFUTED:
                res, wit, why = st, dict(sh.vals, signs=str(sh.signs())), msg
                break
            if st == UNDECIDED:
                res, why = st, msg
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail={"patterns": cnt})


def runs(a, b, n):
    return sorted(k % n for k in range(a, b)) if 0 <= b - a <= n else None


def ranges_pattern(chk, o, sh, fn, full):
    g = sh.ctx(full)
    n = sh.n
    o.entry = fn
    flip = sg(sh.ev(sh.nv[sh.dd]))
    h2 = [p if flip > 0 else pneg(p) for p in sh.h2]
    r = chk.s.run(fn, In(sh.args), n, sh.dd, *h2, Out(4, "i64"), ctx=g)
    o.where = o.where or chk.construct(chk.s)
    r = [asleaf(x, g) for x in r]
    if None in r:
        return UNDECIDED, "ranges"
    s = sh.signs()
    got = (runs(r[0], r[1], n), runs(r[2], r[3], n))
    want = ([k for k in range(n) if s[k] < 0], [k for k in range(n) if s[k] > 0])
    return (PROVED, None) if got == want else (REFUTED, "ranges %s, signs %s" % (r, s))


def parallel(chk, n, dd):
    """splitting plane parallel to the polygon: h = (k n, e)"""
    with chk.ob("split by a parallel plane, %d vertices, dropped axis %d" % (n, dd)) as o:
        args = [var(x) for x in pg.names(n)]
        k, e = V("k", "e")
        g = AND(NE0(args[dd]), NE0(k))
        r = o.run("wv_splitflags", In(args), n, dd, In([pmul(k, q) for q in args[:3]] + [e]), Out(2, "i64"), ctx=g)
        side = S(psub(pmul(k, args[3]), e))
        for x, want, what in ((r[0], -1, "below"), (r[1], 1, "above")):
            got = map1(lambda v: TRUE if v is not UNDEF and v & 255 else FALSE, x)
            o.equal(got, map1(lambda v: TRUE if v == want else FALSE, side), g, "emitted exactly when " + what)
        o.clean(g)


def check(chk):
    chk.anchors = ("::CreateSplitChildren", "::FindSplitRanges", "::GetSplitInfo")
    chk.rule = ("Splitting is interpreted once per pattern of signs that a convex polygon and a plane can show (which "
                "vertices are below, on or above, edge directions against the split line, denominator signs) with all "
                "coordinates, edge lines and planes left symbolic; the children must list exactly the parent's vertices "
                "of their side, the crossing points, the parent's edge lines and the new line, in order.")
    chk.session("poly.cpp", defines=("-DNDEBUG",), prefix="wv")
    deep = chk.tier != "quick"
    tasks = []

    def one(what, n, nsign, fn, full, cap, seeds, pat):
        rng = random.Random(n * 2 + nsign)
        sh = patterns(n, (n + (nsign > 0)) % 3, nsign, rng, full, cap, seeds)
        chk.extra_count = len(sh)
        group(chk, "%s, %d vertices, normal %s along the dropped axis" % (what, n, "positive" if nsign > 0 else "negative"),
              sh, lambda o, x: pat(chk, o, x, fn, full))

    for n in ((12, 11, 10, 8, 7, 6, 5, 4, 3) if deep else (10, 6, 5, 4, 3)):
        for nsign in (1, -1):
            for fn, what in (("wv_split", "split"), ("wv_splitm", "split of an expiring polygon")):
                cap = None if n < 10 else 400 if deep else 60
                tasks.append((what, lambda n=n, nsign=nsign, fn=fn, what=what, cap=cap:
                              one(what, n, nsign, fn, n >= 10, cap, 1, split_pattern)))
    for n in ((3, 4, 5, 6, 7, 8, 9, 13) if deep else (3, 4, 5, 6, 9)):
        for nsign in (1, -1):
            cap = 1500 if deep else 150
            tasks.append(("ranges", lambda n=n, nsign=nsign, cap=cap:
                          one("binary search for the split ranges", n, nsign, "wv_ranges_bisect", True, cap, 1, ranges_pattern)))
    for dd in range(3):
        tasks.append(("parallel", lambda dd=dd: parallel(chk, 3 + dd, dd)))
    chk.par(tasks)
    chk.extra["patterns"] = sum((o["detail"] or {}).get("patterns", 0) for o in chk.obs if isinstance(o["detail"], dict))
