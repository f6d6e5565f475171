"""Equality, reordering, inversion, copying, edge splitting and merging of convex polygons."""
import random
from harness import *
import polygen as pg
from checks.c19 import Shape, asleaf, sg, group, samepoint, sameray, num, worst, expect, patterns as split_patterns

LEVEL = "other"


class Poly3:
    """n-gon with symbolic data and one concrete instance"""

    def __init__(self, n, dd, plane, vs, es, pre=""):
        self.n, self.dd = n, dd
        vals = list(plane)
        for v, e in zip(vs, es):
            vals += v + e
        self.vals = dict(zip(pg.names(n, pre), vals))
        self.args = [var(x) for x in pg.names(n, pre)]
        self.nv, self.d = self.args[:3], self.args[3]
        self.v = [self.args[4 + 10 * i:8 + 10 * i] for i in range(n)]
        self.l = [self.args[8 + 10 * i:14 + 10 * i] for i in range(n)]


class World:
    def __init__(self, *polys, **extra):
        self.vals = dict(extra)
        for p in polys:
            self.vals.update(p.vals)
        self.num = Env({list(pvars(var(k)))[0]: v for k, v in self.vals.items()})

    def ev(self, p):
        return self.num.poly(p)

    def sample(self, rng, vals):
        return self.vals

    def ctx(self, atoms):
        c = TRUE
        for p in atoms:
            if isinstance(p, Poly):
                want = sg(self.ev(p))
                c = AND(c, map1(lambda x: TRUE if x == want else FALSE, S(p)))
        return c


def base(n, dd, nsign, rng, flat=False):
    pts = rng.choice(pg.shapes(n, rng))
    plane, vs, es, h = pg.instance(pts, (1, 2, 3), rng.randrange(n), dd, rng, nsign)
    if flat:
        nrm = [0, 0, 0]
        nrm[dd] = nsign
        d = rng.randint(-5, 5)
        pp = pts if nsign > 0 else pts[::-1]
        vs, es = pg.lift(pp, nrm, d, dd, rng)
        plane = nrm + [d]
    return Poly3(n, dd, plane, vs, es)


def diffs(vs, comps):
    r = []
    for i in range(len(vs)):
        for j in range(i):
            for c in comps:
                r.append(psub(pmul(vs[i][c], vs[j][3]), pmul(vs[j][c], vs[i][3])))
    return r


def tags(n, pre="t"):
    return [var("%s%d" % (pre, i), rng=(0, 1000)) for i in range(n)]


def compare(chk, o, w, got_v, got_t, spec_v, spec_t, g, cyclic=False):
    """lists of (point, line) and tags against the expected ones"""
    m = len(spec_v)
    res = PROVED
    for k in range(m):
        pt, ln = got_v[4 + 10 * k:8 + 10 * k], got_v[8 + 10 * k:14 + 10 * k]
        st = worst(samepoint(o, chk, pt, spec_v[k][0], g, w), sameray(o, chk, ln, spec_v[k][1], g, w))
        res = worst(res, st)
        if spec_t[k] is not None:
            q, _ = decide(differs(got_t[k], leaf(spec_t[k])), g, chk.rng, 6, (), w.sample)
            res = worst(res, q)
        if res == REFUTED:
            return REFUTED, "vertex %d" % k
    return res, None


def bad_access(chk, g):
    b = FALSE
    for nt in chk.s.last.notes:
        if nt[0] in ("badload", "badstore", "undef-branch", "noreturn", "badfree"):
            b = OR(b, AND(g, nt[2]))
    return b is not FALSE


def leaked(chk):
    """memory that was never freed (cell mode, entries that keep nothing)"""
    I = chk.s.last
    return sum(o.kind == "heap" and o.id not in I.freed for o in I.objs.values())


# ------------------------------------------------------------------ equality
def equality(chk, n, dd, nsign):
    rng = random.Random(n * 7 + dd * 2 + nsign)
    A = base(n, dd, nsign, rng)
    ks = [var("k%d" % i) for i in range(n)]
    c, e = V("c", "e")
    extra = {"k%d" % i: rng.choice((1, -1, 2, -3)) for i in range(n)}
    extra["c"] = 2
    extra["e"] = A.vals["d"] * 2 + 1
    for i in range(n):
        extra["t%d" % i] = extra["u%d" % i] = rng.randint(0, 3)
    T, U = tags(n), tags(n, "u")
    w = World(A, **extra)
    atoms = list(A.nv) + ks + [c] + [v[3] for v in A.v] + diffs(A.v, pg.cyc(dd))
    g = w.ctx(atoms)

    def B(order, plane):
        r = list(plane)
        for i in order:
            r += [pmul(ks[i], q) for q in A.v[i]] + A.l[i]
        return r
    plane = [pmul(c, q) for q in A.nv + [A.d]]
    for r in range(n):
        order = [(k + r) % n for k in range(n)]
        with chk.ob("equality, %d vertices, axis %d, normal sign %d, start shifted by %d" % (n, dd, nsign, r)) as o:
            want = TRUE
            for i in range(n):
                want = AND(want, EQ0(psub(T[order[i]], U[i])))
            a = (In(A.args), n, dd, In(T, 8), In(B(order, plane)), n, dd, In(U, 8))
            o.equal(o.run("wv_tpolyeq", *a, ctx=g), want, g, "equal exactly when the edge data agree", sampler=w.sample)
            o.equal(o.run("wv_tpolyne", *a, ctx=g), NOT(want), g, "inequality", sampler=w.sample)
            o.equal(o.run("wv_polyeq", a[0], n, dd, a[4], n, dd, ctx=g), TRUE, g, "without edge data", sampler=w.sample)
        with chk.ob("equality, %d vertices, axis %d, normal sign %d, reversed from %d" % (n, dd, nsign, r)) as o:
            o.equal(o.run("wv_polyeq", In(A.args), n, dd, In(B(order[::-1], plane)), n, dd, ctx=g), FALSE, g, "different order", sampler=w.sample)
        with chk.ob("equality, %d vertices, axis %d, normal sign %d, other plane, shift %d" % (n, dd, nsign, r)) as o:
            g2 = AND(g, NE0(psub(e, pmul(c, A.d))))
            o.equal(o.run("wv_polyeq", In(A.args), n, dd, In(B(order, plane[:3] + [e])), n, dd, ctx=g2), FALSE, g2, "different plane", sampler=w.sample)
        with chk.ob("equality, %d vertices, axis %d, normal sign %d, one other vertex, shift %d" % (n, dd, nsign, r)) as o:
            m = A.v[order[-1]]
            x = [var("mx%d" % i) for i in range(4)]
            b = B(order, plane)
            b[4 + 10 * (n - 1):8 + 10 * (n - 1)] = x
            i1, i2 = pg.cyc(dd)
            other = OR(NE0(psub(pmul(x[i1], m[3]), pmul(m[i1], x[3]))), NE0(psub(pmul(x[i2], m[3]), pmul(m[i2], x[3]))))
            g3 = AND(AND(g, NE0(x[3])), other)
            r1 = o.run("wv_polyeq", In(A.args), n, dd, In(b), n, dd, ctx=g3)
            o.equal(r1, FALSE, g3, "different vertex", sampler=w.sample)
    with chk.ob("equality, %d against %d vertices" % (n, n + 1)) as o:
        b = B(list(range(n)), plane) + [var("q%d" % i) for i in range(10)]
        o.equal(o.run("wv_polyeq", In(A.args), n, dd, In(b), n + 1, dd, ctx=g), FALSE, g, "longer", sampler=w.sample)
        o.equal(o.run("wv_polyeq", In(b), n + 1, dd, In(A.args), n, dd, ctx=g), FALSE, g, "shorter", sampler=w.sample)
    with chk.ob("equality of polygons without vertices") as o:
        o.equal(o.run("wv_polyeq", In(A.args[:4]), 0, dd, In(plane), 0, dd, ctx=g), TRUE, g, "same plane", sampler=w.sample)


# ------------------------------------------------------- order, copies, edges
def reorder(chk, n, dd, nsign):
    rng = random.Random(n * 11 + dd * 2 + nsign)
    T = tags(n)

    def lists(A, order):
        return [(A.v[i], A.l[i]) for i in order], [T[i] for i in order]
    A = base(n, dd, nsign, rng)
    w = World(A, **{"t%d" % i: i for i in range(n)})
    sz = 4 + 10 * n

    def emit(name, entry, st, why=None, cnt=None):
        chk.add(name, entry, st, where=chk.construct(chk.s), why=why, witness=w.vals if st == REFUTED else None,
                detail={"patterns": cnt} if cnt else None)

    for fn, what in (("wv_tcopy", "copy"), ("wv_tmove", "move")):
        with chk.ob("%s, %d vertices" % (what, n)) as o:
            r = o.run(fn, In(A.args), n, dd, In(T, 8), Out(sz), Out(n, "i64"))
            st, why = compare(chk, o, w, r[0], r[1], *lists(A, range(n)), TRUE)
            st = worst(st, sameray(o, chk, r[0][:4], A.args[:4], TRUE, w))
            emit(o.name, fn, REFUTED if bad_access(chk, TRUE) else st, why)
    for k in range(n):
        with chk.ob("start rotated by %d, %d vertices" % (k, n)) as o:
            r = o.run("wv_trotate", In(A.args), n, dd, In(T, 8), k, Out(sz), Out(n, "i64"))
            st, why = compare(chk, o, w, r[0], r[1], *lists(A, [(i + k) % n for i in range(n)]), TRUE)
            emit(o.name, o.entry, REFUTED if bad_access(chk, TRUE) else st, why)
        with chk.ob("edge %d split, %d vertices" % (k, n)) as o:
            m = [var("m%d" % i) for i in range(4)]
            r = o.run("wv_tsplitedge", In(A.args), n, dd, In(T, 8), k, In(m), Out(sz + 10), Out(n + 1, "i64"))
            vs, ts = lists(A, range(n))
            vs.insert(k + 1, (m, A.l[k]))
            ts.insert(k + 1, T[k])
            w2 = World(A, **dict(w.vals, m0=1, m1=2, m2=3, m3=4))
            st, why = compare(chk, o, w2, r[0], r[1], vs, ts, TRUE)
            emit(o.name, o.entry, REFUTED if bad_access(chk, TRUE) else st, why)
    with chk.ob("inversion, %d vertices" % n) as o:
        r = o.run("wv_invert", In(A.args), n, dd, Out(sz))
        spec = [(A.v[-i % n], [pneg(q) for q in A.l[(-i - 1) % n]]) for i in range(n)]
        st, why = compare(chk, o, w, r, None, spec, [None] * n, TRUE)
        st = worst(st, sameray(o, chk, r[:4], [pneg(q) for q in A.args[:4]], TRUE, w))
        emit(o.name, o.entry, REFUTED if bad_access(chk, TRUE) else st, why)
    # from vertex lists: vertex order kept up to rotation, edge lines through consecutive vertices
    for fn in ("wv_fromverts", "wv_fromints"):
        with chk.ob("%s, %d vertices" % ("from homogeneous points" if fn == "wv_fromverts" else "from integer points", n)) as o:
            args = list(A.args)
            vs = [list(v) for v in A.v]
            if fn == "wv_fromints":
                for i in range(n):
                    args[7 + 10 * i] = vs[i][3] = 1
            r = o.run(fn, In(args), n, dd, Out(sz))
            spec = []
            g = TRUE
            for i in range(n):
                p, q = vs[i - 1], vs[i]
                dv = vsub(scale(q[:3], p[3]), scale(p[:3], q[3]))
                mv = cross(p[:3], q[:3])
                k = pmul(p[3], q[3])
                spec.append((p, [pmul(x, k) for x in list(dv) + list(mv)]))
                g = AND(g, NE0(p[3]))
            st = PROVED
            for i in range(n):
                o.never(not_same_point(r[4 + 10 * i:8 + 10 * i], [N(x) for x in spec[i][0]]), g, "vertex %d" % i)
                o.never(not_pos_multiple(r[8 + 10 * i:14 + 10 * i], [N(x) for x in spec[i][1]]), g, "edge line %d" % i)
    # lexicographic start
    for flat in (False, True):
        with chk.ob("lexicographic start, %d vertices, %s" % (n, "axis aligned" if flat else "general")) as o:
            res, why, cnt = PROVED, None, 0
            for t in range(2 * n):
                A = base(n, dd, nsign, rng, flat)
                w = World(A, **{"t%d" % i: i for i in range(n)})
                g = w.ctx([v[3] for v in A.v] + diffs(A.v, range(3)))
                r = chk.s.run("wv_tsort", In(A.args), n, dd, In(T, 8), Out(sz), Out(n, "i64"), ctx=g)
                o.entry = "wv_tsort"
                from fractions import Fraction
                pts = [[Fraction(w.ev(x), w.ev(v[3])) for x in v[:3]] for v in A.v]
                k = pts.index(min(pts))
                st, why2 = compare(chk, o, w, r[0], r[1], *lists(A, [(i + k) % n for i in range(n)]), g)
                cnt += 1
                why = why2 or why
                res = worst(res, st)
            emit(o.name, o.entry, res, why, cnt)


# ------------------------------------------------------------------- merging
def merge_instance(n1, n2, kind, nsign, rng):
    """two polygons sharing an edge -> (A, B, edge of A, edge of B) or None"""
    dd = (n1 + n2) % 3
    mp = pg.merge_pairs(n1, n2, "dent" if kind == "other normal" else kind, rng)
    if mp is None:
        return None
    A2, ia, B2, jb = mp
    nrm = [rng.randint(-3, 3) for _ in range(3)]
    nrm[dd] = nsign * rng.randint(1, 3)
    d = rng.randint(-5, 5)
    if nsign < 0:
        A2, B2 = A2[::-1], B2[::-1]
        # edge (last -> first) becomes (first... ) : reversed list, shared edge from old first to old last
        ia, jb = len(A2) - 1, len(B2) - 1
    ra, rb = rng.randrange(n1), rng.randrange(n2)
    A2 = A2[ra:] + A2[:ra]
    B2 = B2[rb:] + B2[:rb]
    ia, jb = (ia - ra) % n1, (jb - rb) % n2
    va, ea = pg.lift(A2, nrm, d, dd, rng)
    vb, eb = pg.lift(B2, nrm, d, dd, rng)
    opp = kind == "other normal"
    sc = -1 if opp else rng.choice((1, 2))
    A = Poly3(n1, dd, nrm + [d], va, ea, "a")
    B = Poly3(n2, dd, [sc * x for x in nrm] + [sc * d], vb, eb, "b")
    return A, B, ia, jb


def merging(chk, n1, n2, kind, nsign):
    rng = random.Random(n1 * 100 + n2 * 10 + nsign + len(kind))
    dd = (n1 + n2) % 3
    with chk.ob("merge, %d and %d vertices, %s, normal sign %d" % (n1, n2, kind, nsign)) as o:
        res, why, cnt, wit = PROVED, None, 0, None
        for t in range(6 * max(n1, n2)):
            mi = merge_instance(n1, n2, kind, nsign, rng)
            if mi is None:
                continue
            A, B, ia, jb = mi
            opp = kind == "other normal"
            same_tags = rng.choice((0, 1, 2))
            T = tags(n1, "t")
            U = tags(n2, "u")
            tv = {}
            for i in range(n1):
                tv["t%d" % i] = 5 if same_tags == 0 else i
            for i in range(n2):
                tv["u%d" % i] = 5 if same_tags == 0 else 100 + i if same_tags == 1 else i
            w = World(A, B, **tv)
            nz = rng.choice([k for k in range(3) if w.ev(A.l[ia][k])])
            pa, na = (ia - 1) % n1, (ia + 1) % n1
            pb, nb = (jb - 1) % n2, (jb + 1) % n2
            # the plane of the second polygon: a positive multiple of the first one's
            atoms = list(A.nv) + list(B.nv)
            for i in range(3):
                for j in range(i):
                    atoms.append(psub(pmul(A.nv[i], B.nv[j]), pmul(A.nv[j], B.nv[i])))
            for p, q in ((A.l[pa], B.l[nb]), (B.l[pb], A.l[na])):
                atoms += list(cross(p[:3], q[:3])) + p[:3] + q[:3]
            tg = []
            for x in (T[pa], T[na], U[pb], U[nb]):
                for y in (T[pa], T[na], U[pb], U[nb]):
                    if x is not y:
                        tg.append(psub(x, y))
            g = w.ctx(atoms + tg)
            sz = 4 + 10 * (n1 + n2)
            r = chk.s.run("wv_tmerge", In(A.args), n1, dd, In(T, 8), In(B.args), n2, In(U, 8), nz, ia, jb,
                          Out(4, "i64"), Out(sz), Out(n1 + n2, "i64"), Out(sz), Out(n1 + n2, "i64"), ctx=g)
            o.entry = "wv_tmerge"
            o.where = o.where or chk.construct(chk.s)
            code = [asleaf(x, g) for x in r[0]]
            cnt += 1
            if None in code:
                res, why = worst(res, UNDECIDED), "outcome"
                continue
            cr = [sg(w.ev(cross(A.l[pa][:3], B.l[nb][:3])[dd])) * nsign, sg(w.ev(cross(B.l[pb][:3], A.l[na][:3])[dd])) * nsign]
            ok = not opp and min(cr) >= 0
            spec = [(A.v[i], A.l[i], T[i]) for i in range(n1)]
            other = [(B.v[i], B.l[i], U[i]) for i in range(n2)]
            if ok:
                seq = [other[(jb + 1 + k) % n2] for k in range(n2 - 1)]
                drop = set()
                if cr[0] == 0 and w.ev(T[pa]) == w.ev(U[nb]):
                    drop.add("first")
                if cr[1] == 0 and w.ev(U[pb]) == w.ev(T[na]):
                    drop.add("next")
                full = []
                for i in range(n1):
                    if i == ia:
                        full += seq[1:] if "first" in drop else seq
                    elif i == na and "next" in drop:
                        continue
                    else:
                        full.append(spec[i])
                spec, other = full, []
            st = PROVED
            if bad_access(chk, g):
                st, why = REFUTED, "invalid access"
            elif code[0] & 255 != int(ok) or code[1] != len(spec) or code[2] != len(other):
                st, why = REFUTED, "outcome %s, expected %s" % (code, [int(ok), len(spec), len(other)])
            else:
                gl = [(r[1][4 + 10 * k:8 + 10 * k], r[1][8 + 10 * k:14 + 10 * k], r[2][k]) for k in range(len(spec))]
                m = len(spec)
                gp = [num(w, a) for a, _, _ in gl]
                sp = [num(w, a) for a, _, _ in spec]
                same = lambda p, q: all(x * q[3] == y * p[3] for x, y in zip(p[:3], q[:3]))
                rots = [k0 for k0 in range(m) if all(same(gp[k], sp[(k + k0) % m]) for k in range(m))]
                if not rots:
                    st, why = REFUTED, "vertices of the merged polygon"
                else:
                    spec = [spec[(k + rots[0]) % m] for k in range(m)]
                    st, why2 = compare(chk, o, w, r[1], r[2], [(a, b) for a, b, _ in spec], [c for _, _, c in spec], g)
                    why = why2 or why
                    st = worst(st, sameray(o, chk, r[1][:4], A.args[:4], g, w))
                    if other:
                        st2, why2 = compare(chk, o, w, r[3], r[4], [(a, b) for a, b, _ in other], [c for _, _, c in other], g)
                        st = worst(st, st2)
            res = worst(res, st)
            if st == REFUTED:
                wit = dict(w.vals, nz=nz, i=ia, j=jb)
                break
        chk.add(o.name, o.entry, res, witness=wit, where=o.where, why=why if res != PROVED else None, detail={"patterns": cnt})


def splitdata(chk, n, nsign):
    """edges that lie on a parent edge keep its data"""
    rng = random.Random(n + nsign)
    dd = (n + 1) % 3
    sh = split_patterns(n, dd, nsign, rng, False, 40)
    T = tags(n)

    def f(o, x):
        g = x.ctx(False)
        s = x.signs()
        if -1 not in s or 1 not in s:
            return PROVED, None
        sz = 4 + 10 * (n + 2)
        o.entry = "wv_tsplit"
        r = chk.s.run("wv_tsplit", In(x.args), n, dd, In(T, 8), In(x.h), Out(6, "i64"), Out(sz), Out(sz), Out(n + 2, "i64"), Out(n + 2, "i64"), ctx=g)
        o.where = o.where or chk.construct(chk.s)
        res = PROVED
        for got, tg, spec in ((r[1], r[3], expect(x)[0]), (r[2], r[4], expect(x)[1])):
            m = len(spec)
            gp = [num(x, got[4 + 10 * k:8 + 10 * k]) for k in range(m)]
            sp = [num(x, a) for a, _ in spec]
            same = lambda p, q: all(a * q[3] == b * p[3] for a, b in zip(p[:3], q[:3]))
            rots = [k0 for k0 in range(m) if all(same(gp[k], sp[(k + k0) % m]) for k in range(m))]
            if not rots:
                return REFUTED, "vertices"
            for k in range(m):
                line = spec[(k + rots[0]) % m][1]
                src = [i for i in range(n) if x.l[i] is line]
                if src:
                    q, _ = decide(differs(tg[k], leaf(T[src[0]])), g, chk.rng, 6)
                    res = worst(res, q)
                    if q == REFUTED:
                        return REFUTED, "data of edge %d" % k
        return res, None
    group(chk, "split keeps edge data, %d vertices, normal sign %d" % (n, nsign), sh, f)


def check(chk):
    chk.anchors = ("::TryMergePolygon", "ConvexPolygon<walnut::EdgeInfoRoot>::operator==", "::SortVertices", "::Invert", "::SplitEdge", "::RotateEdges", "::CreateSplitChildren")
    chk.rule = ("Comparison, reordering, inversion, copying, moving, edge splitting and merging are interpreted with symbolic "
                "coordinates, lines and edge data (once per sign pattern of a real polygon or polygon pair where the code "
                "branches) and the resulting edge lists are compared term by term with the specified ones.")
    chk.session("poly.cpp", defines=("-DNDEBUG",), prefix="wv")
    deep = chk.tier != "quick"
    tasks = []
    for n in ((3, 4, 5, 6) if deep else (3, 4)):
        for dd in range(3):
            for ns in (1, -1):
                tasks.append(("equality", lambda n=n, dd=dd, ns=ns: equality(chk, n, dd, ns)))
    for n in ((3, 4, 5, 6, 7) if deep else (3, 4, 5)):
        for ns in (1, -1):
            tasks.append(("reorder", lambda n=n, ns=ns: reorder(chk, n, n % 3, ns)))
            tasks.append(("splitdata", lambda n=n, ns=ns: splitdata(chk, n, ns)))
    for n1 in ((3, 4, 5, 6) if deep else (3, 4)):
        for n2 in ((3, 4, 5) if deep else (3, 4)):
            for kind in ("convex", "left", "right", "both", "dent", "other normal"):
                for ns in (1, -1):
                    tasks.append(("merge", lambda n1=n1, n2=n2, kind=kind, ns=ns: merging(chk, n1, n2, kind, ns)))
    chk.par(tasks)
    chk.extra["patterns"] = sum((o["detail"] or {}).get("patterns", 0) for o in chk.obs if isinstance(o["detail"], dict))
