"""Cached bounding boxes of polygons."""
import random
from fractions import Fraction
from harness import *
import polygen as pg
from checks.c19 import Shape, asleaf, sg, group, num, worst, expect, patterns as split_patterns
from checks.c25 import Poly3, World, base, diffs, bad_access, merge_instance

LEVEL = "other"


def wcmp(vs):
    """comparisons between denominator magnitudes"""
    r = [v[3] for v in vs]
    for i in range(len(vs)):
        for j in range(i):
            r += [psub(vs[i][3], vs[j][3]), padd(vs[i][3], vs[j][3])]
    return r


def extreme_of(w, vs, idx):
    """idx: 3 minimum and 3 maximum vertex numbers -> are they extreme?"""
    c = [[Fraction(w.ev(v[k]), w.ev(v[3])) for k in range(3)] for v in vs]
    for k in range(3):
        if not 0 <= idx[k] < len(vs) or not 0 <= idx[3 + k] < len(vs):
            return False
        if c[idx[k]][k] != min(x[k] for x in c) or c[idx[3 + k]][k] != max(x[k] for x in c):
            return False
    return True


def box_ok(chk, o, w, vs, idx, box, g):
    """box: 3 minima, 3 maxima, denominator.  The denominator is the largest
    magnitude among the extreme vertices; bounds are the outward rounding."""
    if None in idx:
        return UNDECIDED, "indices"
    if not extreme_of(w, vs, idx):
        return REFUTED, "vertices %s are not extreme" % idx
    big = max(idx, key=lambda i: abs(w.ev(vs[i][3])))
    den = vs[big][3] if w.ev(vs[big][3]) > 0 else pneg(vs[big][3])
    res = PROVED
    st, _ = decide(differs(box[6], N(den)), g, chk.rng, 4, (), w.sample)
    if st == REFUTED:
        return REFUTED, "denominator"
    res = worst(res, st)
    for k in range(6):
        v = vs[idx[k]]
        chk.s.run("wv_rounddown" if k < 3 else "wv_roundup", v[k % 3], v[3], den, 0, ctx=g)
        ref = chk.s.last_state.cells(chk.s.last_args[3].v.obj)[0][1]
        st, _ = decide(differs(box[k], ref), g, chk.rng, 4, (), w.sample)
        if st == REFUTED:
            return REFUTED, "bound %d" % k
        res = worst(res, st)
    return res, None if res == PROVED else "bounds"


def box_atoms(vs):
    return wcmp(vs) + diffs(vs, range(3))


def simple(chk, fn, what, n, dd, nsign, extra=None):
    rng = random.Random(n * 13 + dd * 2 + nsign)
    with chk.ob("%s, %d vertices, axis %d, normal sign %d" % (what, n, dd, nsign)) as o:
        res, why, cnt, wit = PROVED, None, 0, None
        for t in range(4 * n):
            A = base(n, dd, nsign, rng, flat=t % 3 == 0)
            w = World(A)
            g = w.ctx(box_atoms(A.v))
            k = t % n
            args = [In(A.args), n, dd]
            vs = A.v
            if fn == "wv_aboxrotate":
                args.append(k)
                vs = vs[k:] + vs[:k]
            if fn == "wv_aboxsplitedge":
                # the middle of edge k
                q, nx = vs[k], vs[(k + 1) % n]
                args += [k, In([padd(pmul(q[i], nx[3]), pmul(nx[i], q[3])) for i in range(3)] + [pmul(2, pmul(q[3], nx[3]))])]
                vs = vs[:k + 1] + [args[-1].vals] + vs[k + 1:]
            if fn == "wv_aboxinvert":
                vs = [vs[-i % n] for i in range(n)]
            outs = [Out(6, "i64"), Out(7)]
            if fn == "wv_aboxsort":
                outs.append(Out(4 + 10 * n))
                c = [[Fraction(w.ev(v[i]), w.ev(v[3])) for i in range(3)] for v in vs]
                k = c.index(min(c))
                vs = vs[k:] + vs[:k]
            r = chk.s.run(fn, *args, *outs, ctx=g)
            o.entry = fn
            o.where = o.where or chk.construct(chk.s)
            cnt += 1
            st, why2 = (REFUTED, "invalid access") if bad_access(chk, g) else \
                box_ok(chk, o, w, vs, [asleaf(x, g) for x in r[0]], r[1], g)
            why = why2 or why
            res = worst(res, st)
            if st == REFUTED:
                wit = w.vals
                break
        chk.add(o.name, o.entry, res, witness=wit, where=o.where, why=why if res != PROVED else None, detail={"patterns": cnt})


def merged(chk, n1, n2, kind, nsign):
    rng = random.Random(n1 * 100 + n2 * 10 + nsign + len(kind))
    dd = (n1 + n2) % 3
    with chk.ob("bounding box of a merged polygon, %d and %d vertices, %s, normal sign %d" % (n1, n2, kind, nsign)) as o:
        res, why, cnt, wit = PROVED, None, 0, None
        for t in range(4 * max(n1, n2)):
            mi = merge_instance(n1, n2, kind, nsign, rng)
            if mi is None:
                continue
            A, B, ia, jb = mi
            w = World(A, B)
            allv = A.v + B.v
            ws = [abs(w.ev(v[3])) for v in allv]
            if len(set(ws)) < len(ws):
                continue
            nz = rng.choice([k for k in range(3) if w.ev(A.l[ia][k])])
            pa, na, pb, nb = (ia - 1) % n1, (ia + 1) % n1, (jb - 1) % n2, (jb + 1) % n2
            atoms = list(A.nv) + list(B.nv) + box_atoms(allv)
            for i in range(3):
                for j in range(i):
                    atoms.append(psub(pmul(A.nv[i], B.nv[j]), pmul(A.nv[j], B.nv[i])))
            for p, q in ((A.l[pa], B.l[nb]), (B.l[pb], A.l[na])):
                atoms += list(cross(p[:3], q[:3])) + p[:3] + q[:3]
            g = w.ctx(atoms)
            r = chk.s.run("wv_aboxmerge", In(A.args), n1, dd, In(B.args), n2, nz, ia, jb, Out(2, "i64"),
                          Out(4 + 10 * (n1 + n2)), Out(6, "i64"), Out(7), ctx=g)
            o.entry = "wv_aboxmerge"
            o.where = o.where or chk.construct(chk.s)
            cnt += 1
            if bad_access(chk, g):
                st, why = REFUTED, "invalid access"
            else:
                m = asleaf(r[0][1], g)
                if m is None:
                    st, why2 = UNDECIDED, "outcome"
                else:
                    vs = [[asleaf(x, g) for x in r[1][4 + 10 * k:8 + 10 * k]] for k in range(m)]
                    if any(x is None for v in vs for x in v):
                        st, why2 = UNDECIDED, "vertices"
                    else:
                        st, why2 = box_ok(chk, o, w, vs, [asleaf(x, g) for x in r[2]], r[3], g)
                why = why2 or why
            res = worst(res, st)
            if st == REFUTED:
                wit = w.vals
                break
        chk.add(o.name, o.entry, res if cnt else UNDECIDED, witness=wit, where=o.where,
                why=why if res != PROVED else None, detail={"patterns": cnt})


def split(chk, n, dd, nsign, fn, unit, cap, part=0, parts=1):
    rng = random.Random(n * 17 + dd * 2 + nsign)
    sh = split_patterns(n, dd, nsign, rng, False, cap, unit=unit)[part::parts]

    def f(o, x):
        n = x.n
        s = x.signs()
        atoms = x.atoms(False) + box_atoms(x.v) + list(x.h[:3])
        kids = expect(x) if -1 in s and 1 in s else []
        for e in kids:
            atoms += box_atoms([p for p, _ in e])
        if kids:
            atoms += wcmp(x.v + [p for e in kids for p, _ in e if not any(p is v for v in x.v)])
        g = TRUE
        for p in atoms:
            if isinstance(p, Poly):
                want = sg(x.ev(p))
                g = AND(g, map1(lambda q: TRUE if q == want else FALSE, S(p)))
        if unit:
            # corners of the parent's box against the plane
            idx, box = chk.s.run("wv_abox", In(x.args), n, x.dd, Out(6, "i64"), Out(7), ctx=g)
            for q in box:
                # which way each bound was rounded
                q = restrict(q, g)
                while q.a is not None:
                    k = x.num.atomval(q.a)
                    g = AND(g, case(q.a, [TRUE if i == k else FALSE for i in range(q.a.n)]))
                    q = q.k[k]
            box = [asleaf(q, g) for q in box]
            if None in box:
                return UNDECIDED, "box of the parent"
            for m in range(8):
                c = [box[i + (3 if m >> i & 1 else 0)] for i in range(3)]
                p = psub(dot(x.h[:3], c), pmul(x.h[3], box[6]))
                if isinstance(p, Poly):
                    want = sg(x.ev(p))
                    g = AND(g, map1(lambda q: TRUE if q == want else FALSE, S(p)))
        sz = 4 + 10 * (n + 2)
        o.entry = fn
        r = chk.s.run(fn, In(x.args), n, x.dd, In(x.h), Out(18, "i64"), Out(sz), Out(sz), Out(7), Out(7), ctx=g)
        o.where = o.where or chk.construct(chk.s)
        if bad_access(chk, g):
            return REFUTED, "invalid access"
        code = r[0]
        em = [asleaf(q, g) for q in code[:2]]
        if None in em:
            return UNDECIDED, "emission"
        if [q & 255 for q in em] != [int(-1 in s), int(1 in s)]:
            return REFUTED, "emitted sides"
        if not kids:
            return PROVED, None
        res = PROVED
        why = None
        for got, spec, ix, bx in ((r[1], kids[0], code[6:12], r[3]), (r[2], kids[1], code[12:18], r[4])):
            m = len(spec)
            gp = [num(x, got[4 + 10 * k:8 + 10 * k]) for k in range(m)]
            sp = [num(x, a) for a, _ in spec]
            same = lambda p, q: all(a * q[3] == b * p[3] for a, b in zip(p[:3], q[:3]))
            rots = [k0 for k0 in range(m) if all(same(gp[k], sp[(k + k0) % m]) for k in range(m))]
            if not rots:
                return REFUTED, "vertices"
            # the polynomials the code stored for the vertices
            vs = []
            for k in range(m):
                v = [asleaf(q, g) for q in got[4 + 10 * k:8 + 10 * k]]
                if None in v:
                    return UNDECIDED, "vertices"
                vs.append(v)
            st, w2 = box_ok(chk, o, x, vs, [asleaf(q, g) for q in ix], bx, g)
            why = w2 or why
            res = worst(res, st)
            if st == REFUTED:
                return st, why
        return res, why
    group(chk, "%s%s, %d vertices, axis %d, normal sign %d" % (
        "bounding boxes of split children" if "m" not in fn[9:] else "bounding boxes of split children, expiring parent",
        ", side taken from the box" if unit else "", n, dd, nsign) + (", part %d" % part if parts > 1 else ""), sh, f)


def check(chk):
    chk.anchors = ("::TryMergePolygon", "ConvexVertexAABBTracker::")
    chk.rule = ("Building, copying, moving, rotating, sorting, inverting, edge splitting, merging and splitting polygons that "
                "cache a bounding box is interpreted with symbolic vertices (once per order of coordinates and denominators "
                "a real polygon shows): the recorded extreme vertices must be extreme, the denominator the largest one "
                "among them, and each bound the outward rounding of its vertex; children and the plane side shortcut must "
                "agree with the uncached polygon.")
    chk.session("poly.cpp", defines=("-DNDEBUG",), prefix="wv")
    deep = chk.tier != "quick"
    tasks = []
    for n in ((3, 4, 5, 6) if deep else (3, 4)):
        for dd in range(3):
            for ns in (1, -1):
                for fn, unit in (("wv_asplit", True), ("wv_asplitm", True), ("wv_asplitp", False), ("wv_asplitpm", False)):
                    parts = 30 if deep else 2
                    for q in range(parts):
                        tasks.append(("split", lambda n=n, dd=dd, ns=ns, fn=fn, q=q, parts=parts, unit=unit:
                                      split(chk, n, dd, ns, fn, unit, 12 * parts, q, parts)))
    for n in ((3, 4, 5, 6) if deep else (3, 4)):
        for dd in range(3):
            for ns in (1, -1):
                for fn, what in (("wv_abox", "bounding box from vertices"), ("wv_aboxcopy", "bounding box of a copy"),
                                 ("wv_aboxmove", "bounding box after moves"), ("wv_aboxrotate", "bounding box after rotating the start"),
                                 ("wv_aboxsort", "bounding box after sorting"),
                                 ("wv_aboxsplitedge", "bounding box after splitting an edge"),
                                 ("wv_aboxinvert", "bounding box after inversion")):
                    tasks.append((what, lambda n=n, dd=dd, ns=ns, fn=fn, what=what: simple(chk, fn, what, n, dd, ns)))
    for n1, n2 in ((3, 3), (4, 3), (3, 4), (4, 4), (5, 4)) if deep else ((3, 3), (4, 3), (3, 4)):
        for kind in ("convex", "left", "both", "dent"):
            for ns in (1, -1) if kind != "both" or n1 + n2 > 6 else ():
                tasks.append(("merge", lambda n1=n1, n2=n2, kind=kind, ns=ns: merged(chk, n1, n2, kind, ns)))
    chk.par(tasks)
    chk.extra["patterns"] = sum((o["detail"] or {}).get("patterns", 0) for o in chk.obs if isinstance(o["detail"], dict))
