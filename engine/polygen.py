"""Concrete convex polygons and split planes.  They name the sign patterns a
real polygon can show; each pattern is then analysed for every polygon that
shows it."""
import math
import random


def cyc(dd):
    return (dd + 1) % 3, (dd + 2) % 3


def shapes(n, rng):
    """strictly convex counter-clockwise n-gons with integer vertices"""
    out = []
    R = 997
    while True:
        an = sorted(rng.random() * 2 * math.pi for _ in range(n))
        gaps = [(an[i] - an[i - 1]) % (2 * math.pi) for i in range(n)]
        if min(gaps) > 0.5 / n and max(gaps) < 2.8:
            break
    out.append([(round(R * math.cos(t)), round(R * math.sin(t))) for t in an])
    # flat bottom and flat top with respect to the second axis
    half = [n // 2, n - n // 2]
    pts = []
    if n >= 4:
        ys = {}
        right = [(round(R * math.cos(t)), round(R * math.sin(t))) for t in [(-1.2 + 2.4 * k / (half[0] - 1)) for k in range(half[0])]]
        left = [(-round(R * math.cos(t)), round(R * math.sin(t))) for t in [(1.2 - 2.4 * k / (half[1] - 1)) for k in range(half[1])]]
        out.append(right + left)
    return out


def lines(pts, rng):
    """normals and thresholds that produce every kind of contact"""
    n = len(pts)
    dirs = [(0, 1), (1, 0)]
    for i in range(n):
        (ax, ay), (bx, by) = pts[i], pts[(i + 1) % n]
        dirs.append((by - ay, ax - bx))
    for i in range(n):
        for j in range(i):
            if rng.random() < 0.35:
                (ax, ay), (bx, by) = pts[i], pts[j]
                dirs.append((by - ay, ax - bx))
    for _ in range(4):
        dirs.append((rng.randint(-50, 50), rng.randint(-50, 50) or 1))
    res = []
    for a, b in dirs:
        for s in (1, -1):
            hs = sorted(set(s * (a * x + b * y) for x, y in pts))
            th = [hs[0] - 7] + hs + [hs[-1] + 7] + [(p + q) // 2 for p, q in zip(hs, hs[1:]) if q - p > 1]
            for t in th:
                res.append((s * a, s * b, t))
    return res


def lift(pp, nrm, d, dd, rng, unit=False):
    """vertices with assorted denominators and edge lines in the plane nrm.p = d"""
    i1, i2 = cyc(dd)
    n = len(pp)
    vs = []
    mult = rng.sample([1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37], n)
    for x, y in pp:
        w = nrm[dd]
        v = [0, 0, 0]
        v[i1], v[i2] = x * w, y * w
        v[dd] = d - nrm[i1] * x - nrm[i2] * y
        k = rng.choice((1, -1)) * (1 if unit else mult.pop())
        vs.append([k * t for t in v] + [k * w])
    es = []
    for k in range(n):
        a, b = vs[k], vs[(k + 1) % n]
        s = a[3] * b[3]
        m = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        dv = [b[t] * a[3] - a[t] * b[3] for t in range(3)]
        if s < 0:
            m = [-t for t in m]
            dv = [-t for t in dv]
        es.append(dv + m)
    return vs, es


def merge_pairs(n1, n2, kind, rng):
    """Two counter-clockwise polygons sharing one edge.  -> (A, i, B, j)
    kind: convex | left | right | both (collinear there) | dent"""
    def turn(a, b, c):
        return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
    if kind == "convex":
        pts = shapes(n1 + n2 - 2, rng)[0]
        pts = [(2 * x, 2 * y) for x, y in pts]
        A = pts[:n1]                     # edge from n1-1 to 0 is shared
        B = pts[n1 - 1:] + [pts[0]]
    else:
        if kind in ("left", "right", "both"):
            # cut a polygon through the middle of edges
            m = n1 + n2 - 4 if kind == "both" else n1 + n2 - 3
            while True:
                base = shapes(max(m, 3), rng)[0]
                base = [(2 * x, 2 * y) for x, y in base]
                if len(base) == m:
                    break
                return None
            mid = lambda a, b: ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)
            pts = []
            marks = []
            want = {"left": (0,), "right": (n1 - 1,), "both": (0, n1 - 1)}[kind]
            it = list(base)
            # walk, inserting the midpoints at the wanted places
            out = []
            k = 0
            while len(out) < n1 + n2 - 2:
                if len(out) in want:
                    prev = it[k - 1]
                    nxt = it[k % len(it)]
                    out.append(mid(prev, nxt))
                else:
                    out.append(it[k % len(it)])
                    k += 1
            pts = out
            A = pts[:n1]
            B = pts[n1 - 1:] + [pts[0]]
        else:
            A = [(2 * x, 2 * y) for x, y in shapes(n1, rng)[0]]
            p, q = A[-1], A[0]
            e = (q[0] - p[0], q[1] - p[1])
            # outward of p->q is to the right
            o = (e[1], -e[0])
            f = rng.choice((-2, 3, 1))
            apex = [(p[0] + f * e[0] + 3 * o[0], p[1] + f * e[1] + 3 * o[1])]
            if n2 > 3:
                g = rng.choice((0, 1))
                apex = [(p[0] + (-3) * e[0] + 3 * o[0], p[1] - 3 * e[1] + 3 * o[1]),
                        (p[0] + 4 * e[0] + (4 + g) * o[0], p[1] + 4 * e[1] + (4 + g) * o[1])]
                if n2 > 4:
                    return None
            B = [p] + apex + [q]
    if any(turn(A[k - 2], A[k - 1], A[k]) <= 0 for k in range(len(A))):
        return None
    if any(turn(B[k - 2], B[k - 1], B[k]) <= 0 for k in range(len(B))):
        return None
    return A, len(A) - 1, B, len(B) - 1


def instance(pts, line, rot, dd, rng, nsign, unit=False):
    """3D data: plane (n, d), vertices with assorted denominators, edge lines,
    splitting plane.  pts are counter-clockwise seen from +dd."""
    i1, i2 = cyc(dd)
    nrm = [0, 0, 0]
    nrm[dd] = nsign * rng.randint(1, 4 if not unit else 1)
    nrm[i1], nrm[i2] = rng.randint(-4, 4), rng.randint(-4, 4)
    d = rng.randint(-9, 9)
    n = len(pts)
    pp = [pts[(k + rot) % n] for k in range(n)]
    if nsign < 0:
        pp = pp[::-1]
    vs, es = lift(pp, nrm, d, dd, rng, unit)
    if not unit and rng.random() < 0.35:
        # one denominator far larger than those of crossing points
        k = rng.randrange(n)
        f = rng.randint(10 ** 6, 10 ** 7)
        vs[k] = [x * f for x in vs[k]]
    k = rng.randint(-3, 3)
    c = rng.choice((1, 2, 3))
    h = [0, 0, 0]
    h[i1], h[i2] = line[0], line[1]
    h = [c * t + k * q for t, q in zip(h, nrm)] + [c * line[2] + k * d]
    return nrm + [d], vs, es, h


def names(n, pre=""):
    return [pre + "n%d" % i for i in range(3)] + [pre + "d"] + \
        ["%s%s%d" % (pre, c, i) for i in range(n) for c in ("x", "y", "z", "w", "lx", "ly", "lz", "mx", "my", "mz")]


def env(plane, vs, es, h, pre=""):
    vals = list(plane)
    for v, e in zip(vs, es):
        vals += v + e
    r = dict(zip(names(len(vs), pre), vals))
    for i in range(4):
        r["h%d" % i] = h[i]
    return r
