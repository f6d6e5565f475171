"""What splitting a tree does to polygons, on symbolic coordinates and with the
signs of one representative.  Sides of split planes are coded as in the driver:
0 none, 1 + 2 * level + (1 if the positive side)."""
from fractions import Fraction
from harness import *


class Edge:
    def __init__(self, v, line, created=0, first=0, vlast=0, elast=0):
        self.v, self.line = list(v), list(line)
        self.created, self.first, self.vlast, self.elast = created, first, vlast, elast

    def copy(self):
        return Edge(self.v, self.line, self.created, self.first, self.vlast, self.elast)

    def codes(self):
        return [self.created, self.first, self.vlast, self.elast]


class Polygon:
    def __init__(self, pid, plane, edges, onp=0):
        self.id, self.plane, self.edges, self.onp = pid, list(plane), edges, onp


def sg(x):
    return (x > 0) - (x < 0)


def meet(l, h):
    D, M = l[:3], l[3:]
    c = cross(h[:3], M)
    return [padd(c[i], pmul(D[i], h[3])) for i in range(3)] + [dot(h[:3], D)]


def at(v, h):
    return psub(dot(h[:3], v[:3]), pmul(h[3], v[3]))


class Model:
    def __init__(self, ev):
        self.ev = ev        # polynomial -> number at the representative

    def side(self, v, h):
        return sg(self.ev(at(v, h))) * sg(self.ev(v[3]))

    def split(self, p, h, lv):
        """-> {side: (polygon, on border)}"""
        s = [self.side(e.v, h) for e in p.edges]
        n = len(s)
        S = {-1: 1 + 2 * lv, 1: 2 + 2 * lv}
        if -1 in s and 1 in s:
            return {-1: self.part(p, s, -1, h, S[-1]), 1: self.part(p, s, 1, h, S[1])}
        if not any(s):
            d = sg(self.ev(dot(p.plane[:3], h[:3])))
            side = -1 if d > 0 else 1
            c = S[side]
            es = []
            for e in p.edges:
                e = e.copy()
                e.first = e.first or p.onp or c
                e.elast = e.vlast = c
                es.append(e)
            return {side: Polygon(p.id, p.plane, es, c)}
        side = -1 if -1 in s else 1
        c = S[side]
        es = []
        for k, e in enumerate(p.edges):
            e = e.copy()
            if s[k] == 0:
                e.vlast = c
                if s[(k + 1) % n] == 0:
                    e.first = e.first or p.onp or c
                    e.elast = c
            es.append(e)
        return {side: Polygon(p.id, p.plane, es, p.onp)}

    def part(self, p, s, side, h, c):
        n = len(s)
        run = [k for k in range(n) if s[k] == side]
        k0 = next(k for k in run if s[k - 1] != side)
        es = []
        k = k0
        while s[k % n] == side:
            es.append(p.edges[k % n].copy())
            k += 1
        nrm, d = p.plane[:3], p.plane[3]
        line = list(cross(nrm, h[:3])) + list(vsub(scale(nrm, h[3]), scale(h[:3], d)))
        if side > 0:
            line = [pneg(t) for t in line]
        j, last = k % n, (k - 1) % n
        es.append(Edge(p.edges[j].v if s[j] == 0 else meet(p.edges[last].line, h), line,
                       created=c, first=p.onp or c, vlast=c, elast=c))
        j = (k0 - 1) % n
        e = p.edges[j].copy()
        if s[j]:
            e.v = meet(p.edges[j].line, h)
        e.vlast = c
        es.append(e)
        return Polygon(p.id, p.plane, es, p.onp)

    def tree(self, polys, planes, turn):
        """leaves in the driver's order: the sibling at every level, then the end
        of the path.  Each: (interior polygons, border polygons)"""
        leaves = []
        inner, border = polys, []
        for lv, h in enumerate(planes):
            nxt = {-1: ([], []), 1: ([], [])}
            for p in inner:
                for side, q in self.split(p, h, lv).items():
                    nxt[side][1 if q.onp else 0].append(q)
            for p in border:
                for side, q in self.split(p, h, lv).items():
                    nxt[side][1].append(q)
            go = 1 if turn[lv] else -1
            leaves.append(nxt[-go])
            inner, border = nxt[go]
        leaves.append((inner, border))
        return leaves


def same_tuple(ev, a, b, point):
    """a, b equal as homogeneous points, or as rays.  True / False / None"""
    ok = True
    if any(not isinstance(x, (int, Poly)) for x in a):
        return None
    if all(x is y or x == y for x, y in zip(a, b)):
        return True
    pairs = [(i, j) for i in range(len(a)) for j in range(i)]
    for i, j in pairs:
        r = psub(pmul(a[i], b[j]), pmul(a[j], b[i]))
        if isinstance(r, int):
            if r:
                return False
        elif ev(r):
            return False
        else:
            ok = None
    va, vb = [ev(x) for x in a], [ev(x) for x in b]
    if point:
        if not va[-1]:
            return False
    else:
        if any(sg(x) != sg(y) for x, y in zip(va, vb)):
            return False
    return ok
