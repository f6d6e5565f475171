"""Machine-word domain: exact modular arithmetic over symbolic 64-bit words.

A symbolic word is a polynomial that denotes its unsigned value.  Every wrapped
operation is rewritten as  base - 2^w * fl(base, w)  with one interned variable
per floor, so carries telescope and "the words denote the sum" is a polynomial
identity.  Sign tests stay decision-diagram atoms; a diagram path is discharged
by linear elimination, interval propagation over the definitions of the floors,
and case analysis on the carries and sign bits."""
import re
from fractions import Fraction
from math import gcd
from dd import *
from interp import *
import intrin
from intrin import Intrinsics, llvm_intrinsic, EXT
from harness import Session, NE0, EQ0, decide, PROVED, REFUTED, UNDECIDED, inputs_of, _free_bool

W64 = 1 << 64
BND = {}            # var id -> (lo, hi)
DEF = {}            # var id -> (base poly, shift)
REG = {}            # poly id -> (lo, hi)
_bmemo = {}


def word(name, lo=0, hi=W64 - 1):
    p = var(name, rng_of(lo, hi))
    BND[vid1(p)] = (lo, hi)
    return p


def vid1(p):
    (m, c), = p.t.items()
    return m[0][0]


def rng_of(lo, hi):
    if lo > 0:
        return (1,)
    if hi < 0:
        return (-1,)
    if lo == 0:
        return (0, 1)
    if hi == 0:
        return (-1, 0)
    return (-1, 0, 1)


def vb(v):
    return BND.get(v, (None, None))


def imul(a, b):
    if None in a or None in b:
        return (None, None)
    c = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(c), max(c))


def mono_bounds(m, box=None):
    r = (1, 1)
    for v, e in m:
        b = box.get(v) if box is not None and v in box else vb(v)
        x = (1, 1)
        for _ in range(abs(e)):
            x = imul(x, b)
        if e % 2 == 0 and e and None not in x:
            x = (max(0, x[0]), x[1])
        if e < 0:
            return (None, None)
        r = imul(r, x)
    return r


def naive(p, box=None):
    if isinstance(p, int):
        return (p, p)
    lo = hi = 0
    for m, c in p.t.items():
        b = mono_bounds(m, box)
        if None in b:
            return (None, None)
        if c > 0:
            lo += c * b[0]
            hi += c * b[1]
        else:
            lo += c * b[1]
            hi += c * b[0]
    return (lo, hi)


def meet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return (lo, hi)


def cdiv(a, b):
    return -((-a) // b)


def bounds(p, depth=4):
    """Sound integer bounds of a polynomial over words and floors."""
    if isinstance(p, int):
        return (p, p)
    if depth == 4:
        r = _bmemo.get(p.id)
        if r is not None:
            return r
    r = naive(p)
    if p.id in REG:
        r = meet(r, REG[p.id])
    n = REG.get(pneg(p).id)
    if n is not None:
        r = meet(r, (None if n[1] is None else -n[1], None if n[0] is None else -n[0]))
    if depth > 0:
        # replace a floor that occurs linearly by its bracket
        cnt = {}
        for m in p.t:
            for v, e in m:
                cnt[v] = cnt.get(v, 0) + (1 if (e == 1 and len(m) == 1) else 2)
        cand = sorted((v for v in cnt if cnt[v] == 1 and v in DEF), reverse=True)
        for v in cand[:4]:
            base, k = DEF[v]
            s = 1 << k
            c = p.t[((v, 1),)]
            rest = mkpoly({m: x for m, x in p.t.items() if m != ((v, 1),)})
            q = padd(pmul(rest, s), pmul(base, c))      # 2^k * p with v -> base/2^k
            b = bounds(q, depth - 1)
            slack = abs(c) * (s - 1)
            if c > 0:
                lo = None if b[0] is None else cdiv(b[0] - slack, s)
                hi = None if b[1] is None else b[1] // s
            else:
                lo = None if b[0] is None else cdiv(b[0], s)
                hi = None if b[1] is None else (b[1] + slack) // s
            r = meet(r, (lo, hi))
    if depth == 4:
        _bmemo[p.id] = r
    return r


def sym(c, m):
    c %= m
    return c - m if c > m // 2 or (c == m // 2 and False) else c


def residue(p, k):
    base, K = {}, {}
    s = 1 << k
    for m, c in p.t.items():
        r = sym(c, s)
        if r:
            base[m] = r
        if c != r:
            K[m] = (c - r) >> k
    return mkpoly(base), mkpoly(K)


DEFS = {}


def floor2(p, k):
    """floor(p / 2^k)"""
    if k == 0:
        return p
    s = 1 << k
    if isinstance(p, int):
        return p >> k
    b = bounds(p)
    if None not in b and b[0] >> k == b[1] >> k:
        return b[0] >> k
    B, Kp = residue(p, k)
    if isinstance(B, int):
        return padd(B >> k, Kp)
    j = k
    for m, c in B.t.items():
        if m:
            j = min(j, (c & -c).bit_length() - 1)
    if j:
        # common power of two
        X = mkpoly({m: c >> j for m, c in B.t.items()})
        return padd(floor2(X, k - j), Kp)
    bb = bounds(B)
    if None not in bb and bb[0] >> k == bb[1] >> k:
        return padd(bb[0] >> k, Kp)
    vs = sorted(pvars(B))
    if len(vs) <= 5 and all(vb(v) == (0, 1) for v in vs):
        return padd(multilinear(B, vs, lambda c: c >> k), Kp)
    if len(B.t) == 1 and len(vs) == 1 and vs[0] in LOGIC and B.t.get(((vs[0], 1),)) == 1:
        op, x, y, w = LOGIC[vs[0]]
        if k == w - 1:
            hx, hy = floor2(U(x, w), k), floor2(U(y, w), k)
            xy = bitnorm(pmul(hx, hy))
            r = xy if op == "and" else bitnorm(psub(padd(hx, hy), pmul(xy, 2)))
            return padd(r, Kp)
    if k in (31, 63):
        # the top bit of the word below the carry
        q = floor2(p, k + 1)
        B, _ = residue(p, k + 1)
        name = "hb%d.%d" % (k, B.id)
        h = var(name, (0, 1), lambda e: (e.poly(B) >> k) & 1, term("hbit", B, k))
        v = vid1(h)
        BND[v] = (0, 1)
        qb = floor2(B, k + 1)
        DEFS[v] = (psub(B, padd(pmul(qb, 1 << (k + 1)), pmul(h, 1 << k))), 0, (1 << k) - 1)
        r = padd(pmul(q, 2), h)
        if isinstance(r, Poly) and None not in b:
            x = (b[0] >> k, b[1] >> k)
            REG[r.id] = meet(REG[r.id], x) if r.id in REG else x
            _bmemo.pop(r.id, None)
        return r
    if None in bb:
        raise Unsupported("unbounded word expression")
    lo, hi = bb[0] >> k, bb[1] >> k
    name = "fl%d.%d" % (k, B.id)
    q = var(name, rng_of(lo, hi), lambda e: e.poly(B) >> k, term("floor", B, k))
    v = vid1(q)
    BND[v] = (lo, hi)
    DEF[v] = (B, k)
    r = padd(q, Kp)
    if isinstance(r, Poly) and None not in b:
        x = (b[0] >> k, b[1] >> k)
        REG[r.id] = meet(REG[r.id], x) if r.id in REG else x
        _bmemo.pop(r.id, None)
        if r is not q and (r.id, v) not in _exd:
            _exd.add((r.id, v))
            EXTRADEF.setdefault(v, []).append((r, x[0], x[1]))
    return r


EXTRADEF = {}
_exd = set()


def bitnorm(p):
    """b*b = b for 0/1 variables"""
    if isinstance(p, int) or all(e == 1 or vb(v) != (0, 1) for m in p.t for v, e in m):
        return p
    t = {}
    for m, c in p.t.items():
        n = tuple((v, 1 if vb(v) == (0, 1) and e > 0 else e) for v, e in m)
        t[n] = t.get(n, 0) + c
    return mkpoly({m: c for m, c in t.items() if c})


def multilinear(B, vs, f):
    """the function f(B) of 0/1 variables as a polynomial"""
    if not vs:
        return f(B if isinstance(B, int) else B)
    v = vs[0]
    a = multilinear(psubst(B, {v: 0}) if isinstance(B, Poly) else B, vs[1:], f)
    b = multilinear(psubst(B, {v: 1}) if isinstance(B, Poly) else B, vs[1:], f)
    return padd(a, pmul(psub(b, a), mkpoly({((v, 1),): 1})))


def wrapu(p, w):
    """p mod 2^w as unsigned value"""
    if isinstance(p, int):
        return p & ((1 << w) - 1)
    b = bounds(p)
    if None not in b and 0 <= b[0] and b[1] < (1 << w):
        return p
    f = floor2(p, w)
    r = psub(p, pmul(f, 1 << w))
    if isinstance(r, Poly):
        REG[r.id] = meet(REG[r.id], (0, (1 << w) - 1)) if r.id in REG else (0, (1 << w) - 1)
        _bmemo.pop(r.id, None)
    return r


def hbit(p, w=64):
    """sign bit of the w-bit unsigned value p"""
    if isinstance(p, int):
        return (p >> (w - 1)) & 1
    return floor2(p, w - 1)


def signed(p, w=64):
    if isinstance(p, int):
        return wrap(p, w)
    h = hbit(p, w)
    r = psub(p, pmul(h, 1 << w))
    if isinstance(r, Poly):
        SIGNOF[r.id] = h
        x = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        REG[r.id] = meet(REG[r.id], x) if r.id in REG else x
        _bmemo.pop(r.id, None)
    return r


def U(x, w):
    return x & ((1 << w) - 1) if isinstance(x, int) else x


def out(p, w):
    """leaf of an unsigned value (constants are kept sign-wrapped)"""
    if isinstance(p, int):
        return leaf(wrap(p, w) if w > 1 else p & 1)
    return leaf(p)


def isbit(p):
    b = bounds(p)
    return b[0] is not None and b[0] >= 0 and b[1] <= 1


def expand_bits(x):
    """A polynomial over sign/carry bits only -> diagram of constants."""
    if not isinstance(x, Poly):
        return None
    vs = sorted(pvars(x))
    if len(vs) > 3 or not all(vb(v)[0] is not None and vb(v)[1] - vb(v)[0] <= 2 for v in vs):
        return None

    def go(p, vs):
        if isinstance(p, int):
            return leaf(p)
        v = vs[0]
        lo, hi = vb(v)
        r = go(psubst(p, {v: hi}), vs[1:])
        for k in range(hi - 1, lo - 1, -1):
            s = sgn_poly(psub(mkpoly({((v, 1),): 1}), k))
            c = map1(lambda t: TRUE if t == 0 else FALSE, s)
            if (lo, hi) == (0, 1) or (lo, hi) == (-1, 0):
                pass
            r = ITE(c, go(psubst(p, {v: k}), vs[1:]), r)
        return r
    return go(x, vs)


def cmpd(d, f):
    """Node: f(sign of d) using bounds first"""
    if isinstance(d, int):
        return TRUE if f((d > 0) - (d < 0)) else FALSE
    b = bounds(d)
    poss = set()
    if b[0] is None or b[0] < 0:
        poss.add(-1)
    if b[1] is None or b[1] > 0:
        poss.add(1)
    if (b[0] is None or b[0] <= 0) and (b[1] is None or b[1] >= 0):
        poss.add(0)
    r = {bool(f(s)) for s in poss}
    if len(r) == 1:
        return TRUE if r.pop() else FALSE
    vs = pvars(d)
    if len(vs) <= 4 and len(d.t) > 1 and all(vb(v) == (0, 1) for v in vs):
        def go(p, vs):
            if isinstance(p, int):
                return TRUE if f((p > 0) - (p < 0)) else FALSE
            v = vs[0]
            c = sgn_poly(mkpoly({((v, 1),): 1}))
            return ITE(map1(lambda t: TRUE if t > 0 else FALSE, c), go(psubst(p, {v: 1}), vs[1:]), go(psubst(p, {v: 0}), vs[1:]))
        return go(d, sorted(vs))
    only = {s for s in poss}
    s = sgn_poly(d)
    k0 = next(iter(only))
    return map1(lambda v: TRUE if f(v if v in only else k0) else FALSE, s)


OREXP = {}
LOGIC = {}
SIGNOF = {}
DIVREM = {}
FREED = -1000


class WordInterp(Interp):
    DIV_SHORT = True

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, x, y, w):
        if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)) and (isinstance(x, Poly) or isinstance(y, Poly)):
            if w == 128:
                r = padd(x, y) if op == "add" else psub(x, y) if op == "sub" else pmul(x, y)
                b = self.opbounds(op, x, y, r)
                if None in b or b[0] < -(1 << 127) or b[1] >= (1 << 128) or (b[0] < 0 and b[1] >= (1 << 127)):
                    raise Unsupported("128-bit overflow")
                return leaf(r)
            if op == "mul":
                # keep products small: use the signed constant
                r = bitnorm(pmul(x, y))
                self.opbounds(op, x, y, r)
            else:
                r = padd(x, y) if op == "add" else psub(x, y)
            if w == 1:
                raise Unsupported("i1 arithmetic")
            return out(wrapu(r, w), w)
        return super().arith(op, x, y, w)

    def opbounds(self, op, x, y, r):
        bx, by = bounds(x), bounds(y)
        if None in bx or None in by:
            return bounds(r)
        b = imul(bx, by) if op == "mul" else (bx[0] + by[0], bx[1] + by[1]) if op == "add" else (bx[0] - by[1], bx[1] - by[0])
        if isinstance(r, Poly):
            b = meet(b, bounds(r))
            REG[r.id] = meet(REG[r.id], b) if r.id in REG else b
            _bmemo.pop(r.id, None)
        return b

    def bitop(self, op, x, y, w):
        if not (isinstance(x, Poly) or isinstance(y, Poly)):
            return super().bitop(op, x, y, w)
        if x is UNDEF or y is UNDEF:
            return super().bitop(op, x, y, w)
        if not isinstance(x, (int, Poly)) or not isinstance(y, (int, Poly)):
            return super().bitop(op, x, y, w)
        m = (1 << w) - 1
        x, y = U(x, w), U(y, w)
        if op in ("shl", "lshr", "ashr"):
            if not isinstance(y, int):
                e = expand_bits(y)
                if e is not None:
                    return map1(lambda k: self.bitop(op, x, k, w), e)
                return self.symshift(op, x, y, w)
            if y >= w:
                self.note("undef-shift", self.cur_g, "shift by %d" % y)
                return UND
            if isinstance(x, int):
                return super().bitop(op, wrap(x, w), y, w)
            if op == "shl":
                return out(wrapu(pmul(x, 1 << y), w), w)
            if w == 128:
                return leaf(floor2(x, y))
            if op == "lshr":
                return out(self.lshr(x, y), w)
            h = hbit(x, w)
            if isinstance(h, Poly) and len(h.t) > 1:
                f = floor2(x, y) if y < w - 1 else 0
                up = (1 << w) - (1 << (w - y)) if y < w - 1 else m
                return ITE(cmpd(h, lambda t: t > 0), out(padd(f, up), w), out(f, w))
            return out(padd(floor2(x, y), pmul(h, (1 << w) - (1 << (w - y)))) if y < w - 1 else pmul(h, m), w)
        if op in ("and", "or", "xor"):
            return self.logic(op, x, y, w, m)
        if op in ("sdiv", "srem", "udiv", "urem"):
            return self.division(op, x, y, w)
        raise Unsupported("word operation " + op)

    def lshr(self, x, y):
        t = OREXP.get(x.id) if isinstance(x, Poly) else None
        if t is not None:
            a, b = self.lshr(t[0], y), self.lshr(t[1], y)
            r = self.logic("or", a, b, 64, W64 - 1)
            if r.a is None and isinstance(r.v, (int, Poly)):
                return r.v
            raise Unsupported("shift of a union")
        return floor2(x, y)

    def symshift(self, op, x, y, w):
        raise Unsupported("shift by a symbolic amount")

    def logic(self, op, x, y, w, m):
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            if y == 0:
                return out({"and": 0, "or": x, "xor": x}[op], w)
            if y == m:
                return out({"and": x, "or": m, "xor": psub(m, x)}[op], w)
            if isinstance(x, int):
                return super().bitop(op, wrap(x, w), wrap(y, w), w)
            if op == "and" and y & (y + 1) == 0:
                k = y.bit_length()
                return out(psub(x, pmul(floor2(x, k), 1 << k)), w)
            if op == "and" and y & (y - 1) == 0:
                k = y.bit_length() - 1
                f = floor2(x, k)
                return out(pmul(psub(f, pmul(floor2(x, k + 1), 2)), 1 << k), w)
            e = expand_bits(x)
            if e is not None:
                return map1(lambda v: super(WordInterp, self).bitop(op, wrap(v, w), wrap(y, w), w), e)
            runs, k = [], 0
            while y >> k:
                if y >> k & 1:
                    h = k
                    while y >> h & 1:
                        h += 1
                    runs.append((k, h))
                    k = h
                else:
                    k += 1
            if len(runs) <= 2 and x.id not in OREXP:
                r = 0
                for k, h in runs:
                    f = floor2(x, k)
                    if h < w:
                        f = psub(f, pmul(floor2(x, h), 1 << (h - k)))
                    r = padd(r, pmul(f, 1 << k))
                return out(r if op == "and" else psub(padd(x, y), r if op == "or" else pmul(r, 2)), w)
            b = bounds(x)
            if op == "or" and None not in b:
                # disjoint bits
                k = b[1].bit_length()
                if y % (1 << k) == 0:
                    return out(padd(x, y), w)
            return self.opaque_logic(op, x, y, w)
        if x is y:
            return out({"and": x, "or": x, "xor": 0}[op], w)
        if isbit(x) and isbit(y):
            xy = bitnorm(pmul(x, y))
            if op == "or":
                s = padd(x, y)
                if isinstance(s, int):
                    return out(s, w)
                b = bounds(s)
                if b[1] <= 1:
                    return out(s, w)
                return out(psub(s, xy), w)
            return out(xy if op == "and" else psub(padd(x, y), pmul(xy, 2)), w)
        for p, q in ((x, y), (y, x)):
            if all(c % m == 0 for c in p.t.values()):
                b = mkpoly({k: c // m for k, c in p.t.items()})
                if isbit(b):
                    if op == "and":
                        return out(pmul(b, q), w)
                    if op == "or":
                        return out(padd(p, psub(q, pmul(b, q))), w)
                    return out(padd(q, psub(p, pmul(pmul(b, q), 2))), w)
        if op == "or":
            for p, q in ((x, y), (y, x)):
                b = bounds(q)
                if None in b:
                    continue
                k = b[1].bit_length()
                if all(c % (1 << k) == 0 for c in p.t.values()):
                    return out(padd(p, q), w)
        return self.opaque_logic(op, x, y, w)

    def opaque_logic(self, op, x, y, w):
        if op == "or" and w == 64 or op == "or":
            if key_of(x) > key_of(y):
                x, y = y, x
            t = term("or", x, y)
            p = var("<%s>" % tstr(t), (0, 1), lambda e: e.leafval(x) | e.leafval(y), t)
            BND[vid1(p)] = (0, (1 << w) - 1)
            OREXP[p.id] = (x, y)
            return leaf(p)
        # sign-only uses
        if key_of(x) > key_of(y):
            x, y = y, x
        t = term(op, x, y)
        f = {"and": lambda a, b: a & b, "xor": lambda a, b: a ^ b}[op]
        p = var("<%d %s>" % (w, tstr(t)), (0, 1), lambda e: f(e.leafval(x), e.leafval(y)), t)
        BND[vid1(p)] = (0, (1 << w) - 1)
        LOGIC[vid1(p)] = (op, x, y, w)
        return leaf(p)

    def division(self, op, x, y, w):
        if op[0] == "s":
            sx, sy = signed(x, w), signed(y, w)
        else:
            sx, sy = x, y
        self.note("div0", AND(self.cur_g, cmpd(sy, lambda s: s == 0)), "division by zero")
        if op[0] == "s":
            mn = -(1 << (w - 1))
            a = cmpd(psub(sx, mn), lambda s: s == 0)
            b = cmpd(padd(sy, 1), lambda s: s == 0)
            self.note("div-overflow", AND(self.cur_g, AND(a, b)), "quotient overflows the word")
        q = divq(sx, sy)
        if op.endswith("div"):
            return out(self.su(q, w), w)
        return out(self.su(psub(sx, pmul(q, sy)), w), w)

    def su(self, p, w):
        """signed value -> unsigned representation"""
        if isinstance(p, int):
            return p & ((1 << w) - 1)
        b = bounds(p)
        if None not in b and b[0] >= 0:
            return p
        if p.id in DIVREM:
            n = DIVREM[p.id]
            return padd(p, pmul(n, 1 << w))
        return wrapu(p, w)

    # ------------------------------------------------------------ comparison
    def icmp(self, pred, x, y, w, g):
        if (isinstance(x, Poly) or isinstance(y, Poly)) and isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)):
            if pred in ("eq", "ne"):
                x, y = U(x, w), U(y, w)
                if w == 128:
                    pass
                d = self.eqz(psub(x, y))
                return d if pred == "eq" else NOT(d)
            if pred[0] == "s":
                x, y = signed(U(x, w), w), signed(U(y, w), w)
            else:
                x, y = U(x, w), U(y, w)
            f = {"lt": lambda v: v < 0, "le": lambda v: v <= 0, "gt": lambda v: v > 0, "ge": lambda v: v >= 0}[pred[1:]]
            # a test of a value against zero that only asks for the sign bit
            return self.signtest(pred, x, y, w, f)
        return super().icmp(pred, x, y, w, g)

    def signtest(self, pred, x, y, w, f):
        d = psub(x, y)
        if pred[0] == "s" and isinstance(y, int) and y == 0 and isinstance(x, Poly):
            # x = u - 2^w*h(u): negative iff h
            h = SIGNOF.get(x.id)
            if h is not None:
                neg = cmpd(h, lambda s: s > 0)
                if pred == "slt":
                    return neg
                if pred == "sge":
                    return NOT(neg)
                z = cmpd(d, lambda s: s == 0)
                if pred == "sgt":
                    return AND(NOT(neg), NOT(z))
                return OR(neg, z)
        return cmpd(d, f)

    def eqz(self, d):
        if isinstance(d, Poly):
            t = OREXP.get(d.id)
            if t is not None:
                return AND(self.eqz(t[0]), self.eqz(t[1]))
        return cmpd(d, lambda s: s == 0)

    # ------------------------------------------------------------ casts
    def exec(self, op, i, env, st, g):
        self.cur_g = g
        if op in ("sext", "zext", "trunc"):
            a = self.ref(i["a"][0], env, st)
            wf, wt = width(i["oty"]), width(i["ty"])

            def cv(v):
                if isinstance(v, Poly):
                    if op == "zext":
                        return leaf(v)
                    if op == "trunc":
                        t = OREXP.get(v.id)
                        if t is not None and wt >= 32:
                            return self.logic("or", U(wrapu(t[0], wt), wt), U(wrapu(t[1], wt), wt), wt, (1 << wt) - 1)
                        return out(wrapu(v, wt), wt)
                    if wt == 128:
                        return leaf(signed(v, wf))
                    h = hbit(v, wf)
                    return out(padd(v, pmul(h, (1 << wt) - (1 << wf))), wt)
                if isinstance(v, int):
                    if op == "sext":
                        if wf == 1:
                            return leaf(-1 if v & 1 else 0)
                        return leaf(wrap(v, wf))
                    if op == "zext":
                        return leaf(v & ((1 << wf) - 1))
                    return leaf(v & 1 if wt == 1 else wrap(v, wt))
                return leaf(v)
            return map1(cv, a)
        if op in ("add", "sub", "mul") and i.get("ty") == "i1":
            a, b = self.ref(i["a"][0], env, st), self.ref(i["a"][1], env, st)
            return map2(lambda x, y: self.bitop("xor" if op != "mul" else "and", x, y, 1), a, b)
        return super().exec(op, i, env, st, g)

    def tobool(self, c, g):
        def f(v):
            if isinstance(v, Poly):
                if isbit(v):
                    return cmpd(v, lambda s: s > 0)
                raise Unsupported("branch on a word")
            if isinstance(v, int):
                return TRUE if v & 1 else FALSE
            if v is UNDEF:
                self.note("undef-branch", AND(g, is_leaf(c, v)), "branch on an uninitialised value")
                return self.undef_bool()
            if isinstance(v, Term):
                return boolatom(v)
            raise Unsupported("branch on %s" % (v,))
        return map1(f, c)

    def eqc(self, v, k):
        if isinstance(v, Poly):
            return cmpd(psub(v, k), lambda s: s == 0)
        return super().eqc(v, k)

    # ------------------------------------------------------------ memory safety
    def check_access(self, st, p, size, guard, kind):
        for v in set(leaves(p)):
            if not isinstance(v, Ptr) or v.obj == 0:
                continue
            o = self.objs[v.obj]
            sz = o.size
            cond = map1(lambda x: TRUE if x is v else FALSE, p) if p.a is not None else TRUE
            gg = AND(guard, cond)
            if AND(self.ctx, gg) is FALSE:
                continue
            if o.kind in ("heap", "stack", "in", "global") and isinstance(sz, int) and isinstance(v.off, int):
                if v.off < 0 or v.off + size > sz:
                    self.note(kind, gg, "%s of %d bytes at offset %d of the %d-byte object allocated at %s" % (
                        "read" if kind == "badload" else "write", size, v.off, sz, o.site))
            c = st.cells(v.obj)
            if c is not None and FREED in c:
                f = c[FREED][1]
                if f is not FALSE:
                    self.note(kind, AND(gg, f), "use after free")

    def load(self, st, p, size, ty, guard):
        self.check_access(st, p, size, guard, "badload")
        return super().load(st, p, size, ty, guard)

    def store(self, st, p, size, val, guard):
        if isinstance(size, int):
            self.check_access(st, p, size, guard, "badstore")
        return super().store(st, p, size, val, guard)




def divq(sx, sy):
    """truncated quotient of two integers (opaque, with its meaning recorded)"""
    if isinstance(sx, int) and isinstance(sy, int):
        return intrin.truncdiv(sx, sy)
    if isinstance(sy, int) and sy == 1:
        return sx
    t = term("sdiv", sx, sy)
    p = var("<%s>" % tstr(t), None, lambda e: intrin.truncdiv(e.poly(sx), e.poly(sy)), t)
    b = bounds(sx) if isinstance(sx, Poly) else (sx, sx)
    m = max(abs(b[0]), abs(b[1]))
    lo = 0 if b[0] >= 0 and bounds(sy)[0] >= 0 else -m
    BND[vid1(p)] = (lo, m)
    return p


# ---------------------------------------------------------------- intrinsics
def x_malloc(I, st, a, g, inst):
    n = a[0]
    if n.a is not None:
        n = restrict(n, AND(I.ctx, g))
    sizes = set(leaves(n))
    if not all(isinstance(x, int) for x in sizes):
        raise Unsupported("allocation of symbolic size")
    res = None
    for z in sorted(sizes):
        o = I.new_obj(z, "heap", "malloc")
        st.wcells(o)[FREED] = (1, FALSE)
        c = map1(lambda x: TRUE if x == z else FALSE, n) if n.a is not None else TRUE
        res = leaf(ptr(o, 0)) if res is None else ITE(c, leaf(ptr(o, 0)), res)
        I.allocs.append((o, AND(AND(I.ctx, g), c)))
    return res


def x_free(I, st, a, g, inst):
    p = a[0]
    for v in set(leaves(p)):
        cond = map1(lambda x: TRUE if x is v else FALSE, p) if p.a is not None else TRUE
        gg = AND(g, cond)
        if AND(I.ctx, gg) is FALSE:
            continue
        if v is NULL or (isinstance(v, int) and v == 0):
            continue
        if not isinstance(v, Ptr):
            I.note("badfree", gg, "free of %s" % (v,))
            continue
        o = I.objs[v.obj]
        if o.kind != "heap" or v.off != 0:
            I.note("badfree", gg, "free of a pointer that is not the start of an allocation")
            continue
        c = st.wcells(v.obj)
        f = c.get(FREED, (1, FALSE))[1]
        if f is not FALSE:
            I.note("badfree", AND(gg, f), "double free")
        full = AND(I.ctx, gg)
        c[FREED] = (1, OR(f, full))
    return None


def w_ovf(op, signed_):
    base = intrin.ovf(op, signed_)

    def h(I, st, a, g, inst):
        fs, _, _ = split_struct(inst["ty"])
        w = width(fs[0][2])
        if signed_:
            return base(I, st, a, g, inst)

        def f(x, y):
            if x is UNDEF or y is UNDEF:
                return UND, UND
            x, y = U(x, w), U(y, w)
            p = padd(x, y) if op == "add" else psub(x, y) if op == "sub" else pmul(x, y)
            r = wrapu(p, w)
            c = floor2(p, w)
            if op == "sub":
                c = pneg(c)
            return out(r, w), (leaf(c & 1) if isinstance(c, int) else leaf(c))
        val = map2(lambda x, y: f(x, y)[0], a[0], a[1])
        c = map2(lambda x, y: f(x, y)[1], a[0], a[1])
        return leaf(agg_intern(((fs[0][0], fs[0][1], val), (fs[1][0], fs[1][1], c))))
    return h


def w_labs(I, st, a, g, inst):
    def f(x):
        if isinstance(x, int):
            return leaf(abs(x))
        if x is UNDEF:
            return UND
        s = signed(x, 64)
        h = hbit(x, 64)
        I.note("abs-overflow", AND(g, cmpd(psub(x, 1 << 63), lambda v: v == 0)), "absolute value of the minimum word")
        return out(wrapu(psub(s, pmul(pmul(h, s), 2)), 64), 64) if False else ITE(
            cmpd(h, lambda v: v > 0), out(wrapu(pneg(s), 64), 64), out(x, 64))
    return map1(f, a[0])


class WordIntrinsics(Intrinsics):
    def lookup(self, name, f):
        if name in ("malloc", "_Znwm", "_Znam"):
            return x_malloc
        if name in ("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv"):
            return x_free
        if name in ("labs", "llabs", "abs"):
            return w_labs
        h = EXT.get(name)
        if h is not None:
            return h
        m = re.match(r"llvm\.([su])(add|sub|mul)\.with\.overflow", name)
        if m:
            return w_ovf(m.group(2), m.group(1) == "s")
        if name.startswith("llvm."):
            return llvm_intrinsic(name)
        return None


# ---------------------------------------------------------------- decision
LINF = {}


def linform(p):
    r = LINF.get(p.id)
    if r is None:
        r = LINF[p.id] = tuple(p.t.items())
    return r


class Box:
    """Interval state of one diagram path: bounds of the variables plus the
    constraints (path conditions and definitions of floors)."""

    def __init__(self):
        self.b = {}
        self.cons = []              # (poly, lo, hi)
        self.idx = {}               # var -> tuple of constraint numbers
        self.seen = set()

    def get(self, v):
        r = self.b.get(v)
        return r if r is not None else vb(v)

    def __contains__(self, v):
        return True

    def copy(self):
        x = Box()
        x.b = dict(self.b)
        x.cons = list(self.cons)
        x.idx = dict(self.idx)
        x.seen = set(self.seen)
        return x

    def add(self, p, lo, hi):
        """Adds a constraint with the definitions it needs; False when empty."""
        q = []
        self._push(p, lo, hi, q)
        return self.run(q)

    def _push(self, p, lo, hi, q):
        if isinstance(p, int):
            if (lo is not None and p < lo) or (hi is not None and p > hi):
                q.append(-1)
            return
        k = len(self.cons)
        self.cons.append((p, lo, hi))
        q.append(k)
        for v in pvars(p):
            self.idx[v] = self.idx.get(v, ()) + (k,)
            self.define(v, q)

    def define(self, v, q):
        if v in self.seen:
            return
        self.seen.add(v)
        d = DEF.get(v)
        if d is not None:
            B, k = d
            self._push(psub(B, pmul(mkpoly({((v, 1),): 1}), 1 << k)), 0, (1 << k) - 1, q)
        d = DEFS.get(v)
        if d is not None:
            self._push(d[0], d[1], d[2], q)
        info = VARS[v].info
        if isinstance(info, Term) and info.op in ("or", "xor", "and"):
            for a in info.args:
                if isinstance(a, Poly):
                    for x in pvars(a):
                        self.define(x, q)
        e = EXTRADEF.get(v)
        if e is not None:
            for p, lo, hi in e:
                self._push(p, lo, hi, q)

    def need(self, p):
        q = []
        if isinstance(p, Poly):
            for v in pvars(p):
                self.define(v, q)
        return self.run(q)

    def set(self, v, lo, hi):
        o = self.get(v)
        n = meet(o, (lo, hi))
        if n[0] is not None and n[1] is not None and n[0] > n[1]:
            return False
        if n == o:
            return True
        self.b[v] = n
        return self.run(list(self.idx.get(v, ())))

    def run(self, queue):
        """Interval propagation; False when empty."""
        if -1 in queue:
            return False
        b, cons, idx = self.b, self.cons, self.idx
        inq = set(queue)
        upd = {}
        qi = 0
        while qi < len(queue):
            k = queue[qi]
            qi += 1
            inq.discard(k)
            p, lo, hi = cons[k]
            tb = []
            slo = shi = 0
            bad = 0
            nonlin = False
            for m, c in linform(p):
                # effective linear coefficient once the other factors are fixed
                v, e = None, c
                if len(m) == 1 and m[0][1] == 1:
                    v = m[0][0]
                    r = b.get(v)
                    if r is None:
                        r = BND.get(v, (None, None))
                    l, h = r
                elif not m:
                    slo += c
                    shi += c
                    continue
                else:
                    l = h = None
                    free = 0
                    nonlin = True
                    for w, x in m:
                        r = self.get(w)
                        if r[0] is not None and r[0] == r[1]:
                            e *= r[0] ** x if x > 0 else 1
                        else:
                            free += 1
                            v = w if x == 1 else None
                    if free == 0:
                        slo += e
                        shi += e
                        continue
                    if e == 0:
                        continue
                    if free == 1 and v is not None:
                        l, h = self.get(v)
                    else:
                        v, e = None, c
                        l, h = mono_bounds(m, self)
                if l is None or h is None:
                    bad += 1
                    tb.append((v, e, None))
                    continue
                if e > 0:
                    x = (e * l, e * h)
                else:
                    x = (e * h, e * l)
                slo += x[0]
                shi += x[1]
                tb.append((v, e, x))
            if bad == 0:
                if (lo is not None and shi < lo) or (hi is not None and slo > hi):
                    return False
                if (lo is None or slo >= lo) and (hi is None or shi <= hi):
                    continue
            if bad > 1:
                continue
            for v, c, x in tb:
                if v is None or (bad == 1 and x is not None):
                    continue
                olo = slo - (x[0] if x else 0)
                ohi = shi - (x[1] if x else 0)
                l = None if lo is None else lo - ohi
                h = None if hi is None else hi - olo
                if c > 0:
                    nl = None if l is None else -((-l) // c)
                    nh = None if h is None else h // c
                else:
                    nl = None if h is None else -((-h) // c)
                    nh = None if l is None else l // c
                o = self.get(v)
                if (nl is None or (o[0] is not None and o[0] >= nl)) and (nh is None or (o[1] is not None and o[1] <= nh)):
                    continue
                n = meet(o, (nl, nh))
                if n[0] is not None and n[1] is not None and n[0] > n[1]:
                    return False
                b[v] = n
                if x is not None:
                    y = (c * n[0], c * n[1]) if c > 0 else (c * n[1], c * n[0])
                    slo += y[0] - x[0]
                    shi += y[1] - x[1]
                u = upd[v] = upd.get(v, 0) + 1
                if u <= 12 or n[0] == n[1]:
                    for j in idx.get(v, ()):
                        if (j != k or nonlin) and j not in inq:
                            inq.add(j)
                            queue.append(j)
        return True


def fix(box, p):
    """substitute variables whose interval is a point"""
    if not isinstance(p, Poly):
        return p
    env = {}
    for v in pvars(p):
        b = box.get(v)
        if b[0] is not None and b[0] == b[1]:
            env[v] = b[0]
    return psubst(p, env) if env else p


def reduce_by(t, red):
    """t: {monomial: Fraction} reduced by the solved rows"""
    for piv, s in red:
        k = t.get(piv)
        if k:
            for m, c in s.items():
                n = t.get(m, 0) - k * c
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
    return t


def integral(t):
    d = 1
    for c in t.values():
        if isinstance(c, Fraction):
            d = d * c.denominator // gcd(d, c.denominator)
    return mkpoly({m: int(c * d) for m, c in t.items()}), d


def norm_con(p, lo, hi):
    """constraint without constant term, content and sign normalised"""
    k = p.t.get((), 0)
    t = {m: c for m, c in p.t.items() if m}
    g = 0
    for c in t.values():
        g = gcd(g, c)
    lead = t[max(t)]
    sg = -1 if lead < 0 else 1
    lo2 = None if lo is None else lo - k
    hi2 = None if hi is None else hi - k
    lo2 = None if lo2 is None else cdiv(lo2, g)
    hi2 = None if hi2 is None else hi2 // g
    if sg < 0:
        lo2, hi2 = (None if hi2 is None else -hi2), (None if lo2 is None else -lo2)
    return mkpoly({m: sg * c // g for m, c in t.items()}), lo2, hi2


def live(box):
    """The path's constraints with fixed variables substituted, equalities
    eliminated and saturated.  Returns (constraints, solved rows) or None when
    the path is infeasible."""
    red = []
    cur = list(box.cons)
    for _ in range(6):
        tab = {}
        for p, lo, hi in cur:
            q = fix(box, p)
            if isinstance(q, Poly) and red:
                q, d = integral(reduce_by({m: Fraction(c) for m, c in q.t.items()}, red))
                lo = None if lo is None else lo * d
                hi = None if hi is None else hi * d
            if isinstance(q, int):
                if (lo is not None and q < lo) or (hi is not None and q > hi):
                    return None
                continue
            q, lo, hi = norm_con(q, lo, hi)
            o = tab.get(q.id)
            if o is not None:
                lo, hi = meet((lo, hi), o[1:])
            if lo is not None and hi is not None and lo > hi:
                return None
            tab[q.id] = (q, lo, hi)
        cur = []
        new = False
        for q, lo, hi in tab.values():
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if len(m) == 1 and m[0][1] == 1:
                    if not box.set(m[0][0], None if lo is None else cdiv(lo, c), None if hi is None else hi // c):
                        return None
                    z = box.get(m[0][0])
                    if z[0] is not None and z[0] == z[1]:
                        new = True
                        continue
            if lo is not None and lo == hi:
                r = {m: Fraction(c) for m, c in q.t.items()}
                if lo:
                    r[()] = Fraction(-lo)
                reduce_by(r, red)
                if not any(r):
                    if r:
                        return None
                    continue
                piv = max((m for m in r if m), key=lambda m: (abs(r[m]) == 1, len(m) if abs(r[m]) == 1 else -len(m), m))
                k = r[piv]
                r = {m: c / k for m, c in r.items()}
                red = [(pv, reduce_by(dict(s), [(piv, r)])) for pv, s in red] + [(piv, r)]
                new = True
                continue
            cur.append((q, lo, hi))
        if not new:
            break
    have = {q.id for q, _, _ in cur}
    for pv, r in red:
        # an eliminated variable keeps its interval
        if len(pv) != 1 or pv[0][1] != 1 or len(r) > 8:
            continue
        lo, hi = box.get(pv[0][0])
        if lo is None and hi is None:
            continue
        e, d = integral({m: -c for m, c in r.items() if m != pv})
        if isinstance(e, int) or len(e.t) - (() in e.t) < 2:
            continue
        q, lo, hi = norm_con(e, None if lo is None else lo * d, None if hi is None else hi * d)
        if q.id not in have:
            have.add(q.id)
            cur.append((q, lo, hi))
    return cur, red


def tighten(box, cons):
    """adds the constraints obtained by rounding; None when one is empty"""
    cur = list(cons)
    have = {q.id for q, _, _ in cur}
    for q, lo, hi in cons:
        for x in rounded(box, q, lo, hi):
            if x is None:
                return None
            if x[0].id not in have:
                have.add(x[0].id)
                cur.append(x)
    return cur


def rounded(box, q, lo, hi):
    """small + g*rest in [lo, hi]  =>  rest in the rounded interval"""
    ts = sorted(q.t.items(), key=lambda t: abs(t[1]))
    if len(ts) < 2:
        return
    suf, g = [], 0
    for m, c in reversed(ts):
        g = gcd(g, c)
        suf.append(g)
    suf.reverse()
    slo = shi = 0
    for i in range(1, len(ts)):
        m, c = ts[i - 1]
        b = mono_bounds(m, box)
        if None in b:
            return
        slo += min(c * b[0], c * b[1])
        shi += max(c * b[0], c * b[1])
        g = suf[i]
        if g == suf[i - 1] or g < 4 or shi - slo >= g * 2:
            continue
        rest = {m: c // g for m, c in ts[i:]}
        l = None if lo is None else cdiv(lo - shi, g)
        h = None if hi is None else (hi - slo) // g
        if l is not None and h is not None and l > h:
            yield None
            return
        r = mkpoly(rest)
        b = naive(r, box)
        if (l is not None and (b[0] is None or l > b[0])) or (h is not None and (b[1] is None or h < b[1])):
            yield norm_con(r, l, h)


def corner(box, p):
    """Exact bounds of the nonlinear part of a multilinear polynomial: extremes
    are at the corners of the box."""
    # a variable that occurs only as  c*v^2 + d*v
    sq = {}
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 2:
            sq[m[0][0]] = c
    off = (0, 0)
    for v, c in sq.items():
        if any(w == v for m in p.t if len(m) > 1 for w, _ in m):
            return (None, None)
        l, h = box.get(v)
        if l is None or h is None:
            return (None, None)
        d = p.t.get(((v, 1),), 0)
        ev = [c * l * l + d * l, c * h * h + d * h]
        vx = Fraction(-d, 2 * c)
        for k in (vx.numerator // vx.denominator, vx.numerator // vx.denominator + 1):
            if l <= k <= h:
                ev.append(c * k * k + d * k)
        off = (off[0] + min(ev), off[1] + max(ev))
    if sq:
        rest = mkpoly({m: c for m, c in p.t.items() if not (len(m) == 1 and m[0][0] in sq)})
        b = meet(naive(rest, box), corner(box, rest) if isinstance(rest, Poly) else (None, None))
        if None in b:
            return (None, None)
        return (b[0] + off[0], b[1] + off[1])
    non = {m: c for m, c in p.t.items() if len(m) > 1}
    if not non:
        return (None, None)
    vs = {}
    for m in non:
        for v, e in m:
            if e != 1:
                return (None, None)
            vs[v] = vs.get(v, 0) + 1
    if len(vs) > 10:
        return (None, None)
    bs = []
    for v in vs:
        b = box.get(v)
        if b[0] is None or b[1] is None:
            return (None, None)
        bs.append((v, b))
    lin = {}
    clo = chi = 0
    for m, c in p.t.items():
        if not m:
            clo += c
            chi += c
        elif len(m) == 1:
            v, e = m[0]
            if e != 1:
                return (None, None)
            if v in vs:
                lin[v] = c
            else:
                b = box.get(v)
                if b[0] is None or b[1] is None:
                    return (None, None)
                clo += c * (b[0] if c > 0 else b[1])
                chi += c * (b[1] if c > 0 else b[0])
    q = dict(non)
    for v, c in lin.items():
        q[((v, 1),)] = c
    lo = hi = None

    def go(t, bs):
        nonlocal lo, hi
        if not bs or not t or all(not m for m in t):
            x = t.get((), 0)
            lo = x if lo is None or x < lo else lo
            hi = x if hi is None or x > hi else hi
            return
        v, b = bs[0]
        for k in set(b):
            n = {}
            for m, c in t.items():
                if any(w == v for w, _ in m):
                    m = tuple(z for z in m if z[0] != v)
                    c *= k
                n[m] = n.get(m, 0) + c
            go(n, bs[1:])
    go(q, bs)
    return (clo + lo, chi + hi)


def lin_bounds(box, cons, p, depth=5, used=()):
    """Bounds of p using intervals and multiples of the path constraints."""
    p = fix(box, p)
    if isinstance(p, int):
        return (p, p)
    r = naive(p, box)
    r = meet(r, bounds(p))
    r = meet(r, corner(box, p))
    if depth == 0:
        return r
    # eliminate the monomials that contribute most, floors first
    rank = []
    for m, c in p.t.items():
        if not m:
            continue
        b = mono_bounds(m, box)
        z = float("inf") if None in b else abs(c) * (b[1] - b[0])
        fl_ = len(m) == 1 and (m[0][0] in DEF)
        rank.append((z if not fl_ else z * (1 << 16), len(rank), m))
    rank.sort(key=lambda t: (-t[0], t[1]))
    for _, _, bm in rank[:2 if depth >= 4 else 1]:
        c0 = p.t[bm]
        for ci, (q, lo, hi) in enumerate(cons):
            if ci in used or bm not in q.t:
                continue
            if len(q.t) > len(p.t) + 3:
                continue
            f = Fraction(c0, q.t[bm])
            d = f.denominator
            # d*p = (d*f)*q + rest
            n = int(f * d)
            rest = psub(pmul(p, d), pmul(q, n))
            if isinstance(rest, Poly) and len(rest.t) > len(p.t) + 2:
                continue
            rb = lin_bounds(box, cons, rest, depth - 1, used + (ci,))
            x = (None if lo is None else n * lo, None if hi is None else n * hi) if n > 0 else \
                (None if hi is None else n * hi, None if lo is None else n * lo)
            l = None if rb[0] is None or x[0] is None else cdiv(rb[0] + x[0], d)
            h = None if rb[1] is None or x[1] is None else (rb[1] + x[1]) // d
            r = meet(r, (l, h))
    return r


def path_zero(box, d, db, budget):
    """Is polynomial d zero on the path (or the path infeasible)?  d None: is
    the path infeasible?"""
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if d is not None:
        x = fix(box, d)
        if isinstance(x, int) and x == 0:
            return True
    lv = live(box)
    if lv is None:
        return True
    cons, red = lv
    e = None
    if d is not None:
        x = fix(box, d)
        e, den = integral(reduce_by({m: Fraction(c) for m, c in terms(x).items()}, red))
        if isinstance(e, int) and e == 0:
            return True
        # a multiple of M smaller than M in magnitude is zero
        g = 0
        for c in terms(e).values():
            g = gcd(g, c)
        lo, hi = None, None
        if db is not None:
            for y in db if isinstance(db, list) else [db]:
                lo2, hi2 = y[0] * den, y[1] * den
                lo = lo2 if lo is None else max(lo, lo2)
                hi = hi2 if hi is None else min(hi, hi2)
        if lo is None or hi is None or not (-g < lo and hi < g):
            lo, hi = meet((lo, hi), lin_bounds(box, cons, e))
        if lo is not None and hi is not None and -g < lo and hi < g:
            return True
    # contradiction between comparisons
    if contradiction(box, cons, 2):
        return True
    # split on a carry or sign bit
    vs = {}
    for p in [c[0] for c in cons] + ([e] if isinstance(e, Poly) else []):
        for m in p.t:
            for v, _ in m:
                b = box.get(v)
                if b[0] is not None and b[1] is not None and 0 < b[1] - b[0] <= 4:
                    vs[v] = vs.get(v, 0) + 1
    if isinstance(e, Poly):
        for v in pvars(e):
            if v in vs:
                vs[v] += 3
    if not vs:
        cons = tighten(box, cons)
        return cons is None or contradiction(box, cons, 6)
    v = max(sorted(vs), key=lambda k: vs[k])
    lo, hi = box.get(v)
    for k in range(lo, hi + 1):
        bx = box.copy()
        if bx.set(v, k, k) and not path_zero(bx, d, db, budget):
            return False
    return True


def contradiction(box, cons, depth):
    for i, (p, lo, hi) in enumerate(cons):
        if len(p.t) < 2:
            continue
        b = lin_bounds(box, cons, p, depth, (i,))
        if (lo is not None and b[1] is not None and b[1] < lo) or (hi is not None and b[0] is not None and b[0] > hi):
            return True
    return False


SIGNCON = {-1: (None, -1), 0: (0, 0), 1: (1, None)}


def check_paths(node, budget=4000, dbf=None, maxpaths=4000, early=False):
    """node: diagram whose leaves are polynomials that must be zero (or 0/1
    violations: leaf 1 = bad).  Returns list of unproved (constraints, leaf)."""
    bad = []
    count = [0]

    def go(n, box):
        if early and bad:
            return
        if n.a is None:
            v = n.v
            if isinstance(v, int) and v == 0:
                return
            count[0] += 1
            if count[0] > maxpaths:
                raise Unsupported("too many diagram paths")
            d = v if isinstance(v, Poly) else None
            bx = box.copy()
            if bx.need(d) and not path_zero(bx, d, dbf(v) if (dbf and d is not None) else None, [budget]):
                bad.append((list(box.cons), v))
            return
        a = n.a
        if a.kind == "sgn":
            b = bounds(a.key)
            for i, k in enumerate(n.k):
                if k.a is None and isinstance(k.v, int) and k.v == 0:
                    continue
                lo, hi = SIGNCON[i - 1]
                if (i == 0 and b[0] is not None and b[0] >= 0) or (i == 2 and b[1] is not None and b[1] <= 0):
                    continue
                if i == 1 and ((b[0] is not None and b[0] > 0) or (b[1] is not None and b[1] < 0)):
                    continue
                bx = box.copy()
                if bx.add(a.key, lo, hi):
                    go(k, bx)
            return
        for k in n.k:
            go(k, box)

    go(node, Box())
    STAT["paths"] += count[0]
    return bad


STAT = {"paths": 0}

SPECIAL = [0, 1, 2, W64 - 1, W64 - 2, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 31, (1 << 31) - 1, 1 << 32,
           (1 << 32) - 1, W64 - (1 << 31), W64 - (1 << 31) - 1, W64 - (1 << 32), 3, 10, (1 << 62)]


def wsample(rng, ids, t):
    vals = {}
    for v in ids:
        lo, hi = vb(v)
        if lo is None:
            lo, hi = 0, W64 - 1
        m = rng.randint(0, 5)
        if m <= 2:
            x = rng.choice(SPECIAL)
        elif m == 3:
            x = rng.getrandbits(64)
        elif m == 4:
            x = rng.choice((0, W64 - 1))
        else:
            x = rng.choice(SPECIAL[:8])
        vals[v] = min(max(x, lo), hi)
    return vals


def wwitness(bad, assume, rng, tries):
    base = inputs_of(bad, assume)
    for t in range(tries):
        vals = wsample(rng, base, t)
        env = Env(vals, _free_bool(rng))
        try:
            if env.node(assume) == 1:
                r = env.node(bad)
                if r != 0:
                    return {VARS[v].name: hex(vals[v]) for v in base}
        except (ZeroDivisionError, KeyError, OverflowError):
            continue
    return None


def wdecide(bad, assume, rng, tries=20000, dbf=None):
    """bad: diagram, leaf 0 = fine, otherwise wrong (a polynomial must be zero)."""
    n = map2(lambda a, b: leaf(0) if a == 0 else (leaf(1) if b is UNDEF else leaf(b)), assume, bad)
    if n is FALSE:
        return PROVED, None
    w = wwitness(bad, assume, rng, min(tries, 3000))
    if w is not None:
        return REFUTED, w
    left = check_paths(n, dbf=dbf, early=True)
    if not left:
        return PROVED, None
    w = wwitness(bad, assume, rng, tries)
    if w is not None:
        return REFUTED, w
    return UNDECIDED, None


# ---------------------------------------------------------------- big integers in memory
class WSession(Session):
    def big(self, I, st, name, n, cap=None):
        """A canonical-layout BigInt object with n symbolic words."""
        ws = [word("%s%d" % (name, i)) for i in range(n)]
        return self.bigof(I, st, ws, cap, name), ws

    def bigof(self, I, st, ws, cap=None, name=""):
        n = len(ws)
        o = I.new_obj(24, "in", name)
        c = st.wcells(o)
        c[0] = (8, out(ws[0], 64))
        c[8] = (8, leaf(n - 1))
        cap = max(n - 1, cap or 0)
        if cap:
            e = I.new_obj(8 + 8 * cap, "heap", name + ".extra")
            ec = st.wcells(e)
            ec[FREED] = (1, FALSE)
            ec[0] = (8, leaf(cap))
            for i in range(1, n):
                ec[8 * i] = (8, out(ws[i], 64))
            c[16] = (8, leaf(ptr(e, 8)))
        else:
            c[16] = (8, leaf(NULL))
        return leaf(ptr(o, 0))

    def runw(self, fn, *vals, ctx=TRUE, post=None):
        """vals: ('big', name, n) | int | Poly | 'out' (raw storage of one BigInt) | ('buf', bytes) | ('same', k)"""
        import build
        if fn not in self.prog.f:
            raise build.BuildError("entry point %s is missing" % fn)
        I = WordInterp(self.prog, WordIntrinsics(), ctx)
        I.allocs = []
        st = State()
        args, words, objs = [], {}, []
        for v in vals:
            if isinstance(v, tuple) and v[0] == "big":
                p, ws = self.big(I, st, v[1], v[2], v[3] if len(v) > 3 else None)
                words[v[1]] = ws
                args.append(p)
            elif isinstance(v, tuple) and v[0] == "bigof":
                args.append(self.bigof(I, st, v[1], None, "c"))
            elif isinstance(v, tuple) and v[0] == "same":
                args.append(args[v[1]])
            elif v == "out":
                o = I.new_obj(24, "out", "out")
                st.wcells(o)
                args.append(leaf(ptr(o, 0)))
            elif isinstance(v, tuple) and v[0] == "buf":
                o = I.new_obj(v[1], "out", "buf")
                st.wcells(o)
                args.append(leaf(ptr(o, 0)))
            else:
                args.append(leaf(v))
            objs.append(args[-1])
        r = I.call(fn, args, st, TRUE)
        self.stats["entries"] += 1
        self.stats["calls"] += I.calls_seen
        self.stats["steps"] += I.steps
        self.stats["functions"].update(I.visited)
        self.last = I
        if r is None:
            raise Unsupported("%s never returns" % fn)
        ret, st2, g = r
        self.last_state, self.last_guard = st2, g
        self.words, self.args = words, objs
        return ret

    def words_of(self, p):
        """[(count node)], words of the BigInt at pointer p (in the last state):
        diagram with tuple-term leaves."""
        I, st = self.last, self.last_state
        o = p.v
        n = I.load1(st, o.obj, o.off + 8, 8, "i64")
        f = I.load1(st, o.obj, o.off, 8, "i64")
        e = I.load1(st, o.obj, o.off + 16, 8, "ptr")

        def mk2(nv, ev):
            if not isinstance(nv, int) or nv < 0 or nv > 64:
                return UND
            ns = [f]
            for i in range(nv):
                if not isinstance(ev, Ptr) or ev.obj == 0:
                    return UND
                c = st.cells(ev.obj)
                sz = I.objs[ev.obj].size
                if sz is not None and ev.off + 8 * i + 8 > sz:
                    return UND
                ns.append(I.load1(st, ev.obj, ev.off + 8 * i, 8, "i64"))

            def tup(*ws):
                if any(w is UNDEF for w in ws):
                    return UND
                return leaf(term("words", *[U(w, 64) for w in ws]))
            return mapn(tup, ns)
        return map2(mk2, n, e)


def value_of(ws):
    """signed value of a word list"""
    n = len(ws)
    r = 0
    for i, w in enumerate(ws):
        r = padd(r, pmul(w, 1 << (64 * i)))
    r = psub(r, pmul(hbit(ws[-1]), 1 << (64 * n)))
    if isinstance(r, Poly):
        x = (-(1 << (64 * n - 1)), (1 << (64 * n - 1)) - 1)
        REG[r.id] = meet(REG[r.id], x) if r.id in REG else x
        _bmemo.pop(r.id, None)
    return r


def uvalue_of(ws):
    r = 0
    for i, w in enumerate(ws):
        r = padd(r, pmul(w, 1 << (64 * i)))
    return r


def cantrim(lo, hi):
    """the high word is redundant"""
    h = hbit(lo)
    z = AND(cmpd(hi, lambda s: s == 0), cmpd(h, lambda s: s == 0))
    m = AND(cmpd(psub(hi, W64 - 1), lambda s: s == 0), cmpd(h, lambda s: s > 0))
    return OR(z, m)


def canonical(ws):
    """precondition: the top word is needed"""
    return TRUE if len(ws) < 2 else NOT(cantrim(ws[-2], ws[-1]))


def ucanonical(ws):
    return TRUE if len(ws) < 2 else NOT(cmpd(ws[-1], lambda s: s == 0))


def exact(res, sp, sb=None):
    """(diagram that is zero where the words denote the polynomial sp, bounds of
    its leaves): sb are the known bounds of sp."""
    B = {}
    sb = meet(bounds(sp), sb) if sb is not None else bounds(sp)

    def f(w):
        if w is UNDEF:
            return leaf(1)
        v = value_of(w.args)
        d = psub(v, sp)
        if isinstance(d, Poly):
            vb_ = bounds(v)
            x = (vb_[0] - sb[1], vb_[1] - sb[0])
            B.setdefault(d.id, []).append(x)
        return leaf(d)
    n = map1(f, res)
    return n, (lambda d: B.get(d.id))
