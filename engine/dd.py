"""Value domain of the analyser.

Abstract values are hash-consed decision diagrams.  Inner nodes test either the
sign of a normalised integer polynomial (three-valued: negative, zero,
positive) or an opaque boolean; leaves are Python ints, polynomials over the
symbolic inputs, abstract pointers, or opaque terms.  Two expressions that the
program computes in different ways get the same diagram whenever they normalise
to the same polynomial / the same sign conditions, so "computes the same value"
is a pointer comparison (global value numbering with algebraic normal forms).
"""
from fractions import Fraction
from math import gcd
import sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeverReturns(Unsupported):
    pass


# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ("id", "name", "rng", "ev", "info")

    def __init__(self, id_, name, rng, ev, info):
        self.id = id_
        self.name = name
        self.rng = rng      # None or subset of "-0+" as a frozenset of -1,0,1
        self.ev = ev        # None (input) or function(evalfn) -> int
        self.info = info


VARS = []
_var_by_key = {}


def var(name, rng=None, ev=None, info=None):
    """Interned variable -> Poly."""
    v = _var_by_key.get(name)
    if v is None:
        v = Var(len(VARS), name, frozenset(rng) if rng is not None else None,
                ev, info)
        VARS.append(v)
        _var_by_key[name] = v
    return mkpoly({((v.id, 1),): 1})


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "id", "_sgn")

    def __repr__(self):
        return pstr(self)


_polys = {}
MAXTERMS = 60000


def mkpoly(t):
    """dict mono->coef (no zero coefs) -> int or interned Poly."""
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    if len(t) > MAXTERMS:
        raise Unsupported("polynomial too large")
    k = frozenset(t.items())
    p = _polys.get(k)
    if p is None:
        p = Poly()
        p.t = dict(t)
        p.id = len(_polys)
        p._sgn = None
        _polys[k] = p
    return p


def terms(p):
    if isinstance(p, Poly):
        return p.t
    return {(): p} if p else {}


def padd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    ta, tb = terms(a), terms(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    r = dict(ta)
    for m, c in tb.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return mkpoly(r)


def pneg(a):
    if isinstance(a, int):
        return -a
    return mkpoly({m: -c for m, c in a.t.items()})


def psub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if a is b:
        return 0
    return padd(a, pneg(b))


def monomul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        n = d.get(v, 0) + e
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


_pmul_memo = {}


def pmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        return mkpoly({m: c * b for m, c in a.t.items()})
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _pmul_memo.get(k)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > 2000000:
        raise Unsupported("polynomial product too large")
    d = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = monomul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    r = mkpoly({m: c for m, c in d.items() if c})
    _pmul_memo[k] = r
    return r


def ppow(a, n):
    r = 1
    for _ in range(n):
        r = pmul(r, a)
    return r


def pmonoinv(p):
    """Inverse of a single-term polynomial with coefficient +-1, or None."""
    if isinstance(p, int):
        return p if p in (1, -1) else None
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    if c not in (1, -1):
        return None
    return mkpoly({tuple((v, -e) for v, e in m): c})


def pvars(p):
    s = set()
    if isinstance(p, Poly):
        for m in p.t:
            for v, _ in m:
                s.add(v)
    return s


def pstr(p):
    if not isinstance(p, Poly):
        return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        f = "*".join(VARS[v].name + ("^%d" % e if e != 1 else "") for v, e in m)
        if not f:
            s = "%d" % c
        elif c == 1:
            s = f
        elif c == -1:
            s = "-" + f
        else:
            s = "%d*%s" % (c, f)
        out.append(s)
        if len(out) > 40:
            out.append("... (%d terms)" % len(p.t))
            break
    return " + ".join(out).replace("+ -", "- ")


def psubst(p, env):
    """Substitute {varid: poly} in p."""
    if not isinstance(p, Poly):
        return p
    r = 0
    memo = {}
    for m, c in p.t.items():
        t = c
        for v, e in m:
            if v in env:
                if e < 0:
                    inv = pmonoinv(env[v])
                    if inv is None:
                        raise Unsupported("subst negative exponent")
                    f = ppow(inv, -e)
                else:
                    k = (v, e)
                    f = memo.get(k)
                    if f is None:
                        f = memo[k] = ppow(env[v], e)
            else:
                f = mkpoly({((v, e),): 1})
            t = pmul(t, f)
        r = padd(r, t)
    return r


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return tstr(self)


_terms = {}


def term(op, *args):
    k = (op, args)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = len(_terms)
        _terms[k] = t
    return t


def tstr(t):
    if isinstance(t, Term):
        return "%s(%s)" % (t.op, ", ".join(tstr(a) for a in t.args))
    if isinstance(t, Node):
        return dstr(t)
    return str(t)


class Ptr:
    __slots__ = ("obj", "off")

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


_ptrs = {}


def ptr(obj, off=0):
    k = (obj, off)
    p = _ptrs.get(k)
    if p is None:
        p = Ptr()
        p.obj = obj
        p.off = off
        _ptrs[k] = p
    return p


NULL = ptr(0, 0)


class Fn:
    __slots__ = ("name",)

    def __repr__(self):
        return "fn:" + self.name


_fns = {}


def fnval(name):
    f = _fns.get(name)
    if f is None:
        f = Fn()
        f.name = name
        _fns[name] = f
    return f


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Fl:
    """floating constant"""
    __slots__ = ("v",)

    def __repr__(self):
        return "f" + str(self.v)


_fls = {}


def fl(v):
    v = str(v)
    f = _fls.get(v)
    if f is None:
        f = Fl()
        f.v = v
        _fls[v] = f
    return f


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "key", "n", "dom")

    def __repr__(self):
        return astr(self)


ATOMS = []
_atom_by = {}


def atom(kind, key, n, dom=None):
    k = (kind, key)
    a = _atom_by.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.key = key
        a.n = n
        a.dom = dom
        ATOMS.append(a)
        _atom_by[k] = a
    return a


def astr(a):
    if a.kind == "sgn":
        return "sgn[%s]" % pstr(a.key)
    return "%s[%s]" % (a.kind, tstr(a.key) if isinstance(a.key, Term) else a.key)


# ---------------------------------------------------------------- diagrams
class Node:
    __slots__ = ("a", "k", "v", "id")

    def __repr__(self):
        return dstr(self)


_leaf = {}
_node = {}
_ids = [0]


def leaf(v):
    key = v if isinstance(v, int) else (type(v), id(v))
    n = _leaf.get(key)
    if n is None:
        n = Node()
        n.a = None
        n.k = None
        n.v = v
        _ids[0] += 1
        n.id = _ids[0]
        _leaf[key] = n
    return n


TRUE = leaf(1)
FALSE = leaf(0)
ZERO = FALSE
UND = leaf(UNDEF)
MAXNODES = 3000000


def mk(a, kids):
    k0 = kids[0]
    for x in kids:
        if x is not k0:
            break
    else:
        return k0
    key = (a.id,) + tuple(x.id for x in kids)
    n = _node.get(key)
    if n is None:
        if len(_node) > MAXNODES:
            raise Unsupported("diagram too large")
        n = Node()
        n.a = a
        n.k = tuple(kids)
        n.v = None
        _ids[0] += 1
        n.id = _ids[0]
        _node[key] = n
    return n


BIG = 1 << 60


def top(n):
    return n.a.id if n.a is not None else BIG


_case_memo = {}


def case(a, kids):
    """Diagram 'switch on atom a', kids arbitrary."""
    kids = list(kids)
    m = min(top(k) for k in kids)
    if m > a.id:
        return mk(a, kids)
    key = (a.id,) + tuple(k.id for k in kids)
    r = _case_memo.get(key)
    if r is not None:
        return r
    if m == a.id:
        kk = [(k.k[i] if top(k) == a.id else k) for i, k in enumerate(kids)]
        r = mk(a, kk)
    else:
        at = ATOMS[m]
        out = []
        for i in range(at.n):
            out.append(case(a, [(k.k[i] if top(k) == m else k) for k in kids]))
        r = mk(at, out)
    _case_memo[key] = r
    return r


def map1(f, n, memo=None):
    """f: leaf value -> Node."""
    if n.a is None:
        return f(n.v)
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is None:
        r = case(n.a, [map1(f, k, memo) for k in n.k])
        memo[n.id] = r
    return r


def map2(f, a, b, memo=None):
    if a.a is None and b.a is None:
        return f(a.v, b.v)
    if memo is None:
        memo = {}
    key = (a.id, b.id)
    r = memo.get(key)
    if r is None:
        m = min(top(a), top(b))
        at = ATOMS[m]
        r = case(at, [map2(f, a.k[i] if top(a) == m else a,
                           b.k[i] if top(b) == m else b, memo)
                      for i in range(at.n)])
        memo[key] = r
    return r


def mapn(f, args):
    if all(x.a is None for x in args):
        return f(*[x.v for x in args])
    memo = {}

    def go(args):
        if all(x.a is None for x in args):
            return f(*[x.v for x in args])
        key = tuple(x.id for x in args)
        r = memo.get(key)
        if r is None:
            m = min(top(x) for x in args)
            at = ATOMS[m]
            r = case(at, [go([x.k[i] if top(x) == m else x for x in args])
                          for i in range(at.n)])
            memo[key] = r
        return r
    return go(list(args))


_and_memo = {}


def AND(a, b):
    if a is b:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a.a is None or b.a is None:
        raise Unsupported("AND on non-boolean %r %r" % (a.v, b.v))
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _and_memo.get(key)
    if r is None:
        m = min(top(a), top(b))
        at = ATOMS[m]
        r = mk(at, [AND(a.k[i] if top(a) == m else a,
                        b.k[i] if top(b) == m else b) for i in range(at.n)])
        _and_memo[key] = r
    return r


_not_memo = {}


def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.a is None:
        raise Unsupported("NOT on non-boolean %r" % (a.v,))
    r = _not_memo.get(a.id)
    if r is None:
        r = mk(a.a, [NOT(k) for k in a.k])
        _not_memo[a.id] = r
    return r


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


_ite_memo = {}


def ITE(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.a is None:
        raise Unsupported("ITE on non-boolean %r" % (c.v,))
    key = (c.id, a.id, b.id)
    r = _ite_memo.get(key)
    if r is None:
        m = min(top(c), top(a), top(b))
        at = ATOMS[m]
        r = mk(at, [ITE(c.k[i] if top(c) == m else c,
                        a.k[i] if top(a) == m else a,
                        b.k[i] if top(b) == m else b) for i in range(at.n)])
        _ite_memo[key] = r
    return r


def restrict(v, g):
    """Simplify v under guard g (Coudert-Madre style: drop branches where g is
    false).  The result agrees with v wherever g holds."""
    memo = {}

    def go(v, g):
        if g is FALSE:
            return None
        if v.a is None or g is TRUE:
            return v
        key = (v.id, g.id)
        if key in memo:
            return memo[key]
        tv, tg = top(v), top(g)
        if tg < tv:
            # or of the g branches
            h = FALSE
            for k in g.k:
                h = OR(h, k)
            r = go(v, h)
        else:
            at = v.a
            kids = [go(v.k[i], g.k[i] if tg == tv else g) for i in range(at.n)]
            live = [k for k in kids if k is not None]
            if not live:
                r = None
            else:
                first = live[0]
                if all(k is first for k in live):
                    r = first
                else:
                    r = case(at, [k if k is not None else first for k in kids])
        memo[key] = r
        return r
    if v.a is None:
        return v
    r = go(v, g)
    return v if r is None else r


def leaves(n):
    seen = set()
    out = []
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.a is None:
            out.append(x.v)
        else:
            st.extend(x.k)
    return out


def size(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.a is not None:
            st.extend(x.k)
    return len(seen)


def dstr(n, depth=6):
    if n.a is None:
        return str(n.v)
    if depth == 0:
        return "..."
    lab = ("<0", "=0", ">0") if n.a.n == 3 else ("F", "T") if n.a.n == 2 else \
        tuple(str(i) for i in range(n.a.n))
    return "{%s: %s}" % (astr(n.a), "; ".join(
        "%s->%s" % (l, dstr(k, depth - 1)) for l, k in zip(lab, n.k)))


# ---------------------------------------------------------------- signs
def _range_sign(p):
    """Sign decidable from declared variable ranges: -1,0,1, or a set."""
    lo = hi = True   # may be negative / may be positive
    pos = neg = False
    strict = False
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        z = False
        for v, e in m:
            r = VARS[v].rng
            if e % 2 == 0:
                if r is None or 0 in r:
                    z = True
                continue
            if r is None:
                return None
            if r <= {0, 1}:
                pass
            elif r <= {0, -1}:
                s = -s
            else:
                return None
            if 0 in r:
                z = True
        if s > 0:
            pos = True
        else:
            neg = True
        if not z:
            strict = True
    if pos and neg:
        return None
    s = 1 if pos else -1
    return (s,) if strict else (0, s)


class Cell:
    """One sign cell of the input space: every sign the program asks about is
    the one it has at a representative point.  What is derived holds for every
    input that agrees with the representative on the recorded signs."""

    def __init__(self, env):
        self.env = env
        self.asked = {}

    def sign(self, p):
        s = self.asked.get(p)
        if s is None:
            x = self.env.poly(p)
            s = self.asked[p] = (x > 0) - (x < 0)
        return s


CELL = [None]


def sgn_poly(p):
    """Node with leaves -1,0,1: the sign of polynomial p."""
    if isinstance(p, int):
        return leaf((p > 0) - (p < 0))
    if CELL[0] is not None:
        return leaf(CELL[0].sign(p))
    if p._sgn is not None:
        return p._sgn
    # common monomial and content
    ms = list(p.t.keys())
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        nc = {}
        for v in set(common) | set(d):
            e = min(common.get(v, 0), d.get(v, 0))
            if e:
                nc[v] = e
        common = nc
        if not common:
            break
    s = 1
    res = leaf(1)
    inv = tuple(sorted((v, -e) for v, e in common.items()))
    for v, e in sorted(common.items()):
        rng = VARS[v].rng
        if rng is not None and len(rng) == 1:
            (r,) = rng
            f = leaf(r if e % 2 else r * r)
        else:
            a = atom("sgn", mkpoly({((v, 1),): 1}), 3)
            k = [leaf(-1), leaf(0), leaf(1)]
            if rng is not None:
                keep = [x for x in (-1, 0, 1) if x in rng]
                d = leaf(keep[0])
                k = [k[i] if (i - 1) in rng else d for i in range(3)]
            if e % 2 == 0:
                k = [leaf(1), leaf(0), leaf(1)]
                if rng is not None:
                    d = leaf(keep[0] * keep[0])
                    k = [k[i] if (i - 1) in rng else d for i in range(3)]
            f = case(a, k)
        res = map2(lambda x, y: leaf(x * y), res, f)
    rest = {monomul(m, inv): c for m, c in p.t.items()}
    g = 0
    for c in rest.values():
        g = gcd(g, c)
    lead = max(rest)
    if rest[lead] < 0:
        g = -g
        s = -1
    q = mkpoly({m: c // g for m, c in rest.items()})
    if isinstance(q, int):
        f = leaf(1 if q > 0 else -1)
    else:
        rs = _range_sign(q)
        if rs is not None and len(rs) == 1:
            f = leaf(rs[0])
        else:
            a = atom("sgn", q, 3)
            k = [leaf(-1), leaf(0), leaf(1)]
            if rs is not None:
                k = [k[i] if (i - 1) in rs else leaf(0) for i in range(3)]
            f = case(a, k)
    res = map2(lambda x, y: leaf(x * y * s), res, f)
    p._sgn = res
    return res


def boolatom(key):
    a = atom("b", key, 2)
    return mk(a, [FALSE, TRUE])


# ---------------------------------------------------------------- concrete evaluation of formulas
class Env:
    """Assignment of integers to input variables, extended to opaque ones."""

    def __init__(self, vals, chooser=None):
        self.vals = dict(vals)      # varid -> number
        self.memo = {}
        self.chooser = chooser
        self.bmemo = {}

    def var(self, v):
        r = self.vals.get(v)
        if r is None:
            d = VARS[v]
            if d.ev is not None:
                r = d.ev(self)
            elif self.chooser is not None:
                r = self.chooser(d)
            else:
                raise KeyError(d.name)
            self.vals[v] = r
        return r

    def poly(self, p):
        if not isinstance(p, Poly):
            return p
        r = 0
        for m, c in p.t.items():
            t = c
            for v, e in m:
                x = self.var(v)
                if e < 0:
                    t = Fraction(t) / Fraction(x) ** (-e)
                else:
                    t = t * x ** e
            r += t
        if isinstance(r, Fraction) and r.denominator == 1:
            r = int(r)
        return r

    def leafval(self, v):
        if isinstance(v, (int, Poly)):
            return self.poly(v)
        if isinstance(v, Term):
            return (v.op,) + tuple(self.node(a) if isinstance(a, Node)
                                   else self.leafval(a) for a in v.args)
        return v

    def atomval(self, a):
        if a.kind == "sgn":
            x = self.poly(a.key)
            return 1 + (x > 0) - (x < 0)
        # opaque boolean: a deterministic function of the evaluated key
        k = self.leafval(a.key) if isinstance(a.key, Term) else a.key
        r = self.bmemo.get((a.kind, k))
        if r is None:
            r = self.chooser_bool(a, k)
            self.bmemo[(a.kind, k)] = r
        return r

    def chooser_bool(self, a, k):
        if self.chooser is None:
            raise KeyError(repr(a))
        return self.chooser(a) % a.n

    def node(self, n):
        while n.a is not None:
            n = n.k[self.atomval(n.a)]
        return self.leafval(n.v)


def support(n):
    """Input variables a diagram depends on."""
    out = set()
    seen = set()
    tseen = set()

    def term_vars(t):
        if isinstance(t, Poly):
            out.update(pvars(t))
        elif isinstance(t, Term):
            if t.id in tseen:
                return
            tseen.add(t.id)
            for a in t.args:
                term_vars(a)
        elif isinstance(t, Node):
            go(t)

    def go(n):
        st = [n]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.a is None:
                term_vars(x.v)
            else:
                term_vars(x.a.key)
                st.extend(x.k)
    go(n)
    return out
