"""Running the abstract interpreter on driver entry points."""
import random
import build
from dd import *
from interp import *
from intrin import *


class Out:
    def __init__(self, n, kind="big"):
        self.n = n
        self.kind = kind


class In:
    """An array of big integers, or of native integers of `size` bytes."""
    def __init__(self, vals, size=None):
        self.vals = list(vals)
        self.size = size


class Session:
    def __init__(self, drivers, **kw):
        self.path = build.program_json(drivers, **kw)
        self.prog = load_program(self.path)
        self.stats = {"functions": set(), "calls": 0, "steps": 0, "entries": 0}

    def sig(self, fn):
        return self.prog.f[fn]["args"]

    def run(self, fn, *vals, ctx=TRUE, setup=None, intr=None):
        """Interpret entry point `fn`.  Polys are passed as big integers by
        reference, ints as native values, Out(n) as result buffers."""
        if fn not in self.prog.f:
            raise build.BuildError("entry point %s is missing" % fn)
        I = Interp(self.prog, intr or Intrinsics(), ctx)
        st = State()
        args = []
        outs = []
        sig = self.prog.f[fn]["args"]
        if len(sig) != len(vals):
            raise build.BuildError("entry point %s: %d arguments expected" % (fn, len(sig)))
        for (aid, ty, _, name), v in zip(sig, vals):
            if isinstance(v, Out):
                o = I.new_obj(0, "out", name)
                st.wcells(o)
                if v.kind == "big":
                    for k in range(v.n):
                        st.wcells(o)[k * BIGINT_SIZE] = ("big", ZERO)
                outs.append((o, v))
                args.append(leaf(ptr(o, 0)))
            elif isinstance(v, Node):
                args.append(v)
            elif isinstance(v, In):
                z = v.size or BIGINT_SIZE
                o = I.new_obj(z * len(v.vals), "in", name)
                for k, x in enumerate(v.vals):
                    st.wcells(o)[k * z] = (v.size or "big", leaf(x))
                args.append(leaf(ptr(o, 0)))
            elif ty == "ptr":
                o = I.new_obj(BIGINT_SIZE, "in", name)
                st.wcells(o)[0] = ("big", leaf(v))
                args.append(leaf(ptr(o, 0)))
            elif isinstance(v, (int, Poly)):
                args.append(leaf(v))
            else:
                args.append(leaf(v))
        if setup:
            setup(I, st, args)
        r = I.call(fn, args, st, TRUE)
        self.stats["entries"] += 1
        self.stats["calls"] += I.calls_seen
        self.stats["steps"] += I.steps
        for f in I.visited:
            self.stats["functions"].add(f)
        I.result = r
        if r is None:
            self.last = I
            w = [n[1] for n in I.notes if n[0] == "noreturn"]
            raise NeverReturns("%s never returns%s" % (fn, ": an assertion fails or the program stops at %s" % (w[0],) if w else ""))
        ret, st2, g = r
        res = []
        for o, v in outs:
            c = st2.cells(o)
            if v.kind == "big":
                res.append([c[k * BIGINT_SIZE][1] for k in range(v.n)])
            else:
                z = {"double": 8, "i32": 4, "i64": 8, "ptr": 8, "i8": 1}[v.kind]
                res.append([I.load1(st2, o, k * z, z, v.kind) for k in range(v.n)])
        self.last = I
        self.last_args = args
        self.last_state = st2
        self.last_guard = g
        if ret is not None and self.prog.f[fn]["ret"] == "i1":
            ret = map1(lambda v: leaf(v) if not isinstance(v, int) else (TRUE if v else FALSE), ret)
        if ret is None:
            return res[0] if len(res) == 1 else res
        return ret if not res else (ret, res)


def V(*names):
    r = tuple(var(n) for n in names)
    return r if len(r) > 1 else r[0]


def vid(p):
    (m, c), = p.t.items()
    return m[0][0]


def S(p):
    """sign of a polynomial"""
    return sgn_poly(p)


def EQ0(p):
    return map1(lambda s: TRUE if s == 0 else FALSE, sgn_poly(p))


def LT0(p):
    return map1(lambda s: TRUE if s < 0 else FALSE, sgn_poly(p))


def GT0(p):
    return map1(lambda s: TRUE if s > 0 else FALSE, sgn_poly(p))


def NE0(p):
    return NOT(EQ0(p))


def mulsign(a, b):
    return map2(lambda x, y: leaf(x * y), a, b)


def dot(u, v):
    r = 0
    for a, b in zip(u, v):
        r = padd(r, pmul(a, b))
    return r


def cross(u, v):
    return (psub(pmul(u[1], v[2]), pmul(u[2], v[1])),
            psub(pmul(u[2], v[0]), pmul(u[0], v[2])),
            psub(pmul(u[0], v[1]), pmul(u[1], v[0])))


def scale(u, s):
    return tuple(pmul(x, s) for x in u)


def vsub(u, v):
    return tuple(psub(x, y) for x, y in zip(u, v))


def vadd(u, v):
    return tuple(padd(x, y) for x, y in zip(u, v))


# ---------------------------------------------------------------- decisions
PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"

# Unknowns about which the analysis may assume any value: the sign of a common
# divisor and the value left behind by a move are unspecified by their
# interfaces.  Every other opaque quantity blocks a refutation.
FREE_OPAQUE = ("moved#",)
FREE_BOOL = ("gcdneg",)


def sample_env(rng, ids, mode):
    vals = {}
    for v in ids:
        d = VARS[v]
        if d.ev is not None:
            continue
        if mode == 0:
            x = rng.choice((-1, 0, 1))
        elif mode == 1:
            x = rng.choice((-2, -1, 0, 1, 2))
        elif mode == 2:
            x = rng.randint(-5, 5)
        elif mode == 3:
            x = rng.choice((0, 0, 0, 1, -1))
        elif mode == 4:
            x = rng.randint(-60, 60)
        elif mode == 5:
            x = rng.choice((1, -1))
        else:
            x = rng.choice((-(1 << 33), -1, 0, 1, 1 << 33, 7, -7))
        if d.rng is not None:
            if x == 0 and 0 not in d.rng:
                x = 1
            if x < 0 and -1 not in d.rng:
                x = -x
            if x > 0 and 1 not in d.rng:
                x = -x
            if x == 0 and 0 not in d.rng:
                x = -1
        vals[v] = x
    return vals


def _free_bool(rng):
    def ch(d):
        # a Var (arbitrary moved-from value), an Atom or a Term
        if isinstance(d, Var):
            if d.name.startswith(FREE_OPAQUE):
                return rng.randint(-3, 3)
            raise KeyError(d.name)
        k = d.key if hasattr(d, "key") else d
        if isinstance(k, Term) and k.op in FREE_BOOL:
            return rng.randint(0, 1)
        raise KeyError(repr(d))
    return ch


def inputs_of(*nodes):
    ids = set()
    for n in nodes:
        ids |= set(support(n))
    base = set()
    st = list(ids)
    while st:
        v = st.pop()
        if v in base:
            continue
        base.add(v)
        info = VARS[v].info
        if isinstance(info, Term):
            for a in info.args:
                if isinstance(a, Node):
                    st.extend(support(a))
                elif isinstance(a, Poly):
                    st.extend(pvars(a))
                elif isinstance(a, Term):
                    st.extend(support(leaf(a)))
        elif isinstance(info, tuple) and info[0] == "gcd":
            for a in info[1]:
                st.extend(pvars(a))
    return sorted(v for v in base if VARS[v].ev is None and VARS[v].info != "opaque")


def witness(bad, assume, rng, tries=4000, groups=(), sampler=None):
    """Search an integer assignment on which `assume` holds and `bad` holds.
    Both are formulas derived by the analysis; nothing of the program runs."""
    base = inputs_of(bad, assume)
    byname = {VARS[v].name: v for v in base}
    blocked = None
    for t in range(tries):
        vals = sample_env(rng, base, t % 7)
        if groups and t % 2:
            # make the second group a multiple of the first
            for gs in groups:
                k = rng.choice((1, -1, 2, -2, 3, 1, -1, 0))
                k0 = rng.choice((1, 1, 2, -1))
                for other in gs[1:]:
                    for x, y in zip(gs[0], other):
                        if x in byname and y in byname:
                            b = vals[byname[x]]
                            vals[byname[x]] = b * k0
                            vals[byname[y]] = b * k
                    if rng.random() < 0.3 and other[-1] in byname:
                        vals[byname[other[-1]]] += rng.choice((-1, 1))
        if sampler:
            for n, x in sampler(rng, {VARS[v].name: vals[v] for v in vals}).items():
                if n in byname:
                    vals[byname[n]] = x
        env = Env(vals, _free_bool(rng))
        try:
            if env.node(assume) == 1 and env.node(bad) == 1:
                return {VARS[v].name: vals[v] for v in vals}
        except (ZeroDivisionError, KeyError, OverflowError):
            continue
    return None


def differs(a, b):
    """Boolean diagram: a != b, for leaves ints / polynomials / terms."""
    if not isinstance(a, Node):
        a = leaf(a)
    if not isinstance(b, Node):
        b = leaf(b)

    def f(x, y):
        if x is y:
            return FALSE
        if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)):
            return NE0(psub(x, y))
        if x is UNDEF or y is UNDEF:
            return TRUE
        if isinstance(x, Term) and isinstance(y, Term):
            if x.op == y.op and len(x.args) == len(y.args):
                r = FALSE
                for p, q in zip(x.args, y.args):
                    if isinstance(p, Node):
                        r = OR(r, differs(p, q))
                    else:
                        r = OR(r, f(p, q))
                return r
            return boolatom(term("termne", x, y))
        if isinstance(x, Term) or isinstance(y, Term):
            return boolatom(term("termne", x, y))
        return TRUE
    return map2(f, a, b)


def differs_any(xs, ys):
    r = FALSE
    for x, y in zip(xs, ys):
        r = OR(r, differs(x, y))
    return r


def N(x):
    return x if isinstance(x, Node) else leaf(x)


def _num(f):
    def g(x, y):
        if x is UNDEF or y is UNDEF:
            return UND
        if not isinstance(x, (int, Poly)) or not isinstance(y, (int, Poly)):
            raise Unsupported("arithmetic on %r" % (x,))
        return leaf(f(x, y))
    return lambda a, b: map2(g, N(a), N(b))


nadd, nsub, nmul = _num(padd), _num(psub), _num(pmul)


def nsgn(n):
    """sign of a numeric diagram"""
    return map1(lambda v: UND if v is UNDEF else sgn_poly(v), N(n))


def zero(n):
    return map1(lambda v: TRUE if v is UNDEF else EQ0(v), N(n))


def nonzero(n):
    return map1(lambda v: TRUE if v is UNDEF else NE0(v), N(n))


def ndot(u, v):
    r = ZERO
    for a, b in zip(u, v):
        r = nadd(r, nmul(a, b))
    return r


def not_parallel(u, v):
    """u and v are not linearly dependent (some 2x2 minor is nonzero)."""
    r = FALSE
    for i in range(len(u)):
        for j in range(i):
            r = OR(r, nonzero(nsub(nmul(u[i], v[j]), nmul(u[j], v[i]))))
    return r


def not_pos_multiple(u, v):
    """u is not a positive multiple of v (both zero counts as a multiple)."""
    r = not_parallel(u, v)
    for a, b in zip(u, v):
        r = OR(r, differs(nsgn(a), nsgn(b)))
    return r


def not_same_point(u, v):
    """homogeneous tuples (last entry = denominator) denote different points"""
    r = FALSE
    for a, b in zip(u[:-1], v[:-1]):
        r = OR(r, nonzero(nsub(nmul(a, v[-1]), nmul(b, u[-1]))))
    return OR(r, differs(zero(u[-1]), zero(v[-1])))


def sgn_atoms(n):
    out = set()
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.a is not None:
            if x.a.kind == "sgn":
                out.add(x.a.key)
            st.extend(x.k)
    return out


def _eqs(a, b):
    return map2(lambda p, q: TRUE if p == q else FALSE, a, b)


def lemmas(n, maxterms=6):
    """n conjoined with true facts that relate its sign tests: a variable that
    is zero drops out of a sum, and a sum whose terms agree in sign has that
    sign."""
    r = TRUE
    atoms = sorted(sgn_atoms(n), key=lambda p: p.id)
    single = set(v for p in atoms if len(p.t) == 1 for v in pvars(p))
    todo = [p for p in atoms if 1 < len(p.t) <= maxterms]
    done = set(todo)
    while todo:
        p = todo.pop()
        for v in sorted(pvars(p) & single):
            if any(e < 0 for m in p.t for w, e in m if w == v):
                continue
            x = mkpoly({((v, 1),): 1})
            q = mkpoly({m: c for m, c in p.t.items() if all(w != v for w, _ in m)})
            r = AND(r, OR(NE0(x), _eqs(S(p), S(q))))
            if isinstance(q, Poly) and 1 < len(q.t) and q not in done:
                done.add(q)
                todo.append(q)
        ge = le = TRUE
        gt = lt = FALSE
        for m, c in p.t.items():
            sm = S(mkpoly({m: c}))
            ge = AND(ge, map1(lambda v: TRUE if v >= 0 else FALSE, sm))
            le = AND(le, map1(lambda v: TRUE if v <= 0 else FALSE, sm))
            gt = OR(gt, map1(lambda v: TRUE if v > 0 else FALSE, sm))
            lt = OR(lt, map1(lambda v: TRUE if v < 0 else FALSE, sm))
        r = AND(r, OR(NOT(AND(ge, gt)), GT0(p)))
        r = AND(r, OR(NOT(AND(le, lt)), LT0(p)))
        n = AND(n, r)
        if n is FALSE:
            return FALSE
        r = TRUE
    return n


def decide(bad, assume, rng, tries=4000, groups=(), sampler=None):
    """bad must be false wherever assume holds."""
    b = AND(assume, bad)
    if b is FALSE:
        return PROVED, None
    w = witness(bad, assume, rng, tries, groups, sampler)
    if w is not None:
        return REFUTED, w
    if lemmas(b) is FALSE:
        return PROVED, None
    return UNDECIDED, None


# ---------------------------------------------------------------- spec helpers
def allzero(u):
    r = TRUE
    for x in u:
        r = AND(r, EQ0(x))
    return r


def same_ray(u, v, order, signed=True):
    """Spec: v is a (positive) multiple of u, written with the first nonzero
    component of u (in `order`) as pivot.  Meaningful for nonzero u and v."""
    out = None
    for i in reversed(order):
        eq = TRUE
        for x, y in zip(u, v):
            eq = AND(eq, EQ0(psub(pmul(x, v[i]), pmul(y, u[i]))))
        if signed:
            eq = AND(eq, AND(map2(lambda p, q: TRUE if p == q else FALSE, S(u[i]), S(v[i])), TRUE))
        out = eq if out is None else ITE(NE0(u[i]), eq, out)
    return out


def lex_less(signs):
    """first nonzero sign decides; negative means less"""
    r = FALSE
    for s in reversed(signs):
        r = map2(lambda v, t: TRUE if v < 0 else FALSE if v > 0 else (TRUE if t == 1 else FALSE), s, r)
    return r


def cmp_frac(x, w, a, d):
    """sign of x/w - a/d"""
    return mulsign(S(psub(pmul(x, d), pmul(a, w))), S(pmul(w, d)))
