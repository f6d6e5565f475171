"""Models of the calls that the analysis does not look into: the arbitrary
precision integer operations (whose own exactness is decided separately),
allocation, and a few runtime functions."""
import re
from dd import *
from interp import *


def sgn(n):
    return map1(lambda v: UND if v is UNDEF else sgn_poly(v), n)


def num(f):
    def g(*vs):
        for v in vs:
            if v is UNDEF:
                return UND
            if not isinstance(v, (int, Poly)):
                raise Unsupported("big integer arithmetic on %s" % (v,))
        return leaf(f(*vs))
    return g


def lift(f, *ns):
    return mapn(num(f), list(ns))


def ADD(a, b):
    return map2(num(padd), a, b)


def SUB(a, b):
    return map2(num(psub), a, b)


def MUL(a, b):
    return map2(num(pmul), a, b)


def NEG(a):
    return map1(num(pneg), a)


def truncdiv(a, b):
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def _divq(a, b):
    """Truncated quotient."""
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise Unsupported("division by zero")
        return truncdiv(a, b)
    if isinstance(b, int) and b in (1, -1):
        return pmul(a, b)
    # exact division by a declared common divisor
    if isinstance(b, Poly) and len(b.t) == 1:
        (m, c), = b.t.items()
        if len(m) == 1 and c in (1, -1) and m[0][1] == 1:
            v = VARS[m[0][0]]
            if isinstance(v.info, tuple) and v.info[0] == "gcd" and all(
                    divides(v, x) for x in [a]):
                return pmul(a, pmonoinv(b))
    t = term("div", a, b)
    return var("<%s>" % tstr(t), None,
               lambda e: truncdiv(e.poly(a), e.poly(b)), t)


def divides(v, a):
    if isinstance(a, int):
        return a == 0
    return any(a is x for x in v.info[1])


def pyabs(n):
    s = sgn(n)
    return map2(lambda v, x: UND if v is UNDEF or x is UNDEF else leaf(pneg(v) if x < 0 else v), n, s)


def signword(p):
    """Leaf-wise model of a word that has the sign of p (p's top word)."""
    def f(v):
        if v is UNDEF:
            return UND
        if isinstance(v, int):
            return leaf(v)
        def one(s):
            if s == 0:
                return ZERO
            t = term("top+" if s > 0 else "top-", v)
            if s > 0:
                u = var("<%s>" % tstr(t), (0, 1), lambda e: abs(topword(e.poly(v)) - 1), t)
                return leaf(padd(1, u))
            u = var("<%s>" % tstr(t), (0, 1), lambda e: abs(-1 - topword(e.poly(v))), t)
            return leaf(psub(-1, u))
        return map1(one, sgn_poly(v))
    return map1(f, p)


def topword(v):
    n = 1
    while not -(1 << (64 * n - 1)) <= v < (1 << (64 * n - 1)):
        n += 1
    w = v >> (64 * (n - 1))
    return w | (n - 1)


def gcdvar(polys):
    """Positive common divisor of the (non-opaque) arguments."""
    ps = []
    for p in polys:
        if isinstance(p, int):
            if p:
                return None
            continue
        ps.append(p)
    ps = sorted(set(ps), key=lambda p: p.id)
    names = ",".join(tstr(p) for p in ps)
    from math import gcd as g

    def ev(e):
        r = 0
        for p in ps:
            r = g(r, abs(e.poly(p)))
        return r or 1
    return var("<gcd(%s)>" % names, (1,), ev, ("gcd", tuple(ps)))


class Intrinsics:
    def __init__(self):
        self.n = {}
        self.used = {}

    def lookup(self, name, f):
        dem = f["dem"] if f else None
        h = EXT.get(name)
        if h is not None:
            return h
        if name.startswith("llvm."):
            return llvm_intrinsic(name)
        if dem is None:
            import subprocess
            return None
        m = re.match(r"walnut::BigInt::([^(]*|operator\(\))\((.*)\)( const)?$", dem)
        m2 = re.match(r"walnut::BigInt::(operator[^\w\s(]+|operator double|operator long double|~?\w+)\((.*)\)( const)?$", dem)
        if m2:
            h = BIG.get(m2.group(1))
            if h is not None:
                return self.wrap(h, dem, m2.group(2), f)
        m3 = re.match(r"walnut::BigInt::BigInt<.*>\((.*)\)$", dem)
        if m3:
            return self.wrap(BIG["BigInt"], dem, m3.group(1), f)
        if dem == "walnut::operator*(int, walnut::BigInt const&)":
            return self.wrap(b_free_mul, dem, "", f)
        return None

    def wrap(self, h, dem, params, f):
        def g(I, st, args, guard, inst):
            self.used[dem] = self.used.get(dem, 0) + 1
            return h(I, st, args, guard, params, f)
        return g


# ---------------------------------------------------------------- BigInt
def parg(I, st, v, ty, guard):
    """value of a parameter: big by reference, or a native integer."""
    if ty.strip().startswith("walnut::BigInt"):
        return I.getbig(st, v, guard)
    return v


def ptypes(params):
    out, depth, cur = [], 0, ""
    for ch in params:
        if ch in "<(":
            depth += 1
        if ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def sret(f):
    return bool(f["args"]) and bool(f["args"][0][2])


def b_ctor(I, st, a, g, params, f):
    pt = ptypes(params)
    if not pt:
        I.setbig(st, a[0], ZERO, g)
        return None
    if pt[0] == "walnut::BigInt&&":
        v = I.getbig(st, a[1], g)
        I.setbig(st, a[0], v, g)
        moved(I, st, a[1], a[0], g)
        return None
    if pt[0].startswith("walnut::BigInt"):
        I.setbig(st, a[0], I.getbig(st, a[1], g), g)
        return None
    if pt[0].startswith("walnut::"):
        raise Unsupported("BigInt from " + pt[0])
    I.setbig(st, a[0], a[1], g)
    return None


def moved(I, st, src, dst, g):
    if src is dst:
        return
    I.setbig(st, src, I.opaque("moved"), g)


def b_assign(I, st, a, g, params, f):
    pt = ptypes(params)
    if pt[0] == "walnut::BigInt&&":
        v = I.getbig(st, a[1], g)
        I.setbig(st, a[0], v, g)
        moved(I, st, a[1], a[0], g)
    elif pt[0].startswith("walnut::BigInt&") or pt[0].startswith("walnut::BigInt const&"):
        I.setbig(st, a[0], I.getbig(st, a[1], g), g)
    elif pt[0].startswith("walnut::"):
        raise Unsupported("BigInt = " + pt[0])
    else:
        I.setbig(st, a[0], a[1], g)
    return a[0]


def binop(fn):
    def h(I, st, a, g, params, f):
        pt = ptypes(params)
        if sret(f):
            out, this, o = a[0], a[1], a[2] if len(a) > 2 else None
        else:
            raise Unsupported("expected sret")
        x = I.getbig(st, this, g)
        y = parg(I, st, o, pt[0], g)
        I.setbig(st, out, fn(x, y), g)
        return None
    return h


def b_minus(I, st, a, g, params, f):
    if not params:
        I.setbig(st, a[0], NEG(I.getbig(st, a[1], g)), g)
        return None
    return binop(SUB)(I, st, a, g, params, f)


def compound(fn):
    def h(I, st, a, g, params, f):
        pt = ptypes(params)
        x = I.getbig(st, a[0], g)
        y = parg(I, st, a[1], pt[0], g)
        I.setbig(st, a[0], fn(x, y), g)
        return a[0]
    return h


def incdec(d):
    def h(I, st, a, g, params, f):
        I.setbig(st, a[0], ADD(I.getbig(st, a[0], g), leaf(d)), g)
        return a[0]
    return h


def muladd(s):
    def h(I, st, a, g, params, f):
        x, y, z = [I.getbig(st, v, g) for v in a[:3]]
        I.setbig(st, a[0], lift(lambda p, q, r: padd(p, pmul(pmul(q, r), s)), x, y, z), g)
        return a[0]
    return h


def cmpop(pred):
    def h(I, st, a, g, params, f):
        pt = ptypes(params)
        x = I.getbig(st, a[0], g)
        y = parg(I, st, a[1], pt[0], g)
        return map1(lambda s: UND if s is UNDEF else leaf(int(pred(s))), sgn(SUB(x, y)))
    return h


def b_compare(I, st, a, g, params, f):
    x, y = I.getbig(st, a[0], g), I.getbig(st, a[1], g)
    return sgn(SUB(x, y))


def b_lessthan(I, st, a, g, params, f):
    fl_ = I.tobool(a[1], g)
    s = sgn(SUB(I.getbig(st, a[0], g), I.getbig(st, a[2], g)))
    return map2(lambda c, v: UND if v is UNDEF else leaf(int(v > 0 if c else v < 0)), fl_, s)


def b_getsign(I, st, a, g, params, f):
    return signword(I.getbig(st, a[0], g))


def b_iszero(I, st, a, g, params, f):
    return map1(lambda v: UND if v is UNDEF else leaf(int(v == 0)), sgn(I.getbig(st, a[0], g)))


def b_isneg(I, st, a, g, params, f):
    return map1(lambda v: UND if v is UNDEF else leaf(int(v < 0)), sgn(I.getbig(st, a[0], g)))


def b_absmult(I, st, a, g, params, f):
    s = sgn(I.getbig(st, a[0], g))
    r = map1(lambda v: UND if v is UNDEF else leaf(-1 if v < 0 else 1), s)
    if len(a) > 1:
        s2 = sgn(I.getbig(st, a[1], g))
        r = map2(lambda v, w: UND if v is UNDEF or w is UNDEF else leaf(v * (-1 if w < 0 else 1)), r, s2)
    return r


def b_samesign(same):
    def h(I, st, a, g, params, f):
        x, y = sgn(I.getbig(st, a[0], g)), sgn(I.getbig(st, a[1], g))
        return map2(lambda v, w: UND if v is UNDEF or w is UNDEF else
                    leaf(int(((v < 0) == (w < 0)) == same)), x, y)
    return h


def b_signext(I, st, a, g, params, f):
    return map1(lambda v: UND if v is UNDEF else leaf(-1 if v < 0 else 0), sgn(I.getbig(st, a[0], g)))


def b_negate(I, st, a, g, params, f):
    I.setbig(st, a[0], NEG(I.getbig(st, a[0], g)), g)


def b_abs(I, st, a, g, params, f):
    I.setbig(st, a[0], pyabs(I.getbig(st, a[1], g)), g)


def b_getabs(I, st, a, g, params, f):
    v = I.getbig(st, a[1], g)
    I.store(st, a[2], 1, map1(lambda s: UND if s is UNDEF else leaf(int(s < 0)), sgn(v)), g)
    I.setbig(st, a[0], pyabs(v), g)


def b_shl(I, st, a, g, params, f):
    v = I.getbig(st, a[1], g)

    def sh(x, n):
        if x is UNDEF or n is UNDEF:
            return UND
        if isinstance(n, int):
            if n < 0 or n > 4096:
                return UND
            return leaf(pmul(x, 1 << n))
        t = term("pow2", n)
        p = var("<%s>" % tstr(t), (1,), lambda e: 1 << max(0, min(e.leafval(n), 4096)), t)
        return leaf(pmul(x, p))
    I.setbig(st, a[0], map2(sh, v, a[2]), g)


def b_div(I, st, a, g, params, f):
    pt = ptypes(params)
    x, y = I.getbig(st, a[1], g), parg(I, st, a[2], pt[0], g)
    I.setbig(st, a[0], lift(_divq, x, y), g)


def b_diveq(I, st, a, g, params, f):
    pt = ptypes(params)
    x, y = I.getbig(st, a[0], g), parg(I, st, a[1], pt[0], g)
    I.setbig(st, a[0], lift(_divq, x, y), g)
    return a[0]


def b_mod(I, st, a, g, params, f):
    pt = ptypes(params)
    x, y = I.getbig(st, a[1], g), parg(I, st, a[2], pt[0], g)
    I.setbig(st, a[0], lift(lambda p, q: psub(p, pmul(_divq(p, q), q)), x, y), g)


def b_divrem(I, st, a, g, params, f):
    x, y = I.getbig(st, a[1], g), I.getbig(st, a[2], g)
    q = lift(_divq, x, y)
    I.setbig(st, a[3], SUB(x, MUL(q, y)), g)
    I.setbig(st, a[0], q, g)


def b_gcd(I, st, a, g, params, f):
    x, y = I.getbig(st, a[1], g), I.getbig(st, a[2], g)

    def gc(p, q):
        if isinstance(p, int) and isinstance(q, int):
            while q:
                p, q = q, (abs(p) % abs(q)) * (1 if p > 0 else -1)
            return leaf(p)
        # The sign of the result is not specified: +-gcd.
        base = []
        for z in (p, q):
            if isinstance(z, Poly) and len(z.t) == 1:
                (m, c), = z.t.items()
                if len(m) == 2:
                    m1 = [mm for mm in m if isinstance(VARS[mm[0]].info, tuple) and VARS[mm[0]].info[0] == "gcdsign"]
                    m2 = [mm for mm in m if isinstance(VARS[mm[0]].info, tuple) and VARS[mm[0]].info[0] == "gcd"]
                    if m1 and m2:
                        base.extend(VARS[m2[0][0]].info[1])
                        continue
                if len(m) == 1 and isinstance(VARS[m[0][0]].info, tuple) and VARS[m[0][0]].info[0] == "gcd":
                    base.extend(VARS[m[0][0]].info[1])
                    continue
            base.append(z)
        gv = gcdvar(base)
        if gv is None:
            raise Unsupported("gcd with a constant")
        t = term("gcdneg", gv)
        at = boolatom(t)
        return map1(lambda b: leaf(pneg(gv)) if b else leaf(gv), at)
    I.setbig(st, a[0], map2(lambda p, q: UND if p is UNDEF or q is UNDEF else gc(p, q), x, y), g)


def b_det(I, st, a, g, params, f):
    v = [I.getbig(st, x, g) for x in a[1:5]]
    I.setbig(st, a[0], lift(lambda p, q, r, s: psub(pmul(p, s), pmul(r, q)), *v), g)


def b_todouble(I, st, a, g, params, f):
    return map1(lambda v: UND if v is UNDEF else leaf(term("tofp", v)), I.getbig(st, a[0], g))


def b_nop(I, st, a, g, params, f):
    return None


def b_hash(I, st, a, g, params, f):
    def of(v):
        if v is UNDEF:
            return UND
        if isinstance(v, int):
            n = (v if v >= 0 else ~v).bit_length() // 64 + 1
            h = 0
            for i in range(n):
                h ^= v >> 64 * i & (1 << 64) - 1
            return leaf((h + n) % (1 << 64))
        return leaf(I.opq("hash", v))
    return map1(of, I.getbig(st, a[0], g))


def b_free_mul(I, st, a, g, params, f):
    I.setbig(st, a[0], MUL(a[1], I.getbig(st, a[2], g)), g)


def b_toint(I, st, a, g, params, f):
    return I.getbig(st, a[0], g)


BIG = {
    "BigInt": b_ctor, "~BigInt": b_nop, "operator=": b_assign,
    "operator+": binop(ADD), "Add": binop(ADD),
    "operator-": b_minus, "Subtract": binop(SUB),
    "operator*": binop(MUL), "Multiply": binop(MUL),
    "operator+=": compound(ADD), "operator-=": compound(SUB),
    "operator*=": compound(MUL), "operator++": incdec(1), "operator--": incdec(-1),
    "AddMultiply": muladd(1), "SubtractMultiply": muladd(-1),
    "Compare": b_compare, "LessThan": b_lessthan,
    "operator<": cmpop(lambda s: s < 0), "operator<=": cmpop(lambda s: s <= 0),
    "operator>": cmpop(lambda s: s > 0), "operator>=": cmpop(lambda s: s >= 0),
    "operator==": cmpop(lambda s: s == 0), "operator!=": cmpop(lambda s: s != 0),
    "GetSign": b_getsign, "IsZero": b_iszero, "IsNegative": b_isneg,
    "GetAbsMult": b_absmult, "HasSameSign": b_samesign(True),
    "HasDifferentSign": b_samesign(False), "SignExtension": b_signext,
    "Negate": b_negate, "abs": b_abs, "GetAbs": b_getabs,
    "operator<<": b_shl, "operator/": b_div, "operator/=": b_diveq,
    "operator%": b_mod, "DivideRemainder": b_divrem,
    "GetGreatestCommonDivisor": b_gcd, "Determinant": b_det,
    "operator double": b_todouble, "operator long double": b_todouble,
    "GetHash": b_hash, "ToInt": b_toint,
}


# ---------------------------------------------------------------- externals
def x_new(I, st, a, g, inst):
    n = a[0]
    if n.a is not None:
        n = restrict(n, AND(I.ctx, g))
    sz = n.v if n.a is None and isinstance(n.v, int) else None
    I.alloc_count += 1
    o = I.new_obj(sz, "heap", "new")
    st.wcells(o)
    return leaf(ptr(o, 0))


def x_delete(I, st, a, g, inst):
    if CELL[0] is not None and a and a[0].a is None and isinstance(a[0].v, Ptr) and a[0].v.obj:
        v = a[0].v
        o = I.objs.get(v.obj)
        if v.obj in I.freed or o is not None and (o.kind != "heap" or v.off != 0):
            I.note("badfree", g, "free of %s" % (v,))
        I.end(v.obj)
    return None


def x_noret(I, st, a, g, inst):
    I.note("noreturn", g, "call that does not return")
    return NORETURN


def x_nop(I, st, a, g, inst):
    return None


def x_ret0(I, st, a, g, inst):
    return a[0] if a else None


def x_memcpy(I, st, a, g, inst):
    n = a[2]
    if n.a is not None:
        n = restrict(n, AND(I.ctx, g))
    for nv in set(leaves(n)):
        if not isinstance(nv, int):
            raise Unsupported("memcpy of symbolic size")
        c = map1(lambda x: TRUE if x == nv else FALSE, n) if n.a is not None else TRUE
        if c is TRUE:
            I.memcpy(st, a[0], a[1], nv, g)
        else:
            if AND(AND(I.ctx, g), c) is FALSE:
                continue
            for dv in set(leaves(a[0])):
                for sv in set(leaves(a[1])):
                    cc = AND(c, AND(map1(lambda x: TRUE if x is dv else FALSE, a[0]),
                                    map1(lambda x: TRUE if x is sv else FALSE, a[1])))
                    if AND(AND(I.ctx, g), cc) is FALSE:
                        continue
                    I.memcpy1(st, dv, sv, nv, g, cc)
    return a[0]


def x_memset(I, st, a, g, inst):
    n = a[2]
    if n.a is not None or not isinstance(n.v, int):
        raise Unsupported("memset of symbolic size")
    n = n.v
    c = a[1]
    if c.a is not None or not isinstance(c.v, int):
        raise Unsupported("memset value")
    b = c.v & 255
    k = 0
    for pv in set(leaves(a[0])):
        cond = map1(lambda x: TRUE if x is pv else FALSE, a[0])
        if AND(AND(I.ctx, g), cond) is FALSE:
            continue
        if not isinstance(pv, Ptr) or pv.obj == 0:
            if n:
                I.note("badstore", AND(g, cond), "memset %s" % (pv,))
            continue
        k = 0
        while k < n:
            z = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
            val = leaf(wrap(int.from_bytes(bytes([b] * z), "little"), z * 8))
            if cond is TRUE:
                I.store1(st, pv.obj, pv.off + k, z, val)
            else:
                old = I.load1(st, pv.obj, pv.off + k, z, "i%d" % (8 * z))
                I.store1(st, pv.obj, pv.off + k, z, ITE(cond, val, old))
            k += z
    return a[0]


def math1(op):
    def h(I, st, a, g, inst):
        return mapn(lambda *v: UND if UNDEF in v else leaf(term(op, *v)), list(a))
    return h


def x_abs(I, st, a, g, inst):
    return pyabs(a[0])


EXT = {
    "_Znwm": x_new, "_Znam": x_new, "_ZnwmSt11align_val_t": x_new, "malloc": x_new,
    "_ZdlPv": x_delete, "_ZdlPvm": x_delete, "_ZdaPv": x_delete, "free": x_delete,
    "_ZdlPvmSt11align_val_t": x_delete,
    "__assert_fail": x_noret, "abort": x_noret, "_ZSt9terminatev": x_noret,
    "_ZSt20__throw_length_errorPKc": x_noret, "_ZSt17__throw_bad_allocv": x_noret,
    "_ZSt28__throw_bad_array_new_lengthv": x_noret,
    "_ZSt24__throw_out_of_range_fmtPKcz": x_noret,
    "_ZSt25__throw_bad_function_callv": x_noret,
    "_ZSt19__throw_logic_errorPKc": x_noret,
    "_ZSt20__throw_out_of_rangePKc": x_noret,
    "__cxa_pure_virtual": x_noret,
    "__cxa_atexit": lambda I, st, a, g, inst: ZERO,
    "__cxa_guard_acquire": lambda I, st, a, g, inst: leaf(1),
    "__cxa_guard_release": x_nop, "__cxa_guard_abort": x_nop,
    "memcpy": x_memcpy, "memmove": x_memcpy, "memset": x_memset,
    "abs": x_abs, "labs": x_abs, "llabs": x_abs,
    "wv_keep": x_nop,
}
for _n in ("sqrt", "floor", "ceil", "ldexp", "ldexpl", "log", "log2", "fabs", "sqrtl",
           "atan2", "acos", "sin", "cos", "tan", "exp2", "round", "trunc", "lround", "pow"):
    EXT[_n] = math1(_n)


def x_frexp(I, st, a, g, inst):
    I.store(st, a[1], 4, map1(lambda v: UND if v is UNDEF else leaf(I.opq("frexp_e", v)), a[0]), g)
    return map1(lambda v: UND if v is UNDEF else leaf(term("frexp_m", v)), a[0])


EXT["frexp"] = x_frexp


def ovf(op, signed):
    def h(I, st, a, g, inst):
        fs, _, _ = split_struct(inst["ty"])
        w = width(fs[0][2])

        def f(x, y):
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Unsupported("overflow arithmetic on symbolic words")
            m = (1 << w) - 1
            if not signed:
                x, y = x & m, y & m
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, m)
            return leaf(wrap(r, w)), int(not lo <= r <= hi)
        val = map2(lambda x, y: f(x, y)[0], a[0], a[1])
        c = map2(lambda x, y: leaf(f(x, y)[1]), a[0], a[1])
        return leaf(agg_intern(((fs[0][0], fs[0][1], val), (fs[1][0], fs[1][1], c))))
    return h


def minmax(f):
    def h(I, st, a, g, inst):
        def m(x, y):
            if isinstance(x, int) and isinstance(y, int):
                return leaf(f(x, y))
            raise Unsupported("min/max")
        return map2(m, a[0], a[1])
    return h


def llvm_intrinsic(name):
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
        return x_memcpy
    if name.startswith("llvm.memset"):
        return x_memset
    if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stack",
                        "llvm.va_", "llvm.experimental.noalias", "llvm.donothing")):
        return x_nop
    if name.startswith("llvm.trap"):
        return x_noret
    m = re.match(r"llvm\.([su])(add|sub|mul)\.with\.overflow", name)
    if m:
        return ovf(m.group(2), m.group(1) == "s")
    if name.startswith("llvm.is.constant"):
        return lambda I, st, a, g, inst: leaf(0)
    if name.startswith("llvm.expect"):
        return lambda I, st, a, g, inst: a[0]
    if name.startswith("llvm.abs"):
        return x_abs
    m = re.match(r"llvm\.(fabs|sqrt|floor|ceil|fmuladd|ldexp|log|log2|pow|round|trunc|rint)\.", name)
    if m:
        return math1(m.group(1))
    if name.startswith("llvm.umax") or name.startswith("llvm.smax"):
        return minmax(max)
    if name.startswith("llvm.umin") or name.startswith("llvm.smin"):
        return minmax(min)
    if name.startswith("llvm.ctlz") or name.startswith("llvm.cttz"):
        w = int(name.rsplit(".i", 1)[1])

        def bits(I, st, a, g, inst):
            def f(v):
                if isinstance(v, int):
                    v &= (1 << w) - 1
                    if name[6] == "l":
                        return leaf(w - v.bit_length())
                    return leaf((v & -v).bit_length() - 1 if v else w)
                return leaf(I.opq(name[5:9], v))
            return map1(f, a[0])
        return bits
    return None
