"""Axis-aligned boxes."""
from harness import *

LEVEL = "proof"


def realval(t, env):
    """a floating term under real-number semantics"""
    import math
    if isinstance(t, int):
        return float(t)
    if isinstance(t, Poly):
        return float(env.poly(t))
    if isinstance(t, Fl):
        return float(t.v)
    if isinstance(t, Term):
        a = [realval(x, env) for x in t.args if isinstance(x, (int, Poly, Fl, Term))]
        if t.op == "tofp":
            return a[0]
        if t.op == "fdiv":
            return a[0] / a[1]
        if t.op == "fmul":
            return a[0] * a[1]
        if t.op == "fadd":
            return a[0] + a[1]
        if t.op == "fsub":
            return a[0] - a[1]
        if t.op == "fneg":
            return -a[0]
        if "sqrt" in t.op or (t.args and "sqrt" in str(t.args[0])):
            return math.sqrt(a[-1])
    raise KeyError(str(t))


def check(chk):
    chk.rule = ("Every box operation is value-numbered for all coordinates and denominators of either sign: containment "
                "and border tests must equal the six exact rational comparisons, the plane side must be decided by the "
                "corner extreme along the normal, equality must compare the two rational corners, and the walls must be "
                "the six faces with outward planes and counter-clockwise vertices.")
    s = chk.session("aabb.cpp", defines=("-DNDEBUG",))
    bx = V(*"abcdefg")
    a, b, c, d, e, f, g = bx
    lo, hi = (a, b, c), (d, e, f)
    x, y, z, w = V(*"xyzw")
    p = (x, y, z)
    NZ = AND(NE0(g), NE0(w))

    def le(u, den, v, strict=False):
        """u/den <= v as rationals, den of any sign"""
        s_ = mulsign(S(psub(pmul(v, 1), u)), S(den))
        return map1(lambda t: TRUE if (t > 0 if strict else t >= 0) else FALSE, s_)

    def inside(p, w):
        r = TRUE
        gw = pmul(g, w)
        for i in range(3):
            u = pmul(p[i], g)          # p/w versus lo/g:  p*g vs lo*w over g*w
            r = AND(r, map1(lambda t: TRUE if t >= 0 else FALSE, mulsign(S(psub(u, pmul(lo[i], w))), S(gw))))
            r = AND(r, map1(lambda t: TRUE if t >= 0 else FALSE, mulsign(S(psub(pmul(hi[i], w), u)), S(gw))))
        return r

    def border(p, w):
        r = FALSE
        for i in range(3):
            u = pmul(p[i], g)
            r = OR(r, OR(EQ0(psub(u, pmul(lo[i], w))), EQ0(psub(u, pmul(hi[i], w)))))
        return AND(inside(p, w), r)
    with chk.ob("integer point inside or on the box") as o:
        o.equal(o.run("wv_in_e", *bx, *p), inside(p, 1), NE0(g))
    with chk.ob("homogeneous point inside or on the box") as o:
        o.equal(o.run("wv_in_h", *bx, *p, w), inside(p, w), NZ)
    with chk.ob("integer point on the border") as o:
        o.equal(o.run("wv_on_e", *bx, *p), border(p, 1), NE0(g))
    with chk.ob("homogeneous point on the border") as o:
        o.equal(o.run("wv_on_h", *bx, *p, w), border(p, w), NZ)
    with chk.ob("the default box contains no integer point") as o:
        o.never(o.run("wv_empty_e", *p))
    with chk.ob("the default box contains no homogeneous point") as o:
        o.never(o.run("wv_empty_h", *p, w), NE0(w))
    with chk.ob("box from two points") as o:
        r = TRUE
        for i in range(3):
            r = AND(r, AND(NOT(LT0(psub(p[i], lo[i]))), NOT(GT0(psub(p[i], hi[i])))))
        o.equal(o.run("wv_box_pp", *lo, *hi, *p), r)
    with chk.ob("cube of a given radius") as o:
        r = TRUE
        for i in range(3):
            r = AND(r, AND(NOT(LT0(padd(p[i], 3))), NOT(GT0(psub(p[i], 3)))))
        o.equal(o.run("wv_cube", 3, *p), r)
    # plane side: the corner that is extreme along the normal decides
    with chk.ob("side of a plane") as o:
        n = o.run("wv_side", *bx, x, y, z, w)

        def ext(far):
            r = ZERO
            for i in range(3):
                pos = GT0(p[i])
                q = ITE(pos, leaf(pmul((hi if far else lo)[i], p[i])), leaf(pmul((lo if far else hi)[i], p[i])))
                r = nadd(r, q)
            return r
        dw = leaf(pmul(w, g))
        # plane (x,y,z).q = w, corner/g: the sign of corner.n - w*g, times sign g
        sg = S(g)
        near = map2(lambda u, v: leaf(u * v), nsgn(nsub(ext(False), dw)), sg)
        far = map2(lambda u, v: leaf(u * v), nsgn(nsub(ext(True), dw)), sg)
        mn, mx = near, far
        spec = ITE(map1(lambda t: TRUE if t > 0 else FALSE, mn), leaf(1),
                   ITE(map1(lambda t: TRUE if t < 0 else FALSE, mx), leaf(-1), leaf(0)))
        # a box that is not empty
        ne = NE0(g)
        for i in range(3):
            ne = AND(ne, map1(lambda t: TRUE if t >= 0 else FALSE, mulsign(S(psub(hi[i], lo[i])), sg)))
        o.equal(nsgn(n), spec, ne)
    bx2 = V(*"hijklmn")
    with chk.ob("equality of boxes") as o:
        spec = TRUE
        for i in range(6):
            spec = AND(spec, EQ0(psub(pmul(bx[i], bx2[6]), pmul(bx2[i], g))))
        nz = AND(NE0(g), NE0(bx2[6]))
        o.equal(o.run("wv_eq", *bx, *bx2), spec, nz)
        o.equal(o.run("wv_ne", *bx, *bx2), NOT(spec), nz, what="inequality")
    with chk.ob("corner points") as o:
        r = o.run("wv_corners", *bx, Out(8))
        o.never(not_same_point(r[:4], [N(t) for t in lo] + [N(g)]), NE0(g), what="minimum")
        o.never(not_same_point(r[4:], [N(t) for t in hi] + [N(g)]), NE0(g), what="maximum")
    d2 = 0
    for i in range(3):
        q = psub(hi[i], lo[i])
        d2 = padd(d2, pmul(q, q))
    with chk.ob("squared diagonal numerator") as o:
        o.equal(o.run("wv_diag2", *bx, Out(1))[0], N(d2), NE0(g))
    with chk.ob("diagonal length") as o:
        r = o.run("wv_diag", *bx)
        import math
        st, wit = PROVED, None
        import random
        for t in range(60):
            vals = {VARS[v].name: chk.rng.randint(-9, 9) for v in (vid(q) for q in bx)}
            if vals["g"] == 0:
                continue
            env = Env({vid(q): vals[VARS[vid(q)].name] for q in bx}, None)
            v = evalleaf(r, env)
            try:
                got = realval(v, env)
            except (KeyError, ZeroDivisionError, ValueError):
                st = UNDECIDED
                break
            want = math.sqrt(env.poly(d2)) / abs(vals["g"])
            if abs(got - want) > 1e-9 * (1 + abs(want)):
                st, wit = REFUTED, vals
                break
        chk.add(o.name, o.entry, st, witness=wit, where=o.where)
    # walls
    with chk.ob("walls") as o:
        n, (r,) = o.run("wv_walls", *bx, Out(120))
        solid = NE0(g)
        for i in range(3):
            solid = AND(solid, map1(lambda t: TRUE if t > 0 else FALSE, mulsign(S(psub(hi[i], lo[i])), S(g))))
        o.equal(n, leaf(6), solid, what="a solid box has six")
        # every face is listed exactly once
        faces = []
        for i in range(3):
            for far in (0, 1):
                nr = [0, 0, 0]
                nr[i] = g if far else pneg(g)
                dd = hi[i] if far else pneg(lo[i])
                faces.append((i, far, nr, dd))
        for fi, (i, far, nr, dd) in enumerate(faces):
            miss = TRUE
            sgn_g = S(g)
            for k in range(6):
                q = r[20 * k:20 * k + 20]
                # the stored plane is a positive multiple of the outward plane
                ref = [map2(lambda u, t: leaf(pmul(u, t)), N(u), sgn_g) for u in nr + [dd]]
                miss = AND(miss, not_pos_multiple(q[:4], ref))
            o.never(miss, solid, what="face %d%s is listed with its outward plane" % (i, "+" if far else "-"))
        for k in range(6):
            q = r[20 * k:20 * k + 20]
            vs = [q[4 + 4 * j:8 + 4 * j] for j in range(4)]
            off = FALSE
            for v in vs:
                off = OR(off, nonzero(nsub(ndot(q[:3], v[:3]), nmul(q[3], v[3]))))
            o.never(off, solid, what="wall %d: vertices on its plane" % k)
            corner = FALSE
            for v in vs:
                for i in range(3):
                    isl = zero(nsub(nmul(v[i], leaf(g)), nmul(leaf(lo[i]), v[3])))
                    ish = zero(nsub(nmul(v[i], leaf(g)), nmul(leaf(hi[i]), v[3])))
                    corner = OR(corner, NOT(OR(isl, ish)))
            o.never(corner, solid, what="wall %d: vertices are box corners" % k)
            # counter-clockwise about the stored normal: ((v1-v0) x (v2-v1)).n > 0
            bad = FALSE
            for j in range(4):
                A, Bv, C = vs[j], vs[(j + 1) % 4], vs[(j + 2) % 4]
                u = [nsub(Bv[i], A[i]) for i in range(3)]
                v = [nsub(C[i], Bv[i]) for i in range(3)]
                cr = [nsub(nmul(u[(i + 1) % 3], v[(i + 2) % 3]), nmul(u[(i + 2) % 3], v[(i + 1) % 3])) for i in range(3)]
                same = TRUE
                for q2 in (Bv, C):
                    same = AND(same, zero(nsub(q2[3], A[3])))
                turn = ndot(cr, q[:3])
                wrong = TRUE
                for i in range(3):
                    area = pmul(g, pmul(psub(hi[(i + 1) % 3], lo[(i + 1) % 3]), psub(hi[(i + 2) % 3], lo[(i + 2) % 3])))
                    wrong = AND(wrong, differs(turn, ITE(GT0(g), leaf(area), leaf(pneg(area)))))
                if not (wrong.a is None and wrong.v == 0):
                    wrong = AND(wrong, map1(lambda t: FALSE if t > 0 else TRUE, nsgn(turn)))
                bad = OR(bad, OR(NOT(same), wrong))
            o.never(bad, solid, what="wall %d: counter-clockwise vertices" % k)


def evalleaf(n, env):
    while n.a is not None:
        n = env.step(n) if hasattr(env, "step") else pick(n, env)
    return n.v


def pick(n, env):
    a = n.a
    if a.kind == "sgn":
        v = env.poly(a.key)
        return n.k[(v > 0) - (v < 0) + 1]
    raise KeyError(a.kind)
