"""Big integer arithmetic on words."""
from wcheck import *

LEVEL = "other"


def i32(name):
    return word(name, 0, (1 << 32) - 1)


def check(chk):
    chk.rule = ("Each operator of BigInt is interpreted on operands whose 64-bit words are all symbolic, one run per "
                "combination of operand word counts; wrapped arithmetic is rewritten with one carry variable per "
                "floor, and on every feasible combination of branch conditions the words of the result must denote the "
                "exact integer (polynomial identity modulo the word size plus a magnitude bound), be stored minimally, "
                "and no access, shift or assertion may go wrong.")
    chk.assumptions.append("operand sizes: up to 3 words (addition, subtraction), 2x2 and 1x3 words (products); deeper in the thorough tier")
    s = WSession(["words.cpp"], defines=(), prefix="wv")
    chk.s = s
    chk.sessions.append(s)
    T = chk.tier == "thorough"
    N = 4 if T else 3
    J = []

    def two(name, fn, spec, bnd, inplace, sizes, lim=150, same=True):
        for n, m in sizes:
            def body(c, n=n, m=m):
                c.run(fn, ("big", "a", n), ("big", "b", m), *([] if inplace else ["out"]))
                A = cw(c, "a", "b")
                va, vb_ = val(c, "a"), val(c, "b")
                c.exact("result", c.s.args[0 if inplace else 2], spec(va, vb_), A, bnd(bounds(va), bounds(vb_)))
                c.safe(A)
            J.append(Job("%s, %d and %d words" % (name, n, m), fn, body, lim))
        if not same:
            return
        for n in sorted({n for n, m in sizes if n == m}):
            def body(c, n=n):
                c.run(fn, ("big", "a", n), ("same", 0), *([] if inplace else ["out"]))
                A = cw(c, "a")
                va = val(c, "a")
                c.exact("result", c.s.args[0 if inplace else 2], spec(va, va), A, bnd(bounds(va), bounds(va)))
                c.safe(A)
            J.append(Job("%s of an object with itself, %d words" % (name, n), fn, body, lim))
    sq = [(n, m) for n in range(1, N + 1) for m in range(1, N + 1)]
    mq = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + ([(2, 3), (3, 2)] if T else [])
    ml = 700 if T else 150
    addbn = lambda a, b: addb(a, b)
    subbn = lambda a, b: addb(a, negb(b))
    two("multiplication", "wv_mul", pmul, pb, False, mq, ml)
    two("compound multiplication", "wv_muleq", pmul, pb, True, [(1, 1), (1, 2), (2, 1)] + ([(2, 2)] if T else []), ml)
    two("addition", "wv_add", padd, addbn, False, sq)
    two("subtraction", "wv_sub", psub, subbn, False, sq)
    two("compound addition", "wv_addeq", padd, addbn, True, sq)
    two("compound subtraction", "wv_subeq", psub, subbn, True, sq)

    def one(name, fn, spec, inplace, extra=(), sizes=range(1, N + 1), sb=None, lim=150):
        for n in sizes:
            def body(c, n=n):
                c.run(fn, ("big", "a", n), *extra, *([] if inplace else ["out"]))
                A = cw(c, "a")
                va = val(c, "a")
                c.exact("result", c.s.args[0 if inplace else 1 + len(extra)], spec(va), A, sb(bounds(va)) if sb else None)
                c.safe(A)
            J.append(Job("%s, %d word%s" % (name, n, "s" * (n > 1)), fn, body, lim))
    one("negation", "wv_neg", pneg, False)
    one("negation in place", "wv_negate", pneg, True)
    one("increment", "wv_inc", lambda v: padd(v, 1), True)
    one("decrement", "wv_dec", lambda v: psub(v, 1), True)
    b = i32("bi")
    vb32 = signed(b, 32)
    b32 = bounds(vb32)
    one("addition of an int", "wv_addi", lambda v: padd(v, vb32), False, (b,))
    one("subtraction of an int", "wv_subi", lambda v: psub(v, vb32), False, (b,))
    one("compound addition of an int", "wv_addeqi", lambda v: padd(v, vb32), True, (b,))
    one("compound subtraction of an int", "wv_subeqi", lambda v: psub(v, vb32), True, (b,))
    one("multiplication by an int", "wv_muli", lambda v: pmul(v, vb32), False, (b,), range(1, 3), lambda x: pb(x, b32), ml)
    one("compound multiplication by an int", "wv_muleqi", lambda v: pmul(v, vb32), True, (b,), range(1, 3), lambda x: pb(x, b32), ml)
    w = word("bw")
    vw = signed(w, 64)
    one("multiplication by a word", "wv_mulw", lambda v: pmul(v, vw), False, (w,), range(1, 3), lambda x: pb(x, bounds(vw)), ml)

    for n in range(1, N + 1):
        def body(c, n=n):
            c.run("wv_abs", ("big", "a", n), "out")
            absjob(c, 1)
        J.append(Job("absolute value, %d words" % n, "wv_abs", body))

        def body(c, n=n):
            r = c.run("wv_getabs", ("big", "a", n), "out")
            absjob(c, 1)
            c.bool("reports whether the value was negative", r, neg(c), cw(c, "a"))
        J.append(Job("absolute value with sign, %d words" % n, "wv_getabs", body))

        def body(c, n=n):
            r = c.run("wv_uabs", ("big", "a", n), "out")
            A = cw(c, "a")
            c.bool("reports whether the value was negative", r, neg(c), A)
            ws = c.s.words_of(c.s.args[1])
            B = {}
            va = val(c, "a")

            def d(w, sg):
                if w is UNDEF:
                    return leaf(1)
                p = psub(uvalue_of(w.args), pneg(va) if sg else va)
                if isinstance(p, Poly):
                    B[p.id] = [(-(1 << (64 * len(w.args) - 1)), (1 << (64 * len(w.args))) + (1 << (64 * n - 1)))]
                return leaf(p)
            c.never("result denotes the absolute value", map2(d, ws, neg(c)), A, lambda p: B.get(p.id))
            c.never("result is stored minimally", map1(lambda w: leaf(1) if w is UNDEF else NOT(ucanonical(w.args)), ws), A)
            c.safe(A)
        J.append(Job("unsigned absolute value, %d words" % n, "wv_uabs", body))
        for sh in (0, 1, 31, 32, 33, 63, 64, 65, 100, 127, 128):
            if n > 2 and sh not in (0, 1, 63, 64, 65):
                continue

            def body(c, n=n, sh=sh):
                c.run("wv_shl", ("big", "a", n), sh, "out")
                A = cw(c, "a")
                va = val(c, "a")
                bb = bounds(va)
                c.exact("result", c.s.args[2], pmul(va, 1 << sh), A, (bb[0] << sh, bb[1] << sh))
                c.safe(A)
            J.append(Job("left shift by %d, %d words" % (sh, n), "wv_shl", body))
    for fn, nm, op in (("wv_addmul", "fused multiply-add", padd), ("wv_submul", "fused multiply-subtract", psub)):
        for n, m, k in [(1, 1, 1), (2, 1, 1)] + ([(1, 2, 1), (1, 1, 2), (3, 1, 1)] if T else []):
            def body(c, n=n, m=m, k=k, fn=fn, op=op):
                c.run(fn, ("big", "a", n), ("big", "b", m), ("big", "d", k))
                A = cw(c, "a", "b", "d")
                va, vb_, vd = val(c, "a"), val(c, "b"), val(c, "d")
                x = pb(bounds(vb_), bounds(vd))
                c.exact("result", c.s.args[0], op(va, pmul(vb_, vd)), A, addb(bounds(va), x if op is padd else negb(x)))
                c.safe(A)
            J.append(Job("%s, %d, %d and %d words" % (nm, n, m, k), fn, body, ml))
    # single-word division is one machine instruction away from the definition
    for fn, nm in (("wv_div", "quotient"), ("wv_mod", "remainder")):
        def body(c, fn=fn):
            c.run(fn, ("big", "a", 1), ("big", "b", 1), "out")
            va, vb_ = val(c, "a"), val(c, "b")
            A = cmpd(vb_, lambda s: s != 0)
            q = divq(va, vb_)
            c.exact("result", c.s.args[2], q if fn == "wv_div" else psub(va, pmul(q, vb_)), A,
                    (-(1 << 63), 1 << 63))
            c.safe(A)
        J.append(Job("%s of one-word operands" % nm, fn, body))
    run_jobs(chk, s, sorted(J, key=lambda j: -j.limit))


def neg(c):
    return cmpd(hbit(c.s.words["a"][-1]), lambda s: s > 0)


def absjob(c, k):
    A = cw(c, "a")
    va = val(c, "a")
    n = neg(c)
    r = c.s.words_of(c.s.args[k])
    p1, f1 = exact(r, va)
    p2, f2 = exact(r, pneg(va))
    c.never("result denotes the exact value of a nonnegative operand", p1, AND(A, NOT(n)), f1)
    c.never("result denotes the exact value of a negative operand", p2, AND(A, n), f2)
    c.canon("result", r, A)
    c.safe(A)
