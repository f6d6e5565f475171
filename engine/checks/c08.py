"""Big integer comparison, sign queries, conversions."""
from wcheck import *

LEVEL = "other"


def check(chk):
    chk.rule = ("Every comparison, sign query and integer conversion of BigInt is interpreted on symbolic 64-bit words, "
                "one run per combination of operand word counts; on every feasible combination of branch conditions "
                "the answer must equal the one computed from the exact integers the words denote (polynomial value "
                "with a sign bit per operand), and no access or assertion may go wrong.")
    chk.assumptions.append("operands stored minimally, up to 3 words each (4 in the thorough tier); ints over their full range")
    s = WSession(["words.cpp"], defines=(), prefix="wv")
    chk.s = s
    chk.sessions.append(s)
    N = 4 if chk.tier == "thorough" else 3
    J = []
    sq = [(n, m) for n in range(1, N + 1) for m in range(1, N + 1)]
    CMP = [("wv_lt", "<", lambda s: s < 0), ("wv_le", "<=", lambda s: s <= 0), ("wv_gt", ">", lambda s: s > 0),
           ("wv_ge", ">=", lambda s: s >= 0), ("wv_eq", "==", lambda s: s == 0), ("wv_ne", "!=", lambda s: s != 0)]
    for fn, op, f in CMP:
        for n, m in sq:
            def body(c, n=n, m=m, fn=fn, f=f, op=op):
                r = c.run(fn, ("big", "a", n), ("big", "b", m))
                A = cw(c, "a", "b")
                c.bool("agrees with the exact integers", r, cmpd(psub(val(c, "a"), val(c, "b")), f), A)
                c.safe(A)
            J.append(Job("%s, %d and %d words" % (op, n, m), fn, body))
        for n in range(1, N + 1):
            def body(c, n=n, fn=fn, f=f):
                r = c.run(fn, ("big", "a", n), ("same", 0))
                c.bool("agrees with the exact integers", r, cmpd(0, f), cw(c, "a"))
            J.append(Job("%s of an object with itself, %d words" % (op, n), fn, body))

            def body(c, n=n, fn=fn, f=f):
                b = word("bi", 0, (1 << 32) - 1)
                r = c.run(fn + "i", ("big", "a", n), b)
                A = cw(c, "a")
                c.bool("agrees with the exact integers", r, cmpd(psub(val(c, "a"), signed(b, 32)), f), A)
                c.safe(A)
            J.append(Job("%s against an int, %d words" % (op, n), fn + "i", body))
    for n, m in sq:
        def body(c, n=n, m=m):
            r = c.run("wv_cmp", ("big", "a", n), ("big", "b", m))
            A = cw(c, "a", "b")
            d = psub(val(c, "a"), val(c, "b"))
            for nm, f in (("negative", lambda s: s < 0), ("zero", lambda s: s == 0), ("positive", lambda s: s > 0)):
                c.bool("result is %s exactly when the difference is" % nm, signof(r, f, 32), cmpd(d, f), A)
            c.safe(A)
        J.append(Job("Compare, %d and %d words" % (n, m), "wv_cmp", body))
        for fl in (0, 1):
            for fn in ("wv_less", "wv_flip"):
                def body(c, n=n, m=m, fl=fl, fn=fn):
                    r = c.run(fn, ("big", "a", n), fl, ("big", "b", m))
                    A = cw(c, "a", "b")
                    d = psub(val(c, "a"), val(c, "b"))
                    c.bool("agrees with the exact integers", r, cmpd(pneg(d) if fl else d, lambda s: s < 0), A)
                    c.safe(A)
                J.append(Job("%s order%s, %d and %d words" % ("container" if fn == "wv_flip" else "named",
                                                               " flipped" if fl else "", n, m), fn, body))
        def body(c, n=n, m=m):
            r = c.run("wv_absmult2", ("big", "a", n), ("big", "b", m))
            A = cw(c, "a", "b")
            na, nb = isneg(c, "a"), isneg(c, "b")
            c.bool("is 1 when both or neither is negative", cmpint(r, 1), NOT(XOR(na, nb)), A)
            c.bool("is -1 otherwise", cmpint(r, -1), XOR(na, nb), A)
            for fn, want in (("wv_same", NOT(XOR(na, nb))), ("wv_diff", XOR(na, nb))):
                r = c.run(fn, ("big", "a", n), ("big", "b", m))
                c.bool("%s sign test" % fn[3:], r, want, A)
                c.safe(A)
        J.append(Job("combined sign, %d and %d words" % (n, m), "wv_absmult2", body))
    for n in range(1, N + 1):
        def body(c, n=n):
            r = c.run("wv_sign", ("big", "a", n))
            A = cw(c, "a")
            va = val(c, "a")
            for nm, f in (("negative", lambda s: s < 0), ("zero", lambda s: s == 0), ("positive", lambda s: s > 0)):
                c.bool("is %s exactly when the value is" % nm, signof(r, f, 64), cmpd(va, f), A)
            r = c.run("wv_zero", ("big", "a", n))
            c.bool("IsZero", r, cmpd(va, lambda s: s == 0), A)
            r = c.run("wv_isneg", ("big", "a", n))
            c.bool("IsNegative", r, cmpd(va, lambda s: s < 0), A)
            r = c.run("wv_signext", ("big", "a", n))
            c.bool("sign extension is -1 for negative values", cmpint(r, -1), cmpd(va, lambda s: s < 0), A)
            c.bool("sign extension is 0 for nonnegative values", cmpint(r, 0), cmpd(va, lambda s: s >= 0), A)
            r = c.run("wv_absmult", ("big", "a", n))
            c.bool("GetAbsMult is -1 for negative values", cmpint(r, -1), cmpd(va, lambda s: s < 0), A)
            c.bool("GetAbsMult is 1 for nonnegative values", cmpint(r, 1), cmpd(va, lambda s: s >= 0), A)
            r = c.run("wv_half", ("big", "a", n))
            c.bool("IsHalfWord", r, AND(cmpd(psub(va, 1 << 31), lambda s: s < 0), cmpd(padd(va, 1 << 31), lambda s: s >= 0)), A)
            c.safe(A)
        J.append(Job("sign queries, %d words" % n, "wv_sign", body))
    def body(c):
        b = word("bi", 0, (1 << 32) - 1)
        c.run("wv_fromi", b, "out")
        c.exact("result", c.s.args[1], signed(b, 32))
        c.safe()
    J.append(Job("construction from an int", "wv_fromi", body))

    def body(c):
        b = word("bw")
        c.run("wv_fromw", b, "out")
        c.exact("result", c.s.args[1], signed(b, 64))
        c.safe()
    J.append(Job("construction from a word", "wv_fromw", body))

    def body(c):
        c.run("wv_default", "out")
        c.exact("result", c.s.args[0], 0)
        c.safe()
    J.append(Job("default construction", "wv_default", body))
    for n in range(1, N + 1):
        def body(c, n=n):
            b = word("bw")
            c.run("wv_assignw", ("big", "a", n), b)
            c.exact("result", c.s.args[0], signed(b, 64), cw(c, "a"))
            c.safe(cw(c, "a"))
        J.append(Job("assignment of a word, %d words" % n, "wv_assignw", body))

        def body(c, n=n):
            c.run("wv_fromu", ("big", "a", n), "out")
            A = ucanonical(c.s.words["a"])
            c.exact("result", c.s.args[1], uvalue_of(c.s.words["a"]), A)
            c.safe(A)
            if n < 2:
                return
        J.append(Job("construction from an unsigned big integer, %d words" % n, "wv_fromu", body))
        for m in range(1, N + 1):
            def body(c, n=n, m=m):
                c.run("wv_assignu", ("big", "b", m), ("big", "a", n))
                A = AND(ucanonical(c.s.words["a"]), cw(c, "b"))
                c.exact("result", c.s.args[0], uvalue_of(c.s.words["a"]), A)
                c.safe(A)
            J.append(Job("assignment of an unsigned big integer, %d to %d words" % (n, m), "wv_assignu", body))
    for k in (0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 191):
        def body(c, k=k):
            c.run("wv_max", k, "out")
            c.exact("result", c.s.args[1], (1 << k) - 1)
            c.safe()
        J.append(Job("largest value of %d bits" % k, "wv_max", body))

        def body(c, k=k):
            c.run("wv_min", k, "out")
            c.exact("result", c.s.args[1], -(1 << k))
            c.safe()
        J.append(Job("smallest value of %d bits" % k, "wv_min", body))
    run_jobs(chk, s, J)


def XOR(a, b):
    return OR(AND(a, NOT(b)), AND(b, NOT(a)))


def isneg(c, n):
    return cmpd(val(c, n), lambda s: s < 0)


def signof(r, f, w):
    """truth of f(sign of the returned machine integer)"""
    def g(v):
        if v is UNDEF:
            return UND
        if isinstance(v, int):
            v = v & ((1 << w) - 1)
            v -= (v >> (w - 1)) << w
            return TRUE if f((v > 0) - (v < 0)) else FALSE
        return cmpd(signed(v, w), f)
    return map1(g, r)


def cmpint(r, k):
    def g(v):
        if isinstance(v, int):
            return TRUE if (v - k) % (1 << 32) == 0 else FALSE
        if v is UNDEF:
            return UND
        b = bounds(v)
        d = psub(v, k if k >= 0 else (k + (1 << (64 if b[1] is not None and b[1] >= 1 << 32 else 32))))
        return cmpd(d, lambda s: s == 0)
    return map1(g, r)
