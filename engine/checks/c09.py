"""Ownership of big integer storage."""
from wcheck import *

LEVEL = "other"


def check(chk):
    chk.rule = ("Copying, moving, assigning, swapping, reusing and destroying big integers is interpreted on symbolic "
                "words over a heap whose blocks carry size, content and a released flag: every word read was written, "
                "every access lies inside its live block, no block is released twice or while owned, two live objects "
                "never own one block, no block is lost, and the values are the ones copied or moved.")
    chk.assumptions.append("up to 3 words (4 in the thorough tier), with exact and with spare capacity")
    s = WSession(["words.cpp"], defines=(), prefix="wv")
    chk.s = s
    chk.sessions.append(s)
    N = 4 if chk.tier == "thorough" else 3
    J = []
    R = range(1, N + 1)

    def caps(n):
        return (None, n + 1) if n < N else (None,)

    def job(name, fn, args, live, vals, sizes):
        """args(sizes) -> list; live: argument indexes owning storage after; vals: [(index, operand name)]"""
        for sz in sizes:
            def body(c, sz=sz):
                a = args(*sz)
                c.run(fn, *a)
                names = sorted({x[1] for x in a if isinstance(x, tuple) and x[0] == "big"})
                A = cw(c, *names)
                for i, nm in vals:
                    c.exact("operand %d" % i, c.s.args[i], val(c, nm) if isinstance(nm, str) else nm, A)
                c.safe(A)
                c.noleak([c.s.args[i] for i in live], A)
            J.append(Job("%s (%s)" % (name, ", ".join(str(x) for x in sz)), fn, body))
    one = [(n, cp) for n in R for cp in caps(n)]
    two = [(n, cp, m, dp) for n in R for cp in caps(n) for m in R for dp in caps(m)]
    B = lambda nm, n, c: ("big", nm, n, c)
    job("copy construction", "wv_copy", lambda n, c: [B("a", n, c), "out"], (0, 1), [(0, "a"), (1, "a")], one)
    job("move construction", "wv_move", lambda n, c: [B("a", n, c), "out"], (0, 1), [(1, "a")], one)
    job("copy assignment", "wv_assign", lambda n, c, m, d: [B("a", n, c), B("b", m, d)], (0, 1), [(0, "b"), (1, "b")], two)
    job("copy assignment to itself", "wv_assign", lambda n, c: [B("a", n, c), ("same", 0)], (0,), [(0, "a")], one)
    job("move assignment", "wv_massign", lambda n, c, m, d: [B("a", n, c), B("b", m, d)], (0, 1), [(0, "b")], two)
    job("word assignment", "wv_assignw", lambda n, c: [B("a", n, c), 5], (0,), [(0, 5)], one)
    job("swap", "wv_swap", lambda n, c, m, d: [B("a", n, c), B("b", m, d)], (0, 1), [(0, "b"), (1, "a")], two)
    job("assigning to a moved-from object", "wv_reuse", lambda n, c, m, d, k: [B("a", n, c), B("b", m, d), B("d", k, None)],
        (0, 1, 2), [(0, "b"), (1, "d")], [t + (k,) for t in two for k in R])
    job("assigning to a move-constructed-from object", "wv_reuse2", lambda n, c, m: [B("a", n, c), B("b", m, None)],
        (0, 1), [(0, "b")], [t + (k,) for t in one for k in R])
    job("destruction", "wv_dtor", lambda n, c: [B("a", n, c)], (), [], one)
    job("destruction after a move", "wv_movedtor", lambda n, c, m, d: [B("a", n, c), B("b", m, d)], (), [], two)
    for fn, nm in (("wv_addeq", "compound addition"), ("wv_subeq", "compound subtraction")):
        job(nm, fn, lambda n, c, m, d: [B("a", n, c), B("b", m, d)], (0, 1), [(1, "b")], two)
    for fn, nm in (("wv_inc", "increment"), ("wv_dec", "decrement"), ("wv_negate", "negation in place")):
        job(nm, fn, lambda n, c: [B("a", n, c)], (0,), [], one)
    for fn, nm in (("wv_add", "addition"), ("wv_sub", "subtraction")):
        job(nm, fn, lambda n, c, m, d: [B("a", n, c), B("b", m, d), "out"], (0, 1, 2), [(0, "a"), (1, "b")],
            [(n, None, m, None) for n in R for m in R])
    job("multiplication", "wv_mul", lambda n, m: [B("a", n, None), B("b", m, None), "out"], (0, 1, 2), [(0, "a"), (1, "b")],
        [(1, 1), (1, 2), (2, 1)])
    job("compound multiplication", "wv_muleq", lambda n, m: [B("a", n, None), B("b", m, None)], (0, 1), [(1, "b")],
        [(1, 1), (1, 2), (2, 1)])
    job("temporaries in a sum", "wv_tmp", lambda n, m: [B("a", n, None), B("b", m, None)], (0, 1), [(0, "a"), (1, "b")],
        [(1, 1), (1, 2), (2, 1)])
    for fn, nm in (("wv_neg", "negation"), ("wv_abs", "absolute value"), ("wv_getabs", "absolute value with sign")):
        job(nm, fn, lambda n, c: [B("a", n, c), "out"], (0, 1), [(0, "a")], one)
    run_jobs(chk, s, J)
