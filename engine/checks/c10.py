"""Boolean operation filters."""
import itertools
from harness import *

LEVEL = "other"


def check(chk):
    chk.anchors = ("Filter::operator()", "Filter<",)
    chk.rule = ("Every filter is interpreted for all winding numbers and content counts (per number of operands and per "
                "placement of their ids, including absent and repeated ids); the answer must be the operation applied to "
                "the operands' sides, and the node must count as undecided exactly when the undecided operands can still "
                "change the result.")
    s = chk.session("filter.cpp", defines=("-DNDEBUG",))
    deep = chk.tier != "quick"

    def infos(n):
        return [[V("i%d" % k), V("b%d" % k), V("p%d" % k)] for k in range(n)]

    def get(inf, i):
        return inf[i] if i < len(inf) else [0, 0, 0]

    def ne0(x):
        return NE0(x) if isinstance(x, Poly) else (TRUE if x else FALSE)

    def sign(x):
        return S(x) if isinstance(x, Poly) else leaf((x > 0) - (x < 0))

    def side(inf, i, kind):
        p = get(inf, i)[2]
        if kind == "odd":
            return ne0(s.last.bitop("and", p, 1, 64).v) if isinstance(p, Poly) else FALSE
        return map1(lambda v: TRUE if (v > 0 if kind == "pos" else v >= 0) else FALSE, sign(p))

    def open_(inf, i):
        x = get(inf, i)
        return OR(ne0(x[0]), ne0(x[1]))

    def truth(r):
        return [map1(lambda v: UND if v is UNDEF else TRUE if v != 0 else FALSE, x if isinstance(x, Node) else leaf(x)) for x in r]

    def compare(o, r, first, second, what=""):
        r = truth(r)
        o.equal(r[0], first, TRUE, what + "inside")
        o.equal(r[1], second, TRUE, what + "undecided")
        o.clean(TRUE)

    def nary(ops, conj):
        """ops: (side, open).  -> (side, undecided) of the conjunction or disjunction"""
        first = TRUE if conj else FALSE
        some = FALSE
        fixed = FALSE
        for a, u in ops:
            first = AND(first, a) if conj else OR(first, a)
            some = OR(some, u)
            fixed = OR(fixed, AND(NOT(u), NOT(a) if conj else a))
        return first, AND(some, NOT(fixed))

    for fn, what, kind in (("wv_fone", "single operand", "pos"), ("wv_finv", "inverted operand", "nonneg"),
                           ("wv_fodd", "odd winding operand", "odd"),
                           ("wv_fvisit", "operand through the collecting visitor", "pos")):
        for n in range(4):
            for i in range(n + 2):
                inf = infos(n)
                with chk.ob("%s, id %d of %d known" % (what, i, n)) as o:
                    r = o.run(fn, In(sum(inf, []), 8), n, i, Out(2, "i64"))
                    compare(o, r, side(inf, i, kind), open_(inf, i))
    A = V("a", "au", "b", "bu")
    x = [(NE0(A[0]), NE0(A[1])), (NE0(A[2]), NE0(A[3]))]
    for fn, what in (("wv_fand", "intersection"), ("wv_for", "union"), ("wv_fsub", "subtraction"), ("wv_fxor", "exclusive or")):
        with chk.ob(what + " of two arbitrary operands") as o:
            r = o.run(fn, In(A, 8), Out(2, "i64"))
            if fn == "wv_fxor":
                a, b = x[0][0], x[1][0]
                spec = OR(AND(a, NOT(b)), AND(b, NOT(a))), OR(x[0][1], x[1][1])
            else:
                spec = nary(x, fn != "wv_for")
            compare(o, r, *spec)
    for fn, what in (("wv_funion", "union of ids"), ("wv_finter", "intersection of ids"), ("wv_fdiff", "difference of ids")):
        for n in range(4):
            for m in range(4 if not deep else 5):
                if n == 3 and m == 4:
                    continue
                for st in (0, 1):
                    if st and m == 3 and not deep:
                        continue
                    with chk.ob("%s, %d known, lists of %d%s" % (what, n, m, ", replaced list" if st else "")) as o:
                        bad = []
                        for ids in itertools.product(range(n + 1), repeat=m):
                            inf = infos(n)
                            r = truth(o.run(fn, In(sum(inf, []), 8), n, In(ids, 8), m, st, Out(2, "i64")))
                            if fn == "wv_fdiff":
                                ops = [(side(inf, i, "nonneg" if k else "pos"), open_(inf, i)) for k, i in enumerate(ids)]
                                spec = nary(ops, True) if ids else (FALSE, FALSE)
                            else:
                                spec = nary([(side(inf, i, "pos"), open_(inf, i)) for i in ids], fn == "wv_finter")
                            for got, sp, w in ((r[0], spec[0], "inside"), (r[1], spec[1], "undecided")):
                                d = differs(got, sp)
                                if d is not FALSE:
                                    bad.append((ids, w, d))
                            for nt in s.last.notes:
                                if nt[0] in ("badload", "badstore", "undef-branch", "noreturn", "badfree"):
                                    bad.append((ids, nt[0], nt[2]))
                        if not bad:
                            chk.add(o.name, fn, PROVED, where=o.where, detail={"lists": (n + 1) ** m})
                        for ids, w, d in bad[:3]:
                            o.never(d, TRUE, "ids %s, %s" % (list(ids), w))
