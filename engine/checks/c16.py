"""Deeds and their targets: every transition of the state space."""
import itertools
import os
from collections import deque
from harness import *
import dd
from checks.c11 import Unset
from checks.c25 import bad_access

LEVEL = "proof"
NT, ND = 4, 5
T, D = 2, 3 if os.environ.get("VERIF_TIER", "quick") == "quick" else 4
# slots used by the explored states; the others are spare


class S:
    """targets: None (dead) or owner; deeds: None (dead) or [object, lent, lender]"""

    def __init__(self, t=None, d=None):
        self.t = list(t) if t else ["dead"] * NT
        self.d = [list(x) if x else None for x in d] if d else [None] * ND

    def copy(self):
        return S(self.t, self.d)

    def shape(self):
        """the state up to the order of the slots"""
        best = None
        for pt in itertools.permutations(range(T)):
            for pd in itertools.permutations(range(D)):
                t = [None] * T
                d = [None] * D
                for i in range(T):
                    w = self.t[i]
                    t[pt[i]] = -2 if w == "dead" else -1 if w is None else pd[w]
                for i in range(D):
                    x = self.d[i]
                    d[pd[i]] = () if not x else (-1 if x[0] is None or x[1] else pt[x[0]], x[1], -1 if x[2] is None else pd[x[2]])
                k = (tuple(t), tuple(d))
                if best is None or k < best:
                    best = k
        return best

    def own(self, o, d):
        if o is not None:
            self.t[o] = d

    def ret(self, i):
        o, _, l = self.d[i]
        if l is not None:
            self.d[l][0] = o
            self.d[l][1] = False
        self.own(o, l)
        self.d[i][0] = None
        self.d[i][2] = None

    def step(self, op, i, j):
        t, d = self.t, self.d
        if op in (0, 1):
            t[i] = None
        elif op == 2:
            t[i], t[j] = t[j], None
            if t[i] is not None:
                d[t[i]][0] = i
        elif op == 3 and i != j:
            t[i], t[j] = t[j], t[i]
            for k in (i, j):
                if t[k] is not None:
                    d[t[k]][0] = k
        elif op == 5:
            if t[i] is not None:
                d[t[i]][0] = None
            t[i] = "dead"
        elif op in (10, 18):
            d[i] = [None, False, None]
        elif op == 11:
            w = t[j]
            if w is not None:
                d[w][1] = True
            d[i] = [j, False, w]
            t[j] = i
        elif op == 12:
            d[i] = d[j]
            d[j] = [None, False, None]
            self.own(d[i][0], i)
        elif op in (13, 14) and i != j:
            d[i], d[j] = d[j], d[i]
            self.own(d[i][0], i)
            self.own(d[j][0], j)
        elif op == 15:
            d[i] = [d[j][0], False, j]
            d[j][1] = True
            self.own(d[i][0], i)
        elif op == 16:
            self.ret(i)
        elif op == 17:
            self.ret(i)
            d[i] = None

    def moves(self, nt=T, nd=D):
        """operations whose preconditions hold"""
        t, d = self.t, self.d
        live = [i for i in range(nt) if t[i] != "dead"]
        free = [i for i in range(nt) if t[i] == "dead"]
        dl = [i for i in range(nd) if d[i] and not d[i][1]]
        df = [i for i in range(nd) if not d[i]]
        r = [(0, i, 0) for i in free] + [(5, i, 0) for i in live]
        r += [(op, i, j) for i in free for j in live for op in (1, 2)]
        r += [(op, i, j) for i in live for j in live for op in (3, 4)]
        r += [(op, i, 0) for i in df for op in (10, 18)]
        r += [(11, i, j) for i in df for j in live]
        r += [(op, i, j) for i in df for j in dl for op in (12, 15)]
        r += [(op, i, j) for i in dl for j in dl for op in (13, 14)]
        r += [(op, i, 0) for i in dl for op in (16, 17)]
        return r

    def report(self):
        r = []
        for x in self.d:
            if not x:
                r.append(-9)
            elif x[1]:
                r.append(-2)
            else:
                r.append(-1 if x[0] is None else x[0])
        return r

    def stale(self):
        return any(x and x[2] is not None and not self.d[x[2]] for x in self.d)


def probes(s, which):
    """steps that reveal the rest of the state, ending with nothing alive"""
    s = s.copy()
    out = [(99, 0, 0)]
    exp = s.report()

    def do(*st):
        nonlocal exp
        s.step(*st)
        out.append(st)
        out.append((99, 0, 0))
        exp = exp + s.report()
    if which == 0:
        # targets move away and back
        for i in range(T):
            if s.t[i] != "dead":
                do(2, T, i)
                do(5, i, 0)
                do(2, i, T)
                do(5, T, 0)
    # deeds end before the ones they borrow from
    while True:
        e = [i for i in range(ND) if s.d[i] and not s.d[i][1]]
        if which == 2:
            e = e[::-1]
        if not e:
            break
        i = e[0]
        if which == 1:
            do(12, D, i) if not s.d[D] else None
            if s.d[i] and s.d[D]:
                do(17, i, 0)
                do(17, D, 0)
                continue
        if which == 2:
            do(16, i, 0)
        do(17, i, 0)
    if any(s.d):
        return None
    for i in range(NT):
        if s.t[i] != "dead":
            do(5, i, 0)
    return out, exp


def explore():
    """all states, with a shortest history, and all transitions"""
    s0 = S()
    seen = {s0.shape(): []}
    todo = deque([s0])
    trans = []
    while todo:
        s = todo.popleft()
        h = seen[s.shape()]
        for m in s.moves():
            n = s.copy()
            n.step(*m)
            if n.stale():
                continue
            trans.append((h + [m], n))
            if n.shape() not in seen:
                seen[n.shape()] = h + [m]
                todo.append(n)
    return len(seen), trans


NAMES = {0: "creating a target", 1: "copying a target", 2: "moving a target", 3: "move-assigning a target", 4: "copy-assigning a target",
         5: "destroying a target", 10: "creating an empty deed", 11: "creating a deed of a target", 12: "moving a deed",
         13: "move-assigning a deed", 14: "swapping deeds", 15: "lending", 16: "returning", 17: "destroying a deed",
         18: "creating a deed of no target"}


def run(chk, hs):
    q = [len(hs)]
    for steps, _ in hs:
        q.append(len(steps))
        for st in steps:
            q += st
    n = sum(len(e) for _, e in hs)
    r = chk.s.run("wv_deed", In([x % (1 << 64) for x in q], 8), Out(n, "i64"))
    got = []
    for x in r:
        if isinstance(x, Node) and x.a is None and isinstance(x.v, int):
            got.append(x.v - (1 << 64) if x.v >= 1 << 63 else x.v)
        else:
            got.append(None)
    return got, bad_access(chk, TRUE)


def batch(chk, name, items):
    with chk.ob(name) as o:
        o.entry = "wv_deed"
        res, why, wit = PROVED, None, None
        hs = []
        for steps, n in items:
            for which in range(3):
                p = probes(n, which)
                if p:
                    hs.append((steps + p[0], p[1]))
        for k in range(0, len(hs), 40):
            part = hs[k:k + 40]
            try:
                got, bad = run(chk, part)
                ok = not bad and got == [x for _, e in part for x in e]
            except dd.NeverReturns:
                ok = False
            o.where = o.where or chk.construct(chk.s)
            if ok:
                continue
            for h in part:
                try:
                    got, bad = run(chk, [h])
                    if not bad and got == h[1]:
                        continue
                    why = "memory is misused" if bad else "a deed does not have the target it should"
                except dd.NeverReturns as e:
                    why = str(e)
                res = REFUTED
                wit = {"history": "; ".join("%s %s" % (NAMES.get(x[0]), x[1:]) for x in h[0] if x[0] != 99)}
                break
            break
        chk.add(name, o.entry, res, witness=wit, where=o.where, why=why, detail={"histories": len(hs)})


def check(chk):
    chk.anchors = ("walnut::GenericDeed::", "walnut::DeedTarget::")
    chk.rule = ("The states that %d deeds and %d targets can be in are enumerated by a model of ownership; from each, every "
                "operation whose precondition holds is interpreted, followed by probes that reveal which deed each target "
                "believes it has and which deed a borrowed one returns to.  An operation touches at most two deeds or two "
                "targets and what is linked to them, so every transition of larger sets looks like one of these." % (D, T))
    chk.session("deed.cpp", defines=())
    states, trans = explore()
    by = {}
    for steps, n in trans:
        by.setdefault(steps[-1][0], []).append((steps, n))
    tasks = []
    for op in sorted(by):
        its = by[op]
        for k in range(0, len(its), 400):
            nm = NAMES[op] + (", part %d" % (k // 400) if len(its) > 400 else "")
            tasks.append((nm, lambda nm=nm, part=its[k:k + 400]: batch(chk, nm, part)))
    chk.par(tasks)
    chk.extra["states"] = states
    chk.extra["transitions"] = len(trans)
