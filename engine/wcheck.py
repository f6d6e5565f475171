"""Parallel obligations over the machine-word domain."""
import os
import pickle
import random
import resource
import select
import signal
import time
import traceback
from words import *
import words
import build

BADKINDS = ("badload", "badstore", "undef-branch", "noreturn", "badfree", "div0", "undef-shift", "div-overflow",
            "abs-overflow", "badcall", "overflow")


class Job:
    def __init__(self, name, fn, body, limit=150):
        self.name, self.fn, self.body, self.limit = name, fn, body, limit


class Ctx:
    """What one job can say."""

    def __init__(self, s, seed):
        self.s = s
        self.rng = random.Random(seed)
        self.out = []
        self.tries = 6000

    def run(self, fn, *a):
        return self.s.runw(fn, *a)

    def never(self, what, bad, assume=TRUE, dbf=None, detail=None):
        try:
            st, w = wdecide(bad, assume, self.rng, self.tries, dbf)
            why = None
        except Unsupported as e:
            st, w, why = UNDECIDED, None, str(e)
        self.out.append((what, st, w, why, detail))
        return st

    def exact(self, what, p, spec, assume=TRUE, sb=None, canon=True):
        r = self.s.words_of(p)
        bad, dbf = exact(r, spec, sb)
        self.never(what + " denotes the exact value", bad, assume, dbf)
        if canon:
            self.canon(what, r, assume)

    def canon(self, what, r, assume=TRUE):
        self.never(what + " is stored minimally",
                   map1(lambda w: leaf(1) if w is UNDEF else NOT(canonical(w.args)), r), assume)

    def bool(self, what, got, spec, assume=TRUE):
        g = map1(lambda v: leaf(v & 1) if isinstance(v, int) else (leaf(1) if v is True else leaf(v)), got)
        bad = map2(lambda a, b: leaf(2) if not isinstance(a, int) else leaf(1 if a != b else 0), g, spec)
        self.never(what, bad, assume)

    def safe(self, assume=TRUE, kinds=BADKINDS):
        bad, det = FALSE, []
        for nt in self.s.last.notes:
            if nt[0] in kinds:
                bad = OR(bad, nt[2])
                det.append("%s at %s: %s" % (nt[0], nt[1], nt[3]))
        self.never("no invalid access, undefined operation or failed assertion", bad, assume, detail=det[:4] or None)

    def noleak(self, live, assume=TRUE):
        """Every allocation is released or owned by a live object."""
        I, st = self.s.last, self.s.last_state
        own = []
        for p in live:
            own.append(I.load1(st, p.v.obj, p.v.off + 16, 8, "ptr"))
        bad = FALSE
        for o in list(I.objs.values()):
            if o.kind != "heap":
                continue
            c = st.cells(o.id)
            f = c.get(FREED, (1, FALSE))[1] if c else FALSE
            g = TRUE
            for oid, gg in I.allocs:
                if oid == o.id:
                    g = gg
            for e in own:
                f = OR(f, map1(lambda v: TRUE if isinstance(v, Ptr) and v.obj == o.id else FALSE, e))
            bad = OR(bad, AND(g, NOT(f)))
        self.never("no storage is leaked", bad, assume)
        # one owner only, and never a released block
        bad = FALSE
        for i, e in enumerate(own):
            for f in own[:i]:
                bad = OR(bad, map2(lambda a, b: TRUE if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj and a.obj == b.obj else FALSE, e, f))
            for o in set(v.obj for v in leaves(e) if isinstance(v, Ptr) and v.obj):
                c = st.cells(o)
                fr = c.get(FREED, (1, FALSE))[1] if c else FALSE
                bad = OR(bad, AND(map1(lambda v: TRUE if isinstance(v, Ptr) and v.obj == o else FALSE, e), fr))
        self.never("live objects own distinct, unreleased storage", bad, assume)


def run_jobs(chk, session, jobs, width=8, total=780):
    """Forks one process per job, at most `width` at a time."""
    jobs = list(jobs)
    t0 = time.time()
    running, results, k = {}, {}, 0
    stats = {"paths": 0}
    while k < len(jobs) or running:
        while k < len(jobs) and len(running) < width:
            if time.time() - t0 > total:
                results[k] = ("late", None)
                k += 1
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                except (ValueError, OSError):
                    pass
                signal.alarm(int(jobs[k].limit))
                c = Ctx(session, chk.seed * 1000003 + k)
                try:
                    jobs[k].body(c)
                    res = ("ok", c.out)
                except Unsupported as e:
                    res = ("unsupported", (str(e), c.out))
                except build.BuildError as e:
                    res = ("build", str(e))
                except MemoryError:
                    res = ("unsupported", ("memory limit", c.out))
                except Exception:
                    res = ("crash", traceback.format_exc())
                where = None
                try:
                    where = chk.construct(session)
                except Exception:
                    pass
                st = session.stats
                data = pickle.dumps((res, where, sorted(st["functions"]), st["entries"], st["calls"], st["steps"], words.STAT["paths"]))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (pid, k, b"")
            k += 1
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            pid, j, buf = running[r]
            d = os.read(r, 1 << 16)
            if d:
                running[r] = (pid, j, buf + d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            results[j] = ("done", pickle.loads(buf)) if buf else ("late", None)
    for j, job in enumerate(jobs):
        kind, d = results[j]
        if kind == "late":
            chk.add(job.name, job.fn, UNDECIDED, why="time limit")
            continue
        res, where, fns, en, ca, stp, paths = d
        session.stats["functions"].update(fns)
        session.stats["entries"] += en
        session.stats["calls"] += ca
        session.stats["steps"] += stp
        stats["paths"] += paths
        if res[0] == "build":
            raise build.BuildError(res[1])
        if res[0] == "crash":
            raise RuntimeError("analysis of %s failed:\n%s" % (job.name, res[1]))
        out = res[1] if res[0] == "ok" else res[1][1]
        for what, st, w, why, det in out:
            chk.add("%s: %s" % (job.name, what), job.fn, st, witness=w, where=where, why=why, detail=det)
        if res[0] == "unsupported":
            chk.add(job.name, job.fn, UNDECIDED, why="not supported: " + res[1][0], where=where)
    chk.extra["paths_discharged"] = chk.extra.get("paths_discharged", 0) + stats["paths"]
    chk.trusted[:] = [t for t in chk.trusted if "integer operations" not in t]
    if "machine-word domain (engine/words.py)" not in chk.trusted:
        chk.trusted.append("machine-word domain (engine/words.py)")


def cw(c, *names):
    """Precondition: the named operands are stored minimally."""
    r = TRUE
    for n in names:
        r = AND(r, canonical(c.s.words[n]))
    return r


def val(c, n):
    return value_of(c.s.words[n])


def pb(*bs):
    r = bs[0]
    for b in bs[1:]:
        r = imul(r, b)
    return r


def addb(*bs):
    return (sum(b[0] for b in bs), sum(b[1] for b in bs))


def negb(b):
    return (-b[1], -b[0])
