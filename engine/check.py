"""Check framework: obligations, known findings, evidence, verdicts."""
import json
import os
import pickle
import random
import selectors
import signal
import sys
import time
import traceback
from harness import *
import build

EVID = os.path.join(build.VERIF, "evidence")
KNOWN = os.path.join(build.VERIF, "known_findings.json")

TRUSTED = [
    "clang 18 -std=c++14 -O0 front end and mem2reg (source to IR)",
    "/verif/tool/irdump.cpp and /verif/engine (abstract interpreter, value domain)",
    "the model of BigInt's public operations as integer operations (engine/intrin.py)",
]


class CheckError(Exception):
    pass


class Scope:
    """One entry point (or one construct) under analysis."""

    def __init__(self, chk, name, entry=None):
        self.chk = chk
        self.name = name
        self.entry = entry
        self.where = None
        self.groups = ()
        self.sampler = None

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            return False
        if issubclass(et, Unsupported):
            self.chk.add(self.name, self.entry, UNDECIDED, why="not supported: %s" % e, where=self.where)
            return True
        if issubclass(et, RecursionError):
            self.chk.add(self.name, self.entry, UNDECIDED, why="recursion limit", where=self.where)
            return True
        return False

    def run(self, fn, *vals, **kw):
        s = kw.pop("session", None) or self.chk.s
        self.entry = fn
        r = s.run(fn, *vals, **kw)
        self.where = self.chk.construct(s)
        self.notes = list(s.last.notes)
        return r

    def never(self, bad, assume=TRUE, what=None, groups=None, sampler=None, detail=None):
        st, w = decide(bad, assume, self.chk.rng, self.chk.tries,
                       groups if groups is not None else self.groups,
                       sampler or self.sampler)
        n = self.name if what is None else self.name + ": " + what
        self.chk.add(n, self.entry, st, witness=w, where=self.where, detail=detail)
        return st

    def equal(self, got, spec, assume=TRUE, what=None, **kw):
        return self.never(differs(got, spec), assume, what, **kw)

    def clean(self, assume=TRUE, kinds=("badload", "badstore", "undef-branch", "noreturn", "ptr-order", "badfree", "div0")):
        bad = FALSE
        det = []
        for nt in self.notes:
            if nt[0] in kinds:
                bad = OR(bad, nt[2])
                det.append("%s at %s: %s" % (nt[0], nt[1], nt[3]))
        self.never(bad, assume, "no invalid access", detail=det[:4] or None)


class Check:
    def __init__(self, prop, level="proof"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.rng = random.Random(self.seed)
        self.tries = 4000 if self.tier == "quick" else 20000
        self.obs = []
        self.s = None
        self.sessions = []
        self.extra = {}
        self.assumptions = []
        self.trusted = list(TRUSTED)
        self.t0 = time.time()
        self.rule = ""
        self.anchors = ()
        self.analysed = set()

    def session(self, *drivers, **kw):
        s = Session(list(drivers), **kw)
        self.sessions.append(s)
        if self.s is None:
            self.s = s
        return s

    def construct(self, s):
        """The construct under analysis: the first anchored function the entry
        reaches, else the first repository function."""
        best = None
        if getattr(s, "last", None) is None:
            return None
        for a in self.anchors:
            for n in (s.last.visited if s.last else ()):
                f = s.prog.f.get(n, {})
                if f.get("file", "").startswith(build.REPO) and a in f["dem"].split("(")[0]:
                    return "%s (%s:%d)" % (f["dem"], os.path.relpath(f["file"], build.REPO), f["line"])
        for n in s.last.visited:
            f = s.prog.f.get(n, {})
            if f.get("file", "").startswith(build.REPO):
                d = f["dem"].split("(")[0]
                if d.startswith("walnut::BigInt") or "::~" in d:
                    continue
                parts = d.split("::")
                if len(parts) > 1 and parts[-1].split("<")[0] == parts[-2].split("<")[0]:
                    best = best or f
                    continue
                best = f
                break
        if best:
            f = best
            if True:
                return "%s (%s:%d)" % (f["dem"], os.path.relpath(f["file"], build.REPO), f["line"])
        return None

    def ob(self, name, entry=None):
        return Scope(self, name, entry)

    def add(self, name, entry, status, witness=None, where=None, why=None, detail=None):
        self.obs.append({"obligation": name, "entry": entry, "status": status,
                         "witness": witness, "construct": where, "why": why, "detail": detail})

    def fact(self, name, ok, where=None, detail=None):
        """An obligation decided directly by a structural rule."""
        self.add(name, None, PROVED if ok else REFUTED, where=where, detail=detail,
                 witness=None if ok else {"rule": name})

    def par(self, tasks, workers=8, limit=800):
        """Run independent groups of obligations in forked copies of the analyser."""
        left = list(enumerate(tasks))
        left.reverse()
        run = {}
        out = {}
        sel = selectors.DefaultSelector()
        t_end = time.time() + limit
        while left or run:
            while left and len(run) < workers:
                k, (name, fn) = left.pop()
                rd, wr = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    self._child(name, fn, wr)
                os.close(wr)
                run[rd] = (k, pid, name, [])
                sel.register(rd, selectors.EVENT_READ)
            for key, _ in sel.select(timeout=max(0.1, t_end - time.time())):
                b = os.read(key.fd, 1 << 20)
                k, pid, name, buf = run[key.fd]
                if b:
                    buf.append(b)
                    continue
                sel.unregister(key.fd)
                os.close(key.fd)
                os.waitpid(pid, 0)
                del run[key.fd]
                out[k] = (name, b"".join(buf))
            if time.time() >= t_end:
                for k, pid, name, buf in run.values():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    out[k] = (name, b"")
                for k, (name, fn) in left:
                    out[k] = (name, b"")
                break
        for k in sorted(out):
            name, b = out[k]
            if not b:
                self.add(name, None, UNDECIDED, why="analysis did not finish")
                continue
            r = pickle.loads(b)
            if "error" in r:
                raise CheckError("%s: %s" % (name, r["error"]))
            self.obs += r["obs"]
            self.analysed |= r["analysed"]
            for s, st in zip(self.sessions, r["stats"]):
                for q, v in st.items():
                    if isinstance(v, set):
                        s.stats[q] |= v
                    else:
                        s.stats[q] += v

    def _child(self, name, fn, wr):
        try:
            self.obs = []
            self.analysed = set()
            for s in self.sessions:
                s.stats = {k: (set() if isinstance(v, set) else 0) for k, v in s.stats.items()}
            try:
                fn()
                r = {"obs": self.obs, "analysed": self.analysed, "stats": [s.stats for s in self.sessions]}
            except (build.BuildError, CheckError) as e:
                r = {"error": str(e)}
            except Exception:
                r = {"error": traceback.format_exc()[-700:]}
            b = pickle.dumps(r)
            while b:
                n = os.write(wr, b[:1 << 16])
                b = b[n:]
        finally:
            os._exit(0)

    # ------------------------------------------------------------ verdict
    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for k in json.load(f)["findings"]:
                    if k["status"] == "open" and k["property"] == self.prop:
                        for o in k["obligations"]:
                            known[o] = k
        decided = [o for o in self.obs if o["status"] != UNDECIDED]
        refuted = [o for o in self.obs if o["status"] == REFUTED]
        viol = [o for o in refuted if o["obligation"] not in known]
        seen = set()
        for o in refuted:
            k = known.get(o["obligation"])
            if k and k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        funcs = set(self.analysed)
        for s in self.sessions:
            for n in s.stats["functions"]:
                f = s.prog.f.get(n, {})
                if f.get("file", "").startswith(build.REPO):
                    funcs.add(f["dem"])
        cov = {
            "obligations": len(self.obs),
            "discharged": len([o for o in self.obs if o["status"] == PROVED]),
            "undecided": [{"obligation": o["obligation"], "why": o["why"] or "no normal form, no witness"}
                          for o in self.obs if o["status"] == UNDECIDED],
            "checker_cmd": "python3 engine/run.py %s" % self.prop,
            "trusted_base": self.trusted,
            "rule": self.rule,
            "functions_analysed": len(funcs),
            "functions": sorted(funcs)[:400],
            "entry_points": sum(s.stats["entries"] for s in self.sessions),
            "call_sites": sum(s.stats["calls"] for s in self.sessions),
            "instructions_interpreted": sum(s.stats["steps"] for s in self.sessions),
            "samples": [{"obligation": o["obligation"], "construct": o["construct"], "status": o["status"]}
                        for o in self.obs[:12]],
            "explanation": self.rule,
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d proved, %d refuted (%d known), %d undecided; %d repository functions; %.1fs"
              % (self.prop, len(self.obs), cov["discharged"], len(refuted), len(refuted) - len(viol),
                 len(self.obs) - len(decided), len(funcs), time.time() - self.t0))
        if viol:
            rp = os.path.join(EVID, "replay-%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": viol}, f, indent=1)
            for o in viol[:20]:
                print("  broken: %s%s | %s | entry %s%s | %s" % (
                    o["obligation"], (": " + o["why"]) if o["why"] else "", o["construct"], o["entry"],
                    (" | " + str(o["detail"])[:300]) if o["detail"] else "", str(o["witness"])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if not decided:
            print("ERROR: no obligation of %s could be decided" % self.prop)
            return 2
        return 0
