"""Development tool: validate and record a planted bug.

  python3 dev/plant.py SPEC.py [id ...]

SPEC.py defines BUGS = [dict(id, property, needs, what, edits=[(file, old, new)], demo=C++ text)].
Every bug is confirmed in a scratch copy: builds, keeps the stable tests, and
the demo passes without and fails with the change.  Then the property's check
is run on the changed copy and its verdict printed.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PW", "/tmp/pw")
DEMO = '''#!/bin/bash
# cwd: /repo (built).  Compiles the program beside this file against the tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O0 -I include "$here/demo.cpp" _build/libwalnut.a -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    return sh("cd %s && cmake -S . -B _build -G Ninja -Wno-deprecated -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc "
              "-DCMAKE_CXX_COMPILER=g++ -DWALNUT_RUN_TESTS=OFF -DWALNUT_BUILD_TESTS=ON -DWALNUT_USE_VTK=ON "
              "-DWALNUT_BUILD_EXAMPLES=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON "
              "-DCMAKE_PROJECT_walnut_INCLUDE=/opt/vp/apt_googletest.cmake && ninja -C _build" % W)


def test():
    x = W + "/_build/j.xml"
    sh("rm -f %s; cd %s && ctest --test-dir _build -j8 --timeout 120 --output-junit %s" % (x, W, x))
    sh("sed -i -E 's/(<testcase name=\"[^\"]*\") classname=\"[^\"]*\"/\\1/' " + x)
    sh("python3 /opt/vp/results.py %s/_build/o.json junit:%s" % (W, x))
    o = json.load(open(W + "/_build/o.json"))
    nz = lambda s: re.sub("<..-.*>", "", s)
    b = set(map(nz, json.load(open("/opt/vp/BASELINE.json"))["stable"]))
    return sorted(b - set(map(nz, o["passed"])))


def reset():
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(W):
        r = sh("git clone -q /repo %s" % W)
        assert r.returncode == 0, r.stdout
    r = sh("cd %s && git fetch -q origin && git reset -q --hard %s && git clean -qfd -e _build" % (W, h))
    assert r.returncode == 0, r.stdout


def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        d = os.path.join(V, "seeded", b["id"])
        if os.path.exists(d + "/meta.json") and not want:
            continue
        print("==", b["id"], flush=True)
        os.makedirs(d, exist_ok=True)
        reset()
        with open(d + "/demo.sh", "w") as f:
            d0 = b.get("demo_sh", DEMO)
            f.write(d0.replace("-O0", "-O0 -g -fsanitize=address") if b.get("asan") else d0)
        os.chmod(d + "/demo.sh", 0o755)
        if "demo" in b:
            with open(d + "/demo.cpp", "w") as f:
                f.write(b["demo"].lstrip())
        ok = True
        r = build()
        if r.returncode:
            print("base build failed", r.stdout[-2000:])
            return
        r = sh("bash %s/demo.sh" % d, cwd=W)
        if r.returncode:
            print("  demo fails on the unchanged tree", r.returncode, r.stdout[-1500:])
            shutil.rmtree(d)
            continue
        bad = False
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                print("  edit matches %d times in %s: %r" % (t.count(old), f, old[:60]))
                bad = True
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            shutil.rmtree(d)
            continue
        with open(d + "/patch.diff", "w") as f:
            f.write(sh("git -C %s diff" % W).stdout)
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, f, indent=1)
            f.write("\n")
        r = build()
        if r.returncode:
            print("  does not build", r.stdout[-1500:])
            ok = False
        if ok:
            miss = test()
            if miss:
                print("  tests notice:", miss[:5])
                ok = False
        if ok:
            r = sh("bash %s/demo.sh" % d, cwd=W)
            print("  demo with the change: exit", r.returncode, r.stdout.strip()[-200:])
            if r.returncode == 0 or r.returncode == 3:
                ok = False
        if not ok:
            shutil.rmtree(d)
            print("  DROPPED")
            continue
        for p in [b["property"]] + b.get("also", []):
            r = sh("python3 engine/run.py " + p, cwd=V, env=dict(os.environ, WV_REPO=W))
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print("  %s: exit %d %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED"))
            print("   ", "\n    ".join(x[:220] for x in r.stdout.splitlines() if "broken" in x or "ERROR" in x or "obligations" in x))
    reset()


if __name__ == "__main__":
    main()
