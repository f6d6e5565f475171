"""python3 engine/run.py <property> [-v]"""
import importlib
import os
import sys
import threading
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def main():
    import build
    from check import Check, CheckError
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    chk = Check(prop, getattr(mod, "LEVEL", "proof"))
    try:
        mod.check(chk)
    except (build.BuildError, CheckError) as e:
        print("ERROR: %s: %s" % (prop, e))
        return 2
    rc = chk.finish()
    if "-v" in sys.argv:
        for o in chk.obs:
            print("  %-10s %s%s" % (o["status"], o["obligation"], "  (%s)" % o["why"] if o["why"] else ""))
    return rc


rc = [3]


def body():
    try:
        rc[0] = main()
    except Exception:
        traceback.print_exc()
        rc[0] = 3


t = threading.Thread(target=body)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
