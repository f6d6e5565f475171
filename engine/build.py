"""Compiles /repo's sources plus analysis drivers to IR and dumps the program."""
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18"


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def irdump_bin():
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    out = os.path.join(BUILD, "irdump")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        flags = [f for f in run(["llvm-config-18", "--cxxflags"]).split() if not f.startswith("-std=")]
        ld = run(["llvm-config-18", "--ldflags"]).split()
        run([CXX, "-O1", "-std=c++17"] + flags + [src, "-o", out + ".tmp"] + ld + ["-lLLVM-18"])
        os.replace(out + ".tmp", out)
    return out


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src/walnut/*.cpp")))


FLAGS = ["-std=c++14", "-O0", "-g", "-fno-exceptions", "-Xclang",
         "-disable-O0-optnone", "-Wno-everything", "-emit-llvm", "-c"]


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root in ("include", "src", "vtk_interface"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                files.append(os.path.join(d, f))
    files += extra
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def program_json(drivers, defines=("-DNDEBUG",), prefix="wv_", includes=(), tag="", with_sources=True):
    """IR of drivers + all library sources as JSON path."""
    drv = [os.path.join(VERIF, "drivers", d) for d in drivers]
    key = tree_hash(drv + glob.glob(os.path.join(VERIF, "drivers", "*.h")) +
                    [os.path.join(VERIF, "tool", "irdump.cpp"), os.path.abspath(__file__)])
    key += hashlib.sha256(repr((drivers, defines, prefix, includes)).encode()).hexdigest()[:8]
    out = os.path.join(BUILD, "ir-%s-%s.json" % (drivers[0].replace(".cpp", ""), key))
    if os.path.exists(out):
        return out
    tool = irdump_bin()
    work = os.path.join(BUILD, "w-%s-%d" % (key, os.getpid()))
    os.makedirs(work, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "drivers")] + ["-I" + i for i in includes]
    src = drv + (sources() if with_sources else [])
    if with_sources and not sources():
        raise BuildError("no library sources found")
    objs = []

    def cc(k):
        o = os.path.join(work, "%d.bc" % k)
        run([CXX] + FLAGS + list(defines) + inc + [src[k], "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, range(len(src))))
    lk = os.path.join(work, "all.bc")
    run(["llvm-link-18"] + objs + ["-o", lk])
    op = os.path.join(work, "opt.bc")
    run(["opt-18", "-passes=function(mem2reg)", lk, "-o", op])
    run([tool, op, out + ".tmp%d" % os.getpid(), prefix])
    os.replace(out + ".tmp%d" % os.getpid(), out)
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    return out


if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        print(irdump_bin())
    else:
        print(program_json(sys.argv[1:]))
