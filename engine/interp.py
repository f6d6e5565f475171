"""Abstract interpreter over the dumped program.

One pass per loop iteration in weak-topological order; states are merged at
every control-flow join with gated values, so no path is ever enumerated.
"""
import json
import re
from dd import *


class FuncInfo:
    pass


def load_program(path):
    with open(path) as f:
        d = json.load(f)
    return Program(d)


class Program:
    def __init__(self, d):
        self.f = {x["name"]: x for x in d["functions"]}
        self.g = {x["name"]: x for x in d["globals"]}
        self.info = {}
        self.bydem = {}
        for x in d["functions"]:
            self.bydem.setdefault(x["dem"], []).append(x["name"])

    def finfo(self, name):
        r = self.info.get(name)
        if r is None:
            r = self.info[name] = prepare(self.f[name])
        return r


def succs(term):
    op = term["op"]
    if op == "br":
        return [term["t"], term["f"]] if "cond" in term else [term["t"]]
    if op == "switch":
        out = [term["default"]]
        for _, b in term["cases"]:
            if b not in out:
                out.append(b)
        return out
    return []


def wto(n, succ, entry):
    """Bourdoncle's weak topological order: nested list of blocks."""
    dfn = [0] * n
    num = [0]
    stack = []
    INF = 1 << 60

    def component(v):
        part = []
        for s in succ[v]:
            if dfn[s] == 0:
                visit(s, part)
        part.insert(0, v) if False else None
        return [v] + part[::-1] if False else (v, part)

    def visit(v, partition):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for s in succ[v]:
            m = visit(s, partition) if dfn[s] == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            el = stack.pop()
            if loop:
                while el != v:
                    dfn[el] = 0
                    el = stack.pop()
                part = []
                for s in succ[v]:
                    if dfn[s] == 0:
                        visit(s, part)
                partition.insert(0, (v, part))
            else:
                partition.insert(0, v)
        return head

    part = []
    visit(entry, part)
    return part


def refs_of(i):
    for k in ("a",):
        for r in i.get(k, ()):
            yield r
    if "cond" in i:
        yield i["cond"]
    if "callee" in i:
        yield i["callee"]
    for r, _ in i.get("var", ()):
        yield r
    for r, _ in i.get("phi", ()):
        yield r


def prepare(f):
    fi = FuncInfo()
    fi.f = f
    fi.name = f["name"]
    fi.dem = f["dem"]
    fi.file = f.get("file", "")
    fi.line = f.get("line", 0)
    blocks = f["blocks"]
    fi.blocks = blocks
    n = len(blocks)
    succ = [succs(b[-1]) if b else [] for b in blocks]
    fi.order = wto(n, succ, 0)
    defb = {}
    for bi, b in enumerate(blocks):
        for i in b:
            defb[i["id"]] = bi
    cross = set(a[0] for a in f["args"])
    for bi, b in enumerate(blocks):
        for i in b:
            if "phi" in i:
                cross.add(i["id"])
                for r, _ in i["phi"]:
                    if r[0] == "v":
                        cross.add(r[1])
                continue
            for r in refs_of(i):
                if r[0] == "v" and defb.get(r[1]) != bi:
                    cross.add(r[1])
    fi.cross = cross
    fi.phis = {}
    for bi, b in enumerate(blocks):
        ph = [i for i in b if "phi" in i]
        if ph:
            fi.phis[bi] = [(i["id"], {bb: r for r, bb in i["phi"]}) for i in ph]
    return fi


class State:
    __slots__ = ("mem", "own")

    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}
        self.own = set()

    def fork(self):
        s = State(dict(self.mem))
        self.own = set()
        return s

    def cells(self, obj):
        return self.mem.get(obj)

    def wcells(self, obj):
        c = self.mem.get(obj)
        if c is None:
            c = {}
            self.mem[obj] = c
            self.own.add(obj)
        elif obj not in self.own:
            c = dict(c)
            self.mem[obj] = c
            self.own.add(obj)
        return c


class Obj:
    __slots__ = ("id", "size", "kind", "name", "site")


def merge_states(entries):
    """entries: [(state, guard)] disjoint guards -> state."""
    if len(entries) == 1:
        return entries[0][0]
    acc, g = entries[0]
    for st, gg in entries[1:]:
        m1, m2 = acc.mem, st.mem
        out = dict(m2)
        for o, c1 in m1.items():
            c2 = m2.get(o)
            if c2 is None:
                out[o] = c1
            elif c1 is not c2:
                nc = dict(c2)
                for off, e1 in c1.items():
                    e2 = c2.get(off)
                    if e2 is None:
                        nc[off] = e1
                    elif e1 is not e2:
                        if e1[0] != e2[0]:
                            # differently-typed views: keep as conflict
                            if e1[1] is e2[1]:
                                continue
                            raise Unsupported("merge of cells with different sizes")
                        if e1[1] is not e2[1]:
                            nc[off] = (e1[0], ITE(g, e1[1], e2[1]))
                out[o] = nc
        acc = State(out)
        g = OR(g, gg)
    return acc


def wrap(v, w):
    v &= (1 << w) - 1
    if w > 0 and v >> (w - 1):
        v -= 1 << w
    return v


def width(ty):
    if ty and ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    return None


_ty_memo = {}


def split_struct(ty):
    """Layout of a first-class aggregate type string: [(off,size,ty)], size, align."""
    r = _ty_memo.get(ty)
    if r is not None:
        return r
    t = ty.strip()
    w = width(t)
    if w is not None:
        s = (w + 7) // 8
        a = 1
        while a < s and a < 16:
            a *= 2
        r = ([(0, s, t)], s, a)
    elif t == "ptr":
        r = ([(0, 8, t)], 8, 8)
    elif t == "double":
        r = ([(0, 8, t)], 8, 8)
    elif t == "float":
        r = ([(0, 4, t)], 4, 4)
    elif t == "x86_fp80":
        r = ([(0, 10, t)], 16, 16)
    elif t.startswith("{"):
        inner = t[1:-1].strip()
        parts, depth, cur = [], 0, ""
        for ch in inner:
            if ch in "{[<":
                depth += 1
            if ch in "}]>":
                depth -= 1
            if ch == "," and depth == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        if cur.strip():
            parts.append(cur)
        off, al, out = 0, 1, []
        for p in parts:
            fs, s, a = split_struct(p)
            off = (off + a - 1) // a * a
            for (o, z, tt) in fs:
                out.append((off + o, z, tt))
            off += s
            al = max(al, a)
        r = (out, (off + al - 1) // al * al, al)
    elif t.startswith("["):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        fs, s, a = split_struct(m.group(2))
        out = []
        for i in range(int(m.group(1))):
            for (o, z, tt) in fs:
                out.append((i * s + o, z, tt))
        r = (out, s * int(m.group(1)), a)
    else:
        raise Unsupported("type " + ty)
    _ty_memo[ty] = r
    return r


class Agg:
    __slots__ = ("c",)


def agg(cells):
    a = Agg()
    a.c = cells
    return a


def is_leaf(n, v):
    """the condition under which diagram n has the value v"""
    if n.a is None:
        return TRUE if n.v is v else FALSE
    return map1(lambda x: TRUE if x is v else FALSE, n)


class Abort(Exception):
    pass


class Interp:
    MAX_ITER = 400
    MAX_STEPS = 6000000

    def __init__(self, prog, intrinsics=None, ctx=TRUE):
        self.p = prog
        self.objs = {}
        self.nobj = 0
        self.ctx = ctx
        self.steps = 0
        self.intr = intrinsics or {}
        self.intr_cache = {}
        self.fnobj = {}
        self.depth = 0
        self.fresh = 0
        self.notes = []          # diagnostics: (kind, where, guard, detail)
        self.visited = {}        # function -> inline count
        self.stack = []
        self.hooks = {}          # function name (mangled) -> callback(interp, st, args, inst)
        self.calls_seen = 0
        self.unknown = {}
        self.alloc_count = 0
        self.where = ("", 0)
        self.on_call = None
        self.globobj = {}
        self.freed = {}          # objects that have ended (kept in cell mode only)
        self.frames = []

    # ---------------------------------------------------------------- objects
    def new_obj(self, size, kind, name=""):
        self.nobj += 1
        o = Obj()
        o.id = self.nobj
        o.size = size
        o.kind = kind
        o.name = name
        o.site = self.where
        self.objs[o.id] = o
        return o.id

    def note(self, kind, guard, detail):
        self.notes.append((kind, self.where, AND(self.ctx, guard), detail,
                           tuple(f.dem for f in self.stack[-6:])))

    def opaque(self, tag, rng=None):
        self.fresh += 1
        return leaf(var("%s#%d" % (tag, self.fresh), rng, None, "opaque"))

    # ---------------------------------------------------------------- memory
    def load(self, st, p, size, ty, guard):
        w = width(ty)

        def one(v):
            if not isinstance(v, Ptr) or v.obj == 0:
                self.note("badload", AND(guard, is_leaf(p, v)), str(v))
                return UND
            return self.load1(st, v.obj, v.off, size, ty)
        return map1(one, p)

    def touch(self, obj, off, size):
        """a use of memory, when there is a single path (cell mode)"""
        if obj in self.freed:
            self.note("badload", TRUE, "use of an object that ended at %s:%d" % self.freed[obj])
            return
        o = self.objs.get(obj)
        if o is not None and o.kind in ("heap", "stack") and isinstance(o.size, int) and isinstance(off, int):
            n = size if isinstance(size, int) else BIGINT_SIZE
            if off < 0 or off + n > o.size:
                self.note("badload", TRUE, "%d bytes at %d of an object of %d" % (n, off, o.size))

    def end(self, obj):
        self.freed[obj] = self.where

    def load1(self, st, obj, off, size, ty):
        if CELL[0] is not None:
            self.touch(obj, off, size)
        c = st.cells(obj)
        if c is None:
            c = self.global_cells(st, obj)
            if c is None:
                return UND
        if not isinstance(off, int):
            raise Unsupported("symbolic offset")
        if ty[0] in "{[":
            fs, _, _ = split_struct(ty)
            return leaf(agg_intern(tuple(
                (o, z, self.load1(st, obj, off + o, z, t)) for o, z, t in fs)))
        e = c.get(off)
        if e is not None and e[0] == size:
            return self.coerce(e[1], ty)
        if e is not None and e[0] == "big":
            raise Unsupported("raw access to a big integer object")
        # piecewise constant bytes
        return self.load_bytes(c, off, size, ty)

    def load_bytes(self, c, off, size, ty):
        # find covering cell
        for o in range(off, off - 33, -1):
            e = c.get(o)
            if e is None:
                continue
            if e[0] == "big":
                if o == off or o + BIGINT_SIZE > off:
                    raise Unsupported("raw access inside a big integer object")
                break
            if e[0] == "fill":
                continue
            if o + e[0] >= off + size and o <= off:
                sh = (off - o) * 8

                def ex(v):
                    if v is UNDEF:
                        return UND
                    if not isinstance(v, int):
                        if v is NULL:
                            v = 0
                        else:
                            raise Unsupported("partial load of %s" % (v,))
                    x = (v >> sh) & ((1 << (size * 8)) - 1)
                    return leaf(wrap(x, size * 8))
                return self.coerce(map1(ex, e[1]), ty)
            break
        # compose
        parts = []
        gaps = False
        pos = off
        while pos < off + size:
            e = c.get(pos)
            if e is None and parts and size == 8:
                pos += 1        # padding, perhaps
                gaps = True
                continue
            if e is None or not isinstance(e[0], int) or pos + e[0] > off + size:
                return UND
            parts.append((pos - off, e[0], e[1]))
            pos += e[0]
        if gaps:
            # a small aggregate passed in a register: keep its parts
            return leaf(agg_intern(tuple(parts)))

        def comp(*vs):
            x = 0
            for (o, z, _), v in zip(parts, vs):
                if v is NULL:
                    v = 0
                if v is UNDEF:
                    return UND
                if not isinstance(v, int):
                    raise Unsupported("composed load of %s" % (v,))
                x |= (v & ((1 << (z * 8)) - 1)) << (o * 8)
            return leaf(wrap(x, size * 8))
        return self.coerce(mapn(comp, [p[2] for p in parts]), ty)

    def coerce(self, n, ty):
        if n.a is None:
            v = n.v
            if ty == "ptr" and v == 0 and isinstance(v, int):
                return leaf(NULL)
            if ty != "ptr" and v is NULL:
                return ZERO
            if ty == "double" and isinstance(v, int):
                if v == 0:
                    return leaf(fl("0"))
            return n
        if ty == "ptr":
            return map1(lambda v: leaf(NULL) if isinstance(v, int) and v == 0 else leaf(v), n)
        return n

    def global_cells(self, st, obj):
        return None

    def store(self, st, p, size, val, guard):
        if p.a is None:
            v = p.v
            if not isinstance(v, Ptr) or v.obj == 0:
                self.note("badstore", guard, str(v))
                return
            self.store1(st, v.obj, v.off, size, val)
            return
        # weak store
        for v in set(leaves(p)):
            cond = map1(lambda x: TRUE if x is v else FALSE, p)
            if AND(AND(self.ctx, guard), cond) is FALSE:
                continue
            if not isinstance(v, Ptr) or v.obj == 0:
                self.note("badstore", AND(guard, cond), str(v))
                continue
            if isinstance(size, int):
                old = self.load1(st, v.obj, v.off, size, "i%d" % (size * 8))
            else:
                old = self.getbig1(st, v)
            self.store1(st, v.obj, v.off, size, ITE(cond, val, old))

    def store1(self, st, obj, off, size, val):
        if CELL[0] is not None:
            self.touch(obj, off, size)
        if not isinstance(off, int):
            raise Unsupported("symbolic offset store")
        c = st.wcells(obj)
        if val.a is None and isinstance(val.v, Agg):
            for o, z, x in val.v.c:
                self.store1(st, obj, off + o, z, x)
            return
        e = c.get(off)
        if e is None or e[0] != size:
            self.clobber(c, off, size if isinstance(size, int) else BIGINT_SIZE)
        c[off] = (size, val)

    def clobber(self, c, off, size):
        # split or drop overlapping cells
        for o in range(off - 31, off + size):
            e = c.get(o)
            if e is None:
                continue
            z = e[0] if isinstance(e[0], int) else BIGINT_SIZE
            if o + z <= off:
                continue
            del c[o]
            if isinstance(e[0], int) and (o < off or o + z > off + size):
                # keep the untouched constant bytes
                v = e[1]
                vals = leaves(v)
                if all(isinstance(x, int) or x is NULL or x is UNDEF for x in vals):
                    for b in range(o, o + z):
                        if off <= b < off + size:
                            continue
                        sh = (b - o) * 8

                        def ex(x):
                            if x is UNDEF:
                                return UND
                            x = 0 if x is NULL else x
                            return leaf(wrap((x >> sh) & 255, 8))
                        c[b] = (1, map1(ex, v))

    def getbig(self, st, p, guard=TRUE):
        def one(v):
            if not isinstance(v, Ptr) or v.obj == 0:
                self.note("badload", guard, "big integer at %s" % (v,))
                return UND
            return self.getbig1(st, v)
        return map1(one, p)

    def getbig1(self, st, v):
        if CELL[0] is not None:
            self.touch(v.obj, v.off, BIGINT_SIZE)
        c = st.cells(v.obj)
        e = c.get(v.off) if c is not None else None
        if e is None or e[0] != "big":
            return UND
        return e[1]

    def setbig(self, st, p, val, guard=TRUE):
        self.store(st, p, "big", val, guard)

    def memcpy(self, st, dst, src, n, guard):
        def leafptr(x):
            if x.a is not None:
                return None
            return x.v
        d, s = leafptr(dst), leafptr(src)
        if d is None or s is None:
            # expand over leaves
            for dv in set(leaves(dst)):
                cd = map1(lambda x: TRUE if x is dv else FALSE, dst)
                for sv in set(leaves(src)):
                    cs = AND(cd, map1(lambda x: TRUE if x is sv else FALSE, src))
                    if AND(AND(self.ctx, guard), cs) is FALSE:
                        continue
                    self.memcpy1(st, dv, sv, n, guard, cs)
            return
        self.memcpy1(st, d, s, n, guard, TRUE)

    def memcpy1(self, st, d, s, n, guard, cond):
        if n == 0:
            return
        if not (isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj and s.obj):
            self.note("badload", AND(guard, cond), "memcpy %s <- %s" % (d, s))
            return
        if CELL[0] is not None:
            self.touch(s.obj, s.off, n)
            self.touch(d.obj, d.off, n)
        sc = st.cells(s.obj)
        if sc is None:
            return
        items = [(o - s.off, e) for o, e in sc.items()
                 if s.off <= o and o + (e[0] if isinstance(e[0], int) else BIGINT_SIZE) <= s.off + n]
        for o in range(s.off - 31, s.off + n):
            # cells that reach over an end of the range: their bytes inside it
            e = sc.get(o)
            if e is None or not isinstance(e[0], int) or o + e[0] <= s.off or (s.off <= o and o + e[0] <= s.off + n):
                continue
            for b in range(max(o, s.off), min(o + e[0], s.off + n)):
                items.append((b - s.off, (1, self.load_bytes(sc, b, 1, "i8"))))
        if cond is TRUE:
            c = st.wcells(d.obj)
            self.clobber(c, d.off, n)
        for o, e in items:
            if e[0] == "big":
                raise Unsupported("raw copy of a big integer object")
            self.store(st, leaf(d), e[0], e[1], guard) if False else None
            if cond is TRUE:
                self.store1(st, d.obj, d.off + o, e[0], e[1])
            else:
                old = self.load1(st, d.obj, d.off + o, e[0], "i%d" % (e[0] * 8))
                self.store1(st, d.obj, d.off + o, e[0], ITE(cond, e[1], old))

    # ---------------------------------------------------------------- values
    def gptr(self, st, name, off):
        o = self.globobj.get(name)
        if o is None:
            g = self.p.g[name]
            o = self.new_obj(g["size"], "global", name)
            self.globobj[name] = o
            self.ginit(st, o, g)
        if o not in st.mem:
            self.ginit(st, o, self.p.g[name])
        return ptr(o, off)

    def ginit(self, st, o, g):
        c = st.wcells(o)
        for off, sz, r in g["init"]:
            if r[0] == "z":
                n = r[1]
                k = 0
                while k < n:
                    z = 8 if n - k >= 8 and (off + k) % 8 == 0 else 1
                    c[off + k] = (z, ZERO)
                    k += z
            else:
                c[off] = (sz, self.ref(r, {}, st))

    def ref(self, r, env, st):
        k = r[0]
        if k == "v":
            v = env.get(r[1])
            if v is None:
                raise Unsupported("undefined register %d in %s" % (r[1], self.stack[-1].dem if self.stack else "?"))
            return v
        if k == "c":
            return leaf(int(r[1]))
        if k == "n":
            return leaf(NULL)
        if k == "f":
            return leaf(fl(canon_float(r[1])))
        if k == "u":
            return UND
        if k == "fn":
            return leaf(fnval(r[1]))
        if k == "g":
            return leaf(self.gptr(st, r[1], r[2]))
        if k == "z":
            return ZERO
        if k == "m":
            return UND
        raise Unsupported("constant expression " + str(r))

    # ---------------------------------------------------------------- calls
    def call(self, name, args, st, guard):
        """Interpret function `name`; returns (retval, state, retguard)."""
        fi = self.p.finfo(name)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("call depth")
        self.stack.append(fi)
        self.frames.append([])
        self.visited[name] = self.visited.get(name, 0) + 1
        octx = self.ctx
        self.ctx = AND(octx, guard)
        try:
            env = {}
            for a, v in zip(fi.f["args"], args):
                env[a[0]] = v
            pending = {0: [(st, TRUE, env)]}
            rets = []
            self.run_list(fi, fi.order, pending, rets)
            if not rets:
                return None
            if len(rets) == 1:
                s, g, v = rets[0]
                return v, s, g
            s = merge_states([(r[0], r[1]) for r in rets])
            g = rets[0][1]
            v = rets[0][2]
            for r in rets[1:]:
                if v is not None and v is not r[2]:
                    v = self.ite_val(g, v, r[2])
                g = OR(g, r[1])
            return v, s, g
        finally:
            self.ctx = octx
            self.stack.pop()
            for o in self.frames.pop():
                self.end(o)
            self.depth -= 1

    def ite_val(self, g, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if (a.a is None and isinstance(a.v, Agg)) or (b.a is None and isinstance(b.v, Agg)):
            if a.a is None and b.a is None and isinstance(a.v, Agg) and isinstance(b.v, Agg):
                return leaf(agg_intern(tuple(
                    (o, z, self.ite_val(g, x, y))
                    for (o, z, x), (_, _, y) in zip(a.v.c, b.v.c))))
            if b.a is None and b.v is UNDEF:
                return a
            if a.a is None and a.v is UNDEF:
                return b
            raise Unsupported("merge of aggregates")
        return ITE(g, a, b)

    def add_pending(self, fi, pending, tgt, src, st, g, env):
        ph = fi.phis.get(tgt)
        e2 = {k: v for k, v in env.items() if k in fi.cross}
        if ph:
            vals = [(i, self.ref(m[src], env, st)) for i, m in ph]
            for i, v in vals:
                e2[i] = v
        pending.setdefault(tgt, []).append((st, g, e2))

    def take(self, pending, b):
        ent = pending.pop(b, None)
        if not ent:
            return None
        if len(ent) == 1:
            return ent[0]
        st = merge_states([(e[0], e[1]) for e in ent])
        g = ent[0][1]
        env = dict(ent[0][2])
        for s, gg, e in ent[1:]:
            for k, v in e.items():
                o = env.get(k)
                if o is None:
                    env[k] = v
                elif o is not v:
                    env[k] = self.ite_val(g, o, v)
            g = OR(g, gg)
        return st, g, env

    def run_list(self, fi, order, pending, rets):
        for el in order:
            if isinstance(el, tuple):
                head, body = el
                it = 0
                while pending.get(head):
                    it += 1
                    if it > self.MAX_ITER:
                        raise Unsupported("loop bound in " + fi.dem)
                    self.run_block(fi, head, pending, rets)
                    self.run_list(fi, body, pending, rets)
            else:
                if pending.get(el):
                    self.run_block(fi, el, pending, rets)

    def run_block(self, fi, b, pending, rets):
        ent = self.take(pending, b)
        st, g, env = ent
        env = dict(env)
        for i in fi.blocks[b]:
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Unsupported("step budget")
            op = i["op"]
            if "line" in i:
                self.where = (i.get("file", fi.file), i["line"])
            if op == "phi":
                continue
            if op == "br":
                if "cond" not in i:
                    self.add_pending(fi, pending, i["t"], b, st, g, env)
                    return
                c = self.ref(i["cond"], env, st)
                self.branch(fi, b, i["t"], i["f"], c, st, g, env, pending)
                return
            if op == "switch":
                c = self.ref(i["cond"], env, st)
                c = self.boolish(c)
                rest = g
                first = True
                bytgt = {}
                for r, t in i["cases"]:
                    k = int(r[1])
                    cond = map1(lambda v: self.eqc(v, k), c)
                    gt = AND(g, cond)
                    rest = AND(rest, NOT(cond))
                    if AND(self.ctx, gt) is FALSE:
                        continue
                    bytgt.setdefault(t, []).append(gt)
                if AND(self.ctx, rest) is not FALSE:
                    bytgt.setdefault(i["default"], []).append(rest)
                for t, gs in bytgt.items():
                    gg = gs[0]
                    for x in gs[1:]:
                        gg = OR(gg, x)
                    self.add_pending(fi, pending, t, b, st.fork(), gg, env)
                return
            if op == "ret":
                v = self.ref(i["a"][0], env, st) if i["a"] else None
                rets.append((st, g, v))
                return
            if op == "unreachable":
                return
            if op == "resume":
                return
            if op in ("call", "invoke"):
                r = self.do_call(fi, i, env, st, g)
                if r is None:
                    return          # never returns
                v, st, g2 = r
                if g2 is not TRUE:
                    g = AND(g, g2)
                if v is not None:
                    env[i["id"]] = v
                if op == "invoke":
                    raise Unsupported("invoke")
                continue
            v = self.exec(op, i, env, st, g)
            if v is not None:
                env[i["id"]] = v

    def eqc(self, v, k):
        if isinstance(v, int):
            return TRUE if v == k else FALSE
        if isinstance(v, Poly):
            return map1(lambda s: TRUE if s == 0 else FALSE, sgn_poly(psub(v, k)))
        return boolatom(term("eq", v, k))

    def boolish(self, c):
        for v in leaves(c):
            if v is UNDEF:
                return map1(lambda x: self.undef_bool() if x is UNDEF else leaf(x), c)
        return c

    def undef_bool(self):
        self.fresh += 1
        return boolatom("undef#%d" % self.fresh)

    def branch(self, fi, b, t, f, c, st, g, env, pending):
        if t == f:
            self.add_pending(fi, pending, t, b, st, g, env)
            return
        c = self.tobool(c, g)
        if c is TRUE:
            self.add_pending(fi, pending, t, b, st, g, env)
            return
        if c is FALSE:
            self.add_pending(fi, pending, f, b, st, g, env)
            return
        gt = AND(g, c)
        gf = AND(g, NOT(c))
        if AND(self.ctx, gt) is FALSE:
            self.add_pending(fi, pending, f, b, st, g, env)
            return
        if AND(self.ctx, gf) is FALSE:
            self.add_pending(fi, pending, t, b, st, g, env)
            return
        s2 = st.fork()
        self.add_pending(fi, pending, t, b, st, gt, env)
        self.add_pending(fi, pending, f, b, s2, gf, env)

    def tobool(self, c, g):
        def f(v):
            if isinstance(v, int):
                return TRUE if v & 1 else FALSE
            if v is UNDEF:
                self.note("undef-branch", AND(g, is_leaf(c, v)), "branch on an uninitialised value")
                return self.undef_bool()
            if isinstance(v, Poly):
                return map1(lambda s: FALSE if s == 0 else TRUE, sgn_poly(v))
            if isinstance(v, Term):
                return boolatom(v)
            raise Unsupported("branch on %s" % (v,))
        return map1(f, c)

    # ---------------------------------------------------------------- instructions
    def exec(self, op, i, env, st, g):
        R = self.ref
        if op == "alloca":
            o = self.new_obj(i["asz"], "stack", i["aty"])
            if CELL[0] is not None:
                self.frames[-1].append(o)
            return leaf(ptr(o, 0))
        if op == "load":
            return self.load(st, R(i["a"][0], env, st), i["sz"], i["ty"], g)
        if op == "store":
            v = R(i["a"][0], env, st)
            self.store(st, R(i["a"][1], env, st), i["ssz"], v, g)
            return None
        if op == "getelementptr":
            base = R(i["a"][0], env, st)
            off = i.get("off")
            if off is None:
                raise Unsupported("gep")
            for r, sc in i.get("var", ()):
                idx = R(r, env, st)
                base = map2(lambda p, x: self.padd(p, x, sc), base, idx)
            if off:
                base = map1(lambda p: self.padd(p, off, 1), base)
            return base
        if op in ("add", "sub", "mul"):
            a, b = R(i["a"][0], env, st), R(i["a"][1], env, st)
            w = width(i["ty"])
            return map2(lambda x, y: self.arith(op, x, y, w), a, b)
        if op in ("and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv",
                  "srem", "urem"):
            a, b = R(i["a"][0], env, st), R(i["a"][1], env, st)
            w = width(i["ty"])
            return map2(lambda x, y: self.bitop(op, x, y, w), a, b)
        if op == "icmp":
            a, b = R(i["a"][0], env, st), R(i["a"][1], env, st)
            pred = i["pred"]
            w = width(i["oty"]) or 64
            return map2(lambda x, y: self.icmp(pred, x, y, w, g), a, b)
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr",
                  "freeze"):
            a = R(i["a"][0], env, st)
            if op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
                return a
            wf = width(i["oty"])
            wt = width(i["ty"])

            def cv(v):
                if isinstance(v, int):
                    if op == "sext":
                        return leaf(wrap(v, wf))
                    if op == "zext":
                        return leaf(v & ((1 << wf) - 1))
                    if wt == 1:
                        return leaf(v & 1)
                    return leaf(wrap(v, wt))
                if isinstance(v, Poly) and op == "trunc" and wt < 32:
                    return leaf(self.opq("trunc%d" % wt, v))
                return leaf(v)
            r = map1(cv, a)
            if wf == 1 and op == "sext":
                r = map1(lambda v: leaf(-1) if v in (1, -1) else leaf(v), r)
            if wf == 1 and op == "zext":
                r = map1(lambda v: leaf(1) if isinstance(v, int) and v & 1 else leaf(v), r)
            return r
        if op == "select":
            c, a, b = [R(x, env, st) for x in i["a"]]
            c = self.tobool(c, g)
            return self.ite_val(c, a, b)
        if op == "extractvalue":
            a = R(i["a"][0], env, st)
            off = i["off"]
            if a.a is None and isinstance(a.v, Agg):
                for o, z, x in a.v.c:
                    if o == off:
                        return x
                raise Unsupported("extractvalue")
            if a.a is None and a.v is UNDEF:
                return UND
            raise Unsupported("extractvalue of %r" % (a,))
        if op == "insertvalue":
            a, v = R(i["a"][0], env, st), R(i["a"][1], env, st)
            off = i["off"]
            if a.a is None and isinstance(a.v, Agg):
                cells = [c for c in a.v.c if c[0] != off]
            elif a.a is None and a.v is UNDEF:
                cells = []
            else:
                raise Unsupported("insertvalue")
            cells.append((off, i["ssz"], v))
            return leaf(agg_intern(tuple(sorted(cells, key=lambda c: c[0]))))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = R(i["a"][0], env, st), R(i["a"][1], env, st)
            return map2(lambda x, y: self.fop(op, x, y), a, b)
        if op == "fneg":
            a = R(i["a"][0], env, st)
            return map1(lambda x: UND if x is UNDEF else leaf(term("fneg", x)), a)
        if op == "fcmp":
            a, b = R(i["a"][0], env, st), R(i["a"][1], env, st)
            return map2(lambda x, y: self.fcmp(i["pred"], x, y), a, b)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            a = R(i["a"][0], env, st)
            return map1(lambda x: self.fconv(op, x, i["ty"]), a)
        raise Unsupported("instruction " + op)

    def fconv(self, op, x, ty):
        if x is UNDEF:
            return UND
        if op in ("sitofp", "uitofp"):
            if isinstance(x, int):
                return leaf(fl(canon_float(str(x))))
            return leaf(term("tofp", x))
        if op in ("fpext",):
            return leaf(x)
        if isinstance(x, Fl) and op == "fptrunc":
            return leaf(x)
        if op in ("fptosi", "fptoui"):
            return leaf(self.opq(op, x))
        return leaf(term(op, x))

    def fop(self, op, x, y):
        if x is UNDEF or y is UNDEF:
            return UND
        if op in ("fadd", "fmul") and key_of(x) > key_of(y):
            x, y = y, x
        return leaf(term(op, x, y))

    def fcmp(self, pred, x, y):
        if x is UNDEF or y is UNDEF:
            return UND
        if isinstance(x, Fl) and isinstance(y, Fl):
            a, b = float(x.v), float(y.v)
            p = pred[1:]
            if pred in ("ord", "uno"):
                return leaf(1 if pred == "ord" else 0)
            r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b,
                 "gt": a > b, "ge": a >= b}[p]
            return leaf(int(r))
        p = pred
        neg = False
        flip = {"gt": "lt", "ge": "le"}
        if p[1:] in flip:
            p = p[0] + flip[p[1:]]
            x, y = y, x
        # complement of unordered predicates
        comp = {"ult": ("ole", True), "ule": ("olt", True), "une": ("oeq", True)}
        if p in comp:
            p, neg = comp[p]
            if p in ("ole", "olt"):
                x, y = y, x
        if p in ("oeq", "ueq", "one") and key_of(x) > key_of(y):
            x, y = y, x
        r = boolatom(term("f" + p, x, y))
        return NOT(r) if neg else r

    def opq(self, op, *args):
        """Opaque integer function of values -> Poly variable."""
        t = term(op, *args)
        return var("<%s>" % tstr(t), None, lambda e: opq_eval(e, t), t)

    def padd(self, p, x, sc):
        if p is UNDEF or x is UNDEF:
            return UND
        if isinstance(p, Ptr):
            if isinstance(x, int):
                if isinstance(p.off, int):
                    return leaf(ptr(p.obj, p.off + x * sc))
            raise Unsupported("pointer plus symbolic index")
        if isinstance(p, int) and isinstance(x, int):
            return leaf(p + x * sc)
        raise Unsupported("gep on %s" % (p,))

    def arith(self, op, x, y, w):
        if isinstance(x, int) and isinstance(y, int):
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            return leaf(wrap(r, w))
        if x is UNDEF or y is UNDEF:
            return UND
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "sub" and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj == y.obj:
                    return leaf(x.off - y.off)
                return leaf(self.opq("ptrdiff", x, y))
            if op == "add" and isinstance(x, Ptr) and isinstance(y, int):
                return leaf(ptr(x.obj, x.off + y))
            if op == "add" and isinstance(y, Ptr) and isinstance(x, int):
                return leaf(ptr(y.obj, y.off + x))
            if op == "sub" and isinstance(x, Ptr) and isinstance(y, int):
                if x.obj == 0:
                    return leaf(wrap(x.off - y, w))
                return leaf(ptr(x.obj, x.off - y))
            return leaf(self.opq("ptr" + op, x, y))
        if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)):
            r = padd(x, y) if op == "add" else psub(x, y) if op == "sub" else pmul(x, y)
            return leaf(r)
        return leaf(self.opq(op, x, y))

    def sbit(self, v):
        """sign bit of an integer value: 1 negative, 0 non-negative, None."""
        if isinstance(v, int):
            return 1 if v < 0 else 0
        if isinstance(v, Poly):
            s = sgn_poly(v)
            ls = set(leaves(s))
            if ls == {-1}:
                return 1
            if -1 not in ls:
                return 0
        return None

    def bitop(self, op, x, y, w):
        if isinstance(x, int) and isinstance(y, int):
            m = (1 << w) - 1
            ux, uy = x & m, y & m
            if op == "and":
                r = ux & uy
            elif op == "or":
                r = ux | uy
            elif op == "xor":
                r = ux ^ uy
            elif op == "shl":
                if uy >= w:
                    return UND
                r = ux << uy
            elif op == "lshr":
                r = ux >> uy if uy < w else 0
            elif op == "ashr":
                r = wrap(x, w) >> min(uy, w - 1)
            elif op == "udiv":
                if uy == 0:
                    return UND
                r = ux // uy
            elif op == "urem":
                if uy == 0:
                    return UND
                r = ux % uy
            else:
                sx, sy = wrap(x, w), wrap(y, w)
                if sy == 0:
                    return UND
                q = abs(sx) // abs(sy)
                if (sx < 0) != (sy < 0):
                    q = -q
                r = q if op == "sdiv" else sx - q * sy
            return leaf(wrap(r, w) if w > 1 else r & 1)
        if x is UNDEF or y is UNDEF:
            if op == "and" and (x == 0 or y == 0):
                return ZERO
            return UND
        if x is NULL:
            x = 0
        if y is NULL:
            y = 0
        if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
            if op == "and" and isinstance(x, Ptr) and isinstance(y, int):
                # alignment masks
                if y == -y & -y or True:
                    if y < 0 and (-y) & (-y - 1) == 0:
                        return leaf(ptr(x.obj, x.off & y))
                    if 0 <= y < 16:
                        return leaf(x.off & y)
            if op in ("urem",) and isinstance(y, int) and y == 1:
                return ZERO
            return leaf(self.opq(op, x, y))
        if op == "and":
            if x == 0 or y == 0:
                return ZERO
            if x == -1:
                return leaf(y)
            if y == -1:
                return leaf(x)
            if x is y:
                return leaf(x)
        elif op == "or":
            if isinstance(x, int) and x == 0:
                return leaf(y)
            if isinstance(y, int) and y == 0:
                return leaf(x)
            if x is y:
                return leaf(x)
        elif op == "xor":
            if isinstance(x, int) and x == 0:
                return leaf(y)
            if isinstance(y, int) and y == 0:
                return leaf(x)
            if isinstance(x, int) and x == -1 and w > 1:
                return leaf(psub(pneg(y), 1)) if isinstance(y, Poly) else leaf(self.opq(op, x, y))
            if isinstance(y, int) and y == -1 and w > 1:
                return leaf(psub(pneg(x), 1)) if isinstance(x, Poly) else leaf(self.opq(op, x, y))
            if x is y:
                return ZERO
        elif op == "shl" and isinstance(y, int) and isinstance(x, Poly):
            return leaf(pmul(x, 1 << y))
        elif op in ("udiv", "sdiv") and isinstance(y, int) and y == 1:
            return leaf(x)
        elif op in ("urem", "srem") and isinstance(y, int) and y == 1:
            return ZERO
        elif op in ("sdiv", "udiv") and isinstance(y, int) and isinstance(x, Poly) and all(
                c % y == 0 for c in x.t.values()):
            return leaf(mkpoly({m: c // y for m, c in x.t.items()}))
        if op in ("and", "or", "xor"):
            if key_of(x) > key_of(y):
                x, y = y, x
            sx, sy = self.sbit(x), self.sbit(y)
            sb = None
            if op == "xor" and sx is not None and sy is not None:
                sb = sx ^ sy
            elif op == "and":
                if sx == 0 or sy == 0:
                    sb = 0
                elif sx == 1 and sy == 1:
                    sb = 1
            elif op == "or":
                if sx == 1 or sy == 1:
                    sb = 1
                elif sx == 0 and sy == 0:
                    sb = 0
                if sb is None and isinstance(x, Poly) and isinstance(y, Poly):
                    # zero exactly when both are
                    def one(i, j):
                        if i == 0 or j == 0:
                            return leaf(y if i == 0 else x)
                        t = term("or", x, y)
                        return leaf(var("<%s%s>" % ("-" if min(i, j) < 0 else "+", tstr(t)),
                                        (-1,) if min(i, j) < 0 else (1,), lambda e: opq_eval(e, t), t))
                    return map2(one, sgn_poly(x), sgn_poly(y))
            t = term(op, x, y)
            rng = None
            if sb == 1:
                rng = (-1,)
            elif sb == 0:
                rng = (0, 1)
            return leaf(var("<%s>" % tstr(t), rng, lambda e: opq_eval(e, t), t))
        return leaf(self.opq(op + (str(w) if op in ("lshr",) else ""), x, y))

    def icmp(self, pred, x, y, w, g):
        if isinstance(x, int) and isinstance(y, int):
            m = (1 << w) - 1
            if pred[0] == "u":
                x, y = x & m, y & m
            elif w == 1:
                x, y = x & 1, y & 1
            r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y,
                 "gt": x > y, "ge": x >= y}[pred if pred in ("eq", "ne") else pred[1:]]
            return TRUE if r else FALSE
        if x is UNDEF or y is UNDEF:
            return UND
        if isinstance(x, int) and x == 0 and isinstance(y, (Ptr, Fn)):
            x = NULL
        if isinstance(y, int) and y == 0 and isinstance(x, (Ptr, Fn)):
            y = NULL
        if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
            if isinstance(x, (Ptr, Fn)) and isinstance(y, (Ptr, Fn)):
                if pred == "eq":
                    return TRUE if x is y else FALSE
                if pred == "ne":
                    return FALSE if x is y else TRUE
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    kx, ky = (x.obj, x.off), (y.obj, y.off)
                    if x.obj != y.obj:
                        self.note("ptr-order", g, "%s %s %s" % (x, pred, y))
                    r = {"lt": kx < ky, "le": kx <= ky, "gt": kx > ky,
                         "ge": kx >= ky}[pred[1:]]
                    return TRUE if r else FALSE
            if pred in ("eq", "ne") and (isinstance(x, int) or isinstance(y, int)):
                return TRUE if pred == "ne" else FALSE
            return boolatom(term("icmp" + pred, x, y))
        if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)):
            if pred[0] == "u":
                # unsigned: assume both non-negative when so declared; otherwise
                # treat a symbolic operand as a non-negative size
                if isinstance(x, int):
                    x &= (1 << w) - 1
                if isinstance(y, int):
                    y &= (1 << w) - 1
            s = sgn_poly(psub(x, y))
            p = pred if pred in ("eq", "ne") else pred[1:]
            f = {"eq": lambda v: v == 0, "ne": lambda v: v != 0,
                 "lt": lambda v: v < 0, "le": lambda v: v <= 0,
                 "gt": lambda v: v > 0, "ge": lambda v: v >= 0}[p]
            return map1(lambda v: TRUE if f(v) else FALSE, s)
        return boolatom(term("icmp" + pred, x, y))

    # ---------------------------------------------------------------- call instruction
    def do_call(self, fi, i, env, st, g):
        self.calls_seen += 1
        callee = i["callee"]
        args = None
        if callee[0] == "fn":
            name = callee[1]
        else:
            t = self.ref(callee, env, st)
            fs = set(leaves(t))
            if len(fs) != 1 or not isinstance(next(iter(fs)), Fn):
                # multi-target indirect call: dispatch with gating
                return self.indirect(fi, i, env, st, g, t)
            name = next(iter(fs)).name
        args = [self.ref(r, env, st) for r in i["a"]]
        for k, bv in enumerate(i.get("byval", ())):
            if bv:
                o = self.new_obj(bv, "stack", "byval")
                st.wcells(o)
                self.memcpy(st, leaf(ptr(o, 0)), args[k], bv, g)
                args[k] = leaf(ptr(o, 0))
        return self.call_named(name, args, st, g, i)

    def indirect(self, fi, i, env, st, g, t):
        args = [self.ref(r, env, st) for r in i["a"]]
        res = []
        for v in sorted(set(leaves(t)), key=lambda x: x.name if isinstance(x, Fn) else ""):
            c = map1(lambda x: TRUE if x is v else FALSE, t)
            gg = AND(g, c)
            if AND(self.ctx, gg) is FALSE:
                continue
            if not isinstance(v, Fn):
                self.note("badcall", gg, str(v))
                continue
            s2 = st.fork()
            r = self.call_named(v.name, args, s2, gg, i)
            if r is None:
                continue
            res.append((r[1], AND(c, r[2]), r[0]))
        if not res:
            return None
        s = merge_states([(r[0], r[1]) for r in res])
        gg, v = res[0][1], res[0][2]
        for r in res[1:]:
            if v is not None:
                v = self.ite_val(gg, v, r[2])
            gg = OR(gg, r[1])
        return v, s, gg

    def call_named(self, name, args, st, g, inst):
        if self.on_call is not None:
            r = self.on_call(self, name, args, st, g, inst)
            if r is not None:
                return r
        h = self.intr_cache.get(name, 0)
        if h == 0:
            f = self.p.f.get(name)
            h = self.intr_cache[name] = self.intr.lookup(name, f) if self.intr else None
        if h is not None:
            r = h(self, st, args, g, inst)
            if r is NORETURN:
                return None
            return r, st, TRUE
        if name in self.p.f and self.p.f[name]["blocks"]:
            r = self.call(name, args, st, g)
            if r is None:
                return None
            return r
        self.unknown[name] = self.unknown.get(name, 0) + 1
        raise Unsupported("call to unknown external " + name)


NORETURN = object()
BIGINT_SIZE = 24
_aggs = {}


def agg_intern(cells):
    k = tuple((o, z, x.id) for o, z, x in cells)
    a = _aggs.get(k)
    if a is None:
        a = agg(cells)
        _aggs[k] = a
    return a


_keys = {}


def key_of(x):
    if isinstance(x, int):
        return (0, x)
    if isinstance(x, Poly):
        return (1, x.id)
    if isinstance(x, Term):
        return (2, x.id)
    if isinstance(x, Fl):
        return (3, x.v)
    k = _keys.get(id(x))
    if k is None:
        k = _keys[id(x)] = len(_keys)
    return (4, k)


def canon_float(s):
    try:
        return repr(float(s))
    except ValueError:
        return s


def opq_eval(e, t):
    """Deterministic stand-in value of an opaque integer term in a witness."""
    args = tuple(e.leafval(a) for a in t.args)
    if all(isinstance(a, int) for a in args):
        if t.op == "xor":
            return args[0] ^ args[1]
        if t.op == "and":
            return args[0] & args[1]
        if t.op == "or":
            return args[0] | args[1]
        if t.op == "urem" and args[1]:
            return args[0] % args[1]
        if t.op == "ashr":
            return args[0] >> args[1]
        if t.op.startswith("trunc"):
            return wrap(args[0], int(t.op[5:]))
    if e.chooser is None:
        raise KeyError("opaque " + t.op)
    k = ("opq", t.op, args)
    r = e.bmemo.get(k)
    if r is None:
        r = e.bmemo[k] = e.chooser(t)
    return r
