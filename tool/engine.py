"""Trace-partitioned abstract interpretation of monomorphic MIR over a Herbrand-term domain.

Values are the hash-consed terms of terms.py; memory is a map from roots (locals, pointees) to values; control flow
splits a trace where a branch condition is not decided by the facts the trace already established; loops are widened to
loop symbols until the state at the header is subsumed.  Calls are followed into bodies the policy admits, modelled for a
fixed table of standard-library functions, and otherwise left as uninterpreted function symbols over everything they can
read (with everything they can write replaced by such a symbol).  Every call, store through an unknown pointer and drop
of a type with a destructor is recorded as an event, in order, with its call site."""
import re, sys
from terms import *
import terms as TM

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


class Unsupported(Exception):
    pass


def ref(root, path=(), meta=None):
    return mk("ref", root, tuple(path), meta)


def isref(t):
    return t.k == "ref"


def agg(n, var, fs):
    return mk("agg", n, var, tuple(fs))


OPT = "core::option::Option"
RES = "core::result::Result"
NONE = agg(OPT, 0, ())


def some(x):
    return agg(OPT, 1, (x,))


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


U = lambda v: c(64, v)

# ---------------------------------------------------------------- sequences


def noalias_default(i):
    return False


class SeqCfg:
    noalias = staticmethod(noalias_default)


def slen(x):
    k = x.k
    if k == "agg":
        return U(len(x.a[2]))
    if k == "push":
        return op("add", 64, slen(x.a[0]), U(1))
    if k == "pop":
        return op("add", 64, slen(x.a[0]), U(-1))
    if k == "store" or k == "cpw":
        return slen(x.a[0])
    if k == "sub":
        return x.a[2]
    if k == "trc":
        return x.a[1]
    if k == "rsz":
        return x.a[1]
    if k == "seqrep":
        return x.a[1]
    if k == "str":
        return U(len(x.a[0].encode()))
    if k == "cat":
        return op("add", 64, slen(x.a[0]), slen(x.a[1]))
    if k == "upd" and x.a[0].k in ("v", "deref", "fld", "sel", "call", "after"):
        return mk("len", x.a[0])
    return mk("len", x)


def distinct(i, j):
    d = op("sub", 64, i, j)
    return isc(d) and d.a[1] != 0


def spush(x, v):
    if x.k == "agg" and x.a[0] in ("vec", "[]"):
        return agg("vec", None, x.a[2] + (v,))
    if x.k == "pop" and slast(x.a[0]) is v:
        return x.a[0]
    return mk("push", x, v)


def spop(x):
    if x.k == "push":
        return x.a[0]
    if x.k == "agg" and x.a[2]:
        return agg(x.a[0], None, x.a[2][:-1])
    return mk("pop", x)


def slast(x):
    if x.k == "push":
        return x.a[1]
    if x.k == "agg" and x.a[2]:
        return x.a[2][-1]
    if x.k == "store" and SeqCfg.noalias(x.a[1]):
        return slast(x.a[0])
    if x.k == "pop":
        n, y = 0, x
        while y.k == "pop" or (y.k == "store" and SeqCfg.noalias(y.a[1])):
            if y.k == "pop":
                n += 1
            y = y.a[0]
        z = y
        for _ in range(n):
            z = mk("pop", z)
        return mk("last", z)
    return mk("last", x)


def sel(x, i):
    k = x.k
    if k == "agg":
        if isc(i) and i.a[1] < len(x.a[2]):
            return x.a[2][i.a[1]]
        if x.a[2] and all(y is x.a[2][0] for y in x.a[2]):
            return x.a[2][0]
    elif k == "push":
        if i is slen(x.a[0]):
            return x.a[1]
        if SeqCfg.noalias(i) or distinct(i, slen(x.a[0])):
            return sel(x.a[0], i)
    elif k == "pop" or k == "trc":
        return sel(x.a[0], i)
    elif k == "store":
        if x.a[1] is i:
            return x.a[2]
        if distinct(x.a[1], i):
            return sel(x.a[0], i)
        if SeqCfg.noalias(x.a[1]) != SeqCfg.noalias(i):
            return sel(x.a[0], i)
    elif k == "sub":
        return sel(x.a[0], op("add", 64, x.a[1], i))
    elif k == "seqrep":
        return x.a[0]
    elif k == "upd":
        pass
    elif k == "ite":
        return ite(x.a[0], sel(x.a[1], i), sel(x.a[2], i))
    return mk("sel", x, i)


def sstore(x, i, v):
    k = x.k
    if k == "agg" and isc(i) and i.a[1] < len(x.a[2]):
        l = list(x.a[2])
        l[i.a[1]] = v
        return agg(x.a[0], None, l)
    if k == "push":
        if i is slen(x.a[0]):
            return spush(x.a[0], v)
        if SeqCfg.noalias(i) or distinct(i, slen(x.a[0])):
            return mk("push", sstore(x.a[0], i, v), x.a[1])
    if k == "pop" and SeqCfg.noalias(i):
        return mk("pop", sstore(x.a[0], i, v))
    if k == "store":
        if x.a[1] is i:
            return sstore(x.a[0], i, v)
        if distinct(x.a[1], i) and key(i) < key(x.a[1]):
            return mk("store", sstore(x.a[0], i, v), x.a[1], x.a[2])
    if sel(x, i) is v:
        return x
    return mk("store", x, i, v)


def strunc(x, n):
    l = slen(x)
    if l is n:
        return x
    y = x
    for _ in range(8):
        if y.k == "push":
            y = y.a[0]
        elif y.k == "agg" and y.a[2]:
            y = agg(y.a[0], None, y.a[2][:-1])
        else:
            break
        if slen(y) is n:
            return y
    # only whole-suffix removals that are syntactically visible are simplified
    d = op("sub", 64, l, n)
    if isc(d) and 0 < d.a[1] < 8:
        y = x
        for _ in range(d.a[1]):
            y = spop(y)
        return y
    while x.k == "trc":
        x = x.a[0]
    return mk("trc", x, n)


def ssub(x, start, n):
    if isc(start) and start.a[1] == 0 and slen(x) is n:
        return x
    if x.k == "agg" and isc(start) and isc(n) and start.a[1] + n.a[1] <= len(x.a[2]):
        return agg("[]", None, x.a[2][start.a[1]:start.a[1] + n.a[1]])
    if x.k == "sub":
        return ssub(x.a[0], op("add", 64, x.a[1], start), n)
    return mk("sub", x, start, n)


TM.REBUILD.update({"len": slen, "push": spush, "pop": spop, "last": slast, "sel": sel, "store": sstore, "trc": strunc, "sub": ssub})


# ---------------------------------------------------------------- state


class State:
    __slots__ = ("frames", "locs", "mem", "known", "ne", "conds", "ev", "visits", "n", "steps", "blocks")

    def copy(self):
        s = State.__new__(State)
        s.frames = list(self.frames)
        s.locs = [dict(x) for x in self.locs]
        s.mem = dict(self.mem)
        s.known = dict(self.known)
        s.ne = dict(self.ne)
        s.conds = self.conds
        s.ev = self.ev
        s.visits = dict(self.visits)
        s.n = self.n
        s.steps = self.steps
        s.blocks = self.blocks
        return s


class Ev:
    __slots__ = ("kind", "name", "args", "ret", "site", "prev", "nconds", "extra", "post")

    def __init__(self, kind, name, args, ret, site, prev, conds, extra=None):
        self.kind, self.name, self.args, self.ret = kind, name, args, ret
        self.site, self.prev, self.nconds, self.extra = site, prev, conds, extra
        self.post = None


class Outcome:
    __slots__ = ("kind", "value", "st", "why")

    def __init__(self, kind, value, st, why=None):
        self.kind, self.value, self.st, self.why = kind, value, st, why

    @property
    def conds(self):
        out, c_ = [], self.st.conds
        while c_ is not None:
            out.append(c_[1:])
            c_ = c_[0]
        out.reverse()
        return [x for x in out]

    @property
    def events(self):
        out, e = [], self.st.ev
        while e is not None:
            out.append(e)
            e = e.prev
        out.reverse()
        return out

    def mem(self, root):
        return self.st.mem.get(root)


def conds_list(c_):
    out = []
    while c_ is not None:
        out.append(c_[1:])
        c_ = c_[0]
    out.reverse()
    return out


INT_RE = re.compile(r"^core::num::<impl ([iu])(8|16|32|64|128|size)>::(\w+)$")
FLT_RE = re.compile(r"^(?:core::num|std|core|std::num|core::f32|core::f64|std::f32|std::f64).*<impl (f32|f64)>::(\w+)$")

STD_OPAQUE = re.compile(r"^(core::fmt|alloc::fmt|alloc::string|std::|log::|alloc::raw_vec|core::str|alloc::str|alloc::collections|core::slice::sort|<.*core::fmt::)")

UN_PURE = {"leading_zeros", "trailing_zeros", "count_ones", "swap_bytes", "reverse_bits"}


class Frame:
    __slots__ = ("fn", "fid", "blk", "dest", "target", "site")

    def __init__(self, fn, fid, blk, dest, target, site):
        self.fn, self.fid, self.blk, self.dest, self.target, self.site = fn, fid, blk, dest, target, site


def soff(t):
    """(base, signed small offset) of a 64-bit sum"""
    if t.k == "op" and t.a[0] == "add" and len(t.a) == 4 and isc(t.a[3]):
        k = t.a[3].a[1]
        if k >> 63:
            k -= 1 << 64
        return (t.a[2], k) if -64 < k < 64 else (None, 0)
    return (t, 0)


class Engine:
    def __init__(self, db, inline=None, models=None, max_outcomes=4000, max_steps=400000, max_depth=40, max_visits=4, opaque=None,
                 follow_std=True, assume_capacity=False, join=None, havoc=None, concrete=None, prune=None):
        self.db = db
        self.ctors = {}
        self.chains = {}
        self.tags = {}
        self.joint, self.jl = None, []
        self.inline_policy = inline
        self.models = models or {}
        self.max_outcomes = max_outcomes
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.max_visits = max_visits
        self.follow_std = follow_std
        self.assume_capacity = assume_capacity
        self.opaque = re.compile(opaque) if opaque else None
        self.opaque_seen = {}
        self.splitter = None
        self.join = join
        self.havoc = havoc
        self.prune = prune              # prune(conds list) -> True: the trace is infeasible (checked at loop heads and panics)
        self.concrete_fn = None         # only the loops of these functions
        self.concrete = concrete        # peel this many iterations of every loop, then cut the trace
        self.joins, self.parked, self.iters, self.entry = {}, {}, [], {}
        self.force, self.missed, self.ptrs = {}, {}, set()
        self.pending = []
        self.inlined = set()
        self.tyinfo = {}
        self.dropimpls = set()
        for cx in db.ctxs.values():
            for tr, selfty, d in cx.impls:
                if tr and tr.endswith("ops::Drop"):
                    self.dropimpls.add(selfty.split("<")[0])

    # ------------------------------------------------------------ types
    def tdef(self, fn, ti):
        return fn.ctx.types[ti]

    def place_ty(self, fn, pl):
        if isinstance(pl, int):
            return fn.locals[pl]
        ti = fn.locals[pl[0]]
        for p in pl[1:]:
            t = fn.ctx.types[ti] if ti is not None and ti >= 0 else None
            if p == "*":
                if t["k"] in ("ref", "ptr"):
                    ti = t["e"]
                elif t["k"] == "struct" and t.get("a"):
                    ti = t["a"][0]
                else:
                    ti = None
            elif p[0] == ".":
                ti = p[2]
            elif p[0] in ("i", "ci"):
                ti = t.get("e")
            elif p[0] == "oc":
                ti = p[1]
        return ti

    def op_ty(self, fn, o):
        if o[0] in ("c", "m"):
            return self.place_ty(fn, o[1])
        if o[0] == "k":
            return o[1]
        return None

    def width(self, t):
        k = t["k"]
        if k == "bool":
            return 1
        if k == "char":
            return 32
        if k in ("int", "uint"):
            return t["w"]
        if k == "float":
            return "f%d" % t["w"]
        return None

    def variants(self, t):
        return tuple(int(v[1]) for v in t["v"])

    # ------------------------------------------------------------ constants
    def const(self, ctx, ti, v):
        t = ctx.types[ti]
        k = t["k"]
        if isinstance(v, bool):
            return c(1, int(v))
        if isinstance(v, int):
            w = self.width(t)
            if w is None:
                if k in ("ptr", "ref", "fnptr"):
                    w = 64
                else:
                    return mk("cint", v, t.get("def", k))
            if isinstance(w, str):
                return mk("cf", w, v)
            return c(w, v)
        h = v[0]
        if h == "f":
            return mk("cf", "f%d" % t["w"], int(v[1]))
        if h == "a":
            var = v[1]
            vs = t["v"]
            fts = [x[1] for x in vs[var][2]]
            fs = [self.const(ctx, a, b) for a, b in zip(fts, v[2])]
            return agg(t["def"], var if k == "enum" else None, fs)
        if h == "t":
            if k == "tuple":
                return agg("()", None, [self.const(ctx, a, b) for a, b in zip(t["f"], v[1])])
            if k == "array":
                return agg("[]", None, [self.const(ctx, t["e"], b) for b in v[1]])
            if k in ("slice",):
                return agg("[]", None, [self.const(ctx, t["e"], b) for b in v[1]])
            return mk("cagg", str(v))
        if h == "r":
            e = ctx.types[t["e"]] if "e" in t else None
            if e is None:
                return mk("cref", str(v))
            val = self.const(ctx, t["e"], v[1])
            return ref(mk("K", val), (), slen(val) if e["k"] in ("array", "slice") and val.k == "agg" else None)
        if h == "s":
            return ref(mk("K", mk("str", v[1])), (), None)
        if h == "fn":
            return mk("fnv", ctx.syms[v[1]]["name"], ctx.crate, v[1])
        if h == "static":
            return ref(mk("S", v[1]), (), None)
        if h == "z":
            if k == "fndef":
                return mk("fndef", t.get("def"), ctx.crate, t.get("sym") if t.get("sym") is not None else -1)
            if k == "closure":
                return agg("closure:" + t["def"], None, ())
            if k == "tuple":
                return UNIT
            if k == "array":
                return agg("[]", None, ())
            if k in ("struct",):
                return self.zst(ctx, ti)
            return mk("z", t.get("def", k))
        if h == "param":
            return mk("cparam", str(v[1]))
        return mk("cunk", "%s:%s" % (t.get("def", k), str(v)))

    def zst(self, ctx, ti):
        t = ctx.types[ti]
        if t["k"] == "struct":
            try:
                return agg(t["def"], None, [self.zst(ctx, f[1]) for f in t["v"][0][2]])
            except Exception:
                return mk("z", t["def"])
        if t["k"] == "tuple":
            return agg("()", None, [self.zst(ctx, f) for f in t["f"]])
        return mk("z", t.get("def", t["k"]))

    # ------------------------------------------------------------ memory
    def get_root(self, st, root):
        if root.k == "L":
            v = st.locs[root.a[0]].get(root.a[1])
            return UNINIT if v is None else v
        if root.k == "K":
            return root.a[0]
        v = st.mem.get(root)
        if v is None:
            return mk("deref", root)
        return v

    def set_root(self, st, root, v):
        if root.k == "L":
            st.locs[root.a[0]][root.a[1]] = v
        else:
            st.mem[root] = v

    def rd(self, x, path):
        for p in path:
            x = self.rd1(x, p)
        return x

    def rd1(self, x, p):
        h = p[0]
        if h == "sl":
            return x.a[2][p[2]] if x.k == "agg" and x.a[0] in ("slice_iter", "into_iter") else mk("fld", x, p[1], p[2])
        if h == "f":
            if x.k in ("push", "pop", "store"):
                return mk("fld", x, p[1], p[2])
            if x.k == "agg" and x.a[0] == "slice_iter" and p[2] < 2:
                # the representation the standard library sees: two element pointers
                q = mk("ipt", x.a[2][0], x.a[2][1 + p[2]])
                return agg("core::ptr::NonNull", None, (q,)) if p[2] == 0 else q
            if x.k == "agg" and x.a[0] == "vec":
                if p[2] == 1:
                    return slen(x)
                return mk("fld", x, None, 0)
            return fld(x, p[1], p[2])
        if h == "i":
            return sel(x, p[1])
        if h == "sr":
            return ssub(x, p[1], p[2])
        raise Unsupported("path %r" % (p,))

    def wr(self, x, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == "sl":
            y = list(x.a[2])
            y[p[2]] = self.wr(y[p[2]], path[1:], v)
            return agg(x.a[0], None, tuple(y))
        if p[0] == "f":
            cur = self.rd1(x, p) if len(path) > 1 else None
            if x is UNINIT or x.k == "uninit":
                x = mk("uninit")
            if x.k == "agg" and x.a[0] == "slice_iter" and p[2] < 2:
                q = self.ptr_of(self.wr(cur, path[1:], v))
                if q.k != "ipt" or q.a[0] is not x.a[2][0]:
                    raise Unsupported("a slice iterator moved to another slice")
                y = list(x.a[2])
                y[1 + p[2]] = q.a[1]
                return agg("slice_iter", None, tuple(y))
            return setfld(x, p[1], p[2], self.wr(cur, path[1:], v))
        if p[0] == "i":
            cur = sel(x, p[1]) if len(path) > 1 else None
            return sstore(x, p[1], self.wr(cur, path[1:], v))
        if p[0] == "sr":
            # writing a whole subrange
            if len(path) == 1:
                if p[1].k == "c" and p[1].a[1] == 0 and slen(x) is p[2]:
                    return v
                if isc(p[2]) and p[2].a[1] <= 8:
                    for j in range(p[2].a[1]):
                        x = sstore(x, op("add", 64, p[1], U(j)), sel(v, U(j)))
                    return x
                return mk("splice", x, p[1], p[2], v)
            q = path[1]
            if q[0] == "i":
                return self.wr(x, (("i", op("add", 64, p[1], q[1])),) + tuple(path[2:]), v)
            if q[0] == "sr":
                return self.wr(x, (("sr", op("add", 64, p[1], q[1]), q[2]),) + tuple(path[2:]), v)
        raise Unsupported("write path %r" % (path,))

    def load(self, st, r):
        """value behind a reference term"""
        if r.k == "ref":
            return self.rd(self.get_root(st, r.a[0]), r.a[1])
        v = st.mem.get(r)
        return mk("deref", r) if v is None else v

    def store(self, st, r, v):
        if r.k == "ref":
            root, path = r.a[0], r.a[1]
            if root.k in ("K",):
                return
            self.set_root(st, root, self.wr(self.get_root(st, root), path, v))
        else:
            st.mem[r] = v

    def resolve(self, st, fr, pl):
        """place -> (root, path, meta)"""
        fn = fr.fn
        if isinstance(pl, int):
            return mk("L", fr.fid, pl), (), None
        root, path, meta = mk("L", fr.fid, pl[0]), (), None
        var = None
        for p in pl[1:]:
            if p == "*":
                v = self.rd(self.get_root(st, root), path)
                v = self.ptr_of(v)
                if v.k == "ipt":
                    r = v.a[0] if v.a[0].k == "ref" else ref(v.a[0], (), None)
                    v = ref(r.a[0], r.a[1] + (("i", v.a[1]),), None)
                if v.k == "op" and v.a[0] == "ptrOffset" and v.a[2].k == "ref":
                    # element of the sequence the base pointer starts
                    r = v.a[2]
                    if r.a[1] and r.a[1][-1][0] == "i":
                        v = ref(r.a[0], r.a[1][:-1] + (("i", op("add", 64, r.a[1][-1][1], v.a[3])),), None)
                    elif r.a[2] is not None or r.a[1] and r.a[1][-1][0] == "sr" or self.rd(self.get_root(st, r.a[0]), r.a[1]).k == "agg" \
                            and self.rd(self.get_root(st, r.a[0]), r.a[1]).a[0] in ("vec", "[]"):
                        v = ref(r.a[0], r.a[1] + (("i", v.a[3]),), None)
                if v.k == "ref":
                    root, path, meta = v.a[0], v.a[1], v.a[2]
                else:
                    root, path, meta = v, (), None
                var = None
            elif p[0] == ".":
                path = path + (("f", var, p[1]),)
                var = None
                meta = None
            elif p[0] == "d":
                var = p[1]
            elif p[0] == "i":
                idx = self.get_root(st, mk("L", fr.fid, p[1]))
                path = path + (("i", idx),)
                meta = None
            elif p[0] == "ci":
                if p[3]:
                    x = self.rd(self.get_root(st, root), path)
                    n = meta if meta is not None else slen(x)
                    path = path + (("i", op("sub", 64, n, U(p[1]))),)
                else:
                    path = path + (("i", U(p[1])),)
                meta = None
            elif p[0] == "ss":
                x = self.rd(self.get_root(st, root), path)
                n = meta if meta is not None else slen(x)
                ln = op("sub", 64, n, U(p[1] + p[2])) if p[3] else U(p[2] - p[1])
                path = path + (("sr", U(p[1]), ln),)
                meta = ln
            elif p[0] == "oc":
                pass
            else:
                raise Unsupported("projection %r" % (p,))
        return root, path, meta

    def ptr_of(self, v):
        """look through Box/NonNull/Unique wrappers"""
        n = 0
        while v.k == "agg" and len(v.a[2]) >= 1 and n < 6 and v.a[0] in (
                "alloc::boxed::Box", "core::ptr::Unique", "core::ptr::NonNull", "core::ptr::unique::Unique",
                "core::ptr::non_null::NonNull"):
            v = v.a[2][0]
            n += 1
        return v

    def read_place(self, st, fr, pl):
        if isinstance(pl, int):
            v = st.locs[fr.fid].get(pl)
            return UNINIT if v is None else v
        root, path, meta = self.resolve(st, fr, pl)
        return self.rd(self.get_root(st, root), path)

    def write_place(self, st, fr, pl, v):
        if isinstance(pl, int):
            st.locs[fr.fid][pl] = v
            return
        root, path, meta = self.resolve(st, fr, pl)
        if root.k == "K":
            return
        self.set_root(st, root, self.wr(self.get_root(st, root), path, v))

    def operand(self, st, fr, o):
        h = o[0]
        if h in ("c", "m"):
            return self.read_place(st, fr, o[1])
        if h == "k":
            return self.const(fr.fn.ctx, o[1], o[2])
        if h == "rc":
            return c(1, 1 if "Overflow" in str(o[1]) else 0)
        raise Unsupported("operand %r" % (o,))

    # ------------------------------------------------------------ rvalues
    def scalar(self, t, x):
        return x

    def binop(self, fn, o, t, a, b, tb=None):
        w = self.width(t)
        sg = t["k"] == "int"
        s = "_s" if sg else "_u"
        if isinstance(w, str):
            nm = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "Eq": "eq", "Ne": "ne",
                  "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}[o]
            return fop(nm, w, a, b)
        if w is None:
            pa, pb = (self.ptr_of(x) if x.k == "agg" else x for x in (a, b))
            if pa.k == "ipt" and o == "Offset":
                return mk("ipt", pa.a[0], op("add", 64, pa.a[1], pb))
            if pa.k == "ipt" and pb.k == "ipt" and pa.a[0] is pb.a[0] and o in ("Eq", "Ne"):
                i, n = pa.a[1], pb.a[1]
                if i.k == "len" or (isc(i) and i.a[1] and not isc(n)):
                    i, n = n, i
                x = op("lt_u", 64, i, n)
                return x if o == "Ne" else op("not", 1, x)
            if o == "Eq":
                return TRUE if a is b else mk("op", "peq", 64, a, b)
            if o == "Ne":
                return op("not", 1, TRUE if a is b else mk("op", "peq", 64, a, b))
            return mk("op", "ptr" + o, 64, a, b)
        o = o.replace("Unchecked", "")
        o = o.replace("WithOverflow", "")
        if o == "Add":
            return op("add", w, a, b)
        if o == "Sub":
            return op("sub", w, a, b)
        if o == "Mul":
            return op("mul", w, a, b)
        if o == "Div":
            return op("div" + s, w, a, b)
        if o == "Rem":
            return op("rem" + s, w, a, b)
        if o == "BitAnd":
            return op("and", w, a, b)
        if o == "BitOr":
            return op("or", w, a, b)
        if o == "BitXor":
            return op("xor", w, a, b)
        if o in ("Shl", "Shr"):
            wb = self.width(tb) if tb else w
            b = self.amt(b, wb, w)
            return op("shl" if o == "Shl" else "shr" + s, w, a, b)
        if o == "Eq":
            return op("eq", w, a, b)
        if o == "Ne":
            return op("ne", w, a, b)
        if o in ("Lt", "Le", "Gt", "Ge"):
            if w == 1:
                s = "_u"
            return op(o.lower() + s, w, a, b)
        if o == "Cmp":
            return mk("op", "cmp" + s, w, a, b)
        if o == "Offset":
            return mk("op", "ptroff", 64, a, b)
        raise Unsupported("binop " + o)

    def amt(self, b, wb, w):
        b = strip_amt(b, w)
        bw = self.termw(b, wb)
        if bw == w:
            return b
        if bw < w:
            return zext(w, bw, b)
        return strip_amt(trunc(w, b, bw), w) if False else mk("op", "trunc", w, b, bw) if not isc(b) else c(w, b.a[1])

    def termw(self, t, dflt):
        if t.k == "c":
            return t.a[0]
        if t.k == "op":
            if t.a[0] in ("zext", "sext", "trunc", "add", "mul", "and", "or", "xor", "neg", "not", "shl", "shr_s", "shr_u", "rotl", "rotr") and isinstance(t.a[1], int):
                return t.a[1]
            if t.a[0] == "bits":
                return 32 if t.a[1] == "f32" else 64
        if t.k in ("v", "fld", "sel", "last", "deref", "call", "lp", "len") and t in self.tyinfo:
            return self.tyinfo[t]
        return dflt

    def cast(self, st, fr, kind, x, tf, tt, ctx):
        kf, kt = tf["k"], tt["k"]
        if kind == "IntToInt":
            wf, wt = self.width(tf), self.width(tt)
            if wf is None:
                return mk("op", "cast", str(wt), x)
            if wf == wt:
                return x
            if wt < wf:
                return trunc(wt, x, wf)
            return sext(wt, wf, x) if kf == "int" else zext(wt, wf, x)
        if kind == "IntToFloat":
            return fop("itof_" + ("s" if kf == "int" else "u"), self.width(tt), x, self.width(tf))
        if kind == "FloatToInt":
            if x.k == "op" and x.a[0] == "f.trunc":
                x = x.a[2]
            return mk("op", "ftoi_sat_" + ("s" if kt == "int" else "u"), self.width(tt), x, self.width(tf))
        if kind == "FloatToFloat":
            return mk("op", "ftof", self.width(tt), x, self.width(tf))
        if kind.startswith("PointerCoercion(Unsize"):
            if x.k == "ref":
                e = ctx.types[tf["e"]] if "e" in tf else None
                if e and e["k"] == "array":
                    return ref(x.a[0], x.a[1], U(e["n"])) if isinstance(e["n"], int) else x
            return x
        if kind.startswith("PointerCoercion(Reify"):
            return x
        if kind.startswith("PointerCoercion(Closure"):
            return x
        if kind == "PtrToPtr" or kind.startswith("PointerCoercion") or kind == "FnPtrToPtr":
            return x
        if "Transmute" in kind:
            return self.transmute(x, tf, tt, ctx)
        return mk("op", "cast:" + kind, str(kt), x)

    def transmute(self, x, tf, tt, ctx):
        kf, kt = tf["k"], tt["k"]
        if kf == "float" and kt in ("int", "uint"):
            return bits_of("f%d" % tf["w"], x)
        if kt == "float" and kf in ("int", "uint"):
            return from_bits("f%d" % tt["w"], x)
        if kf in ("int", "uint") and kt in ("int", "uint"):
            return x
        if kf in ("bool", "char") and kt in ("int", "uint"):
            return zext(tt["w"], self.width(tf), x)
        if kf in ("ref", "ptr", "struct") and kt in ("ref", "ptr"):
            return self.ptr_of(x)
        if kf in ("ref", "ptr") and kt == "struct":
            return agg(tt["def"], None, (x,))
        if kf == "struct" and kt == "struct" and tf.get("def") == tt.get("def"):
            return x
        nf, nt = self.tyname(ctx, tf), self.tyname(ctx, tt)
        if nf == nt:
            return x
        if x.k == "tm" and x.a[0] == nt and x.a[1] == nf:
            return x.a[2]
        return mk("tm", nf, nt, x)

    def tyname(self, ctx, t, d=0):
        k = t["k"]
        if k in ("int", "uint", "float"):
            return "%s%d" % (k[0], t["w"])
        if "def" in t:
            return t["def"] + ("<" + ",".join(self.tyname(ctx, ctx.types[a], d + 1) for a in t.get("a", []) if isinstance(a, int)) + ">" if t.get("a") and d < 5 else "")
        if k in ("ref", "ptr", "slice"):
            return k + " " + self.tyname(ctx, ctx.types[t["e"]], d + 1)
        if k == "array":
            return "[%s;%s]" % (self.tyname(ctx, ctx.types[t["e"]], d + 1), t["n"])
        if k == "tuple":
            return "(" + ",".join(self.tyname(ctx, ctx.types[a], d + 1) for a in t["f"]) + ")"
        return k

    def rvalue(self, st, fr, rv):
        fn = fr.fn
        h = rv[0]
        if h == "use":
            return self.operand(st, fr, rv[1])
        if h == "emptyvec":
            return EMPTY
        if h in ("ref", "addr"):
            root, path, meta = self.resolve(st, fr, rv[2])
            if root.k not in ("L", "K", "S", "H") and not path and meta is None:
                return root     # reborrow of an opaque pointer
            if meta is None:
                # value of array type keeps no meta; slices reached through fields have their own length
                pass
            return ref(root, path, meta)
        if h == "agg":
            kind, ti, var, ops = rv[1], rv[2], rv[3], rv[4]
            vs = [self.operand(st, fr, o) for o in ops]
            t = fn.ctx.types[ti] if ti is not None else None
            if kind == "array":
                return agg("[]", None, vs)
            if kind == "tuple":
                return agg("()", None, vs)
            if kind == "closure":
                return agg("closure:" + t["def"] + "|" + str(t.get("sym")) + "|" + fn.ctx.crate, None, vs)
            if kind == "adt":
                return agg(t["def"], var if t["k"] == "enum" else None, vs)
            if kind == "union":
                return vs[0]
            if kind == "rawptr":
                p, m = vs
                if p.k == "ref" and m.k != "agg":
                    q = p.a[1]
                    return ref(p.a[0], q, m)
                return p if m is UNIT else mk("rawptr", p, m)
            raise Unsupported("agg " + kind)
        if h in ("bin", "cbin"):
            ta = self.op_ty(fn, rv[2])
            tb = self.op_ty(fn, rv[3])
            t = fn.ctx.types[ta]
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            o = rv[1]
            if h == "cbin" or o.endswith("WithOverflow"):
                o = o.replace("WithOverflow", "")
                v = self.binop(fn, o, t, a, b, fn.ctx.types[tb])
                w = self.width(t)
                s = "_s" if t["k"] == "int" else "_u"
                return agg("()", None, (v, op("ovf_%s%s" % (o.lower(), s), w, a, b)))
            return self.binop(fn, o, t, a, b, fn.ctx.types[tb] if tb is not None else None)
        if h == "un":
            o = rv[1]
            x = self.operand(st, fr, rv[2])
            if o == "PtrMetadata":
                return self.ptr_len(st, x)
            oti = self.op_ty(fn, rv[2])
            if oti is None:
                return op("not", 1, x)
            t = fn.ctx.types[oti]
            if o == "Not":
                return op("not", self.width(t), x)
            if o == "Neg":
                w = self.width(t)
                return fop("neg", w, x) if isinstance(w, str) else op("neg", w, x)
            raise Unsupported("un " + o)
        if h == "cast":
            x = self.operand(st, fr, rv[2])
            tf = fn.ctx.types[self.op_ty(fn, rv[2])]
            return self.cast(st, fr, rv[1], x, tf, fn.ctx.types[rv[3]], fn.ctx)
        if h == "discr":
            x = self.read_place(st, fr, rv[1])
            pt = self.place_ty(fn, rv[1])
            if pt is None:
                raise Unsupported("type of place %r in %s (%s)" % (rv[1], fn.name, fn.ctx.types[fn.locals[rv[1][0]]]))
            return self.discr(x, fn.ctx.types[pt])
        if h == "len":
            root, path, meta = self.resolve(st, fr, rv[1])
            return meta if meta is not None else slen(self.rd(self.get_root(st, root), path))
        if h == "repeat":
            x = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int):
                if n <= 64:
                    return agg("[]", None, (x,) * n)
                return mk("seqrep", x, U(n))
            return mk("seqrep", x, mk("cparam", str(n)))
        if h == "tls":
            return mk("tls", str(rv[1:]))
        raise Unsupported("rvalue " + h)

    def discr(self, x, t):
        if t["k"] == "enum":
            return discr(x, self.variants(t))
        if t["k"] == "bool":
            return x
        return U(0)

    def ptr_len(self, st, x):
        x = self.ptr_of(x)
        if x.k == "ref":
            if x.a[2] is not None:
                return x.a[2]
            return slen(self.rd(self.get_root(st, x.a[0]), x.a[1]))
        if x.k == "rawptr":
            return x.a[1]
        return slen(self.load(st, x))

    # ------------------------------------------------------------ facts
    def simp(self, st, t):
        if isc(t):
            return t
        k = st.known.get(t)
        if k is not None:
            return k
        if t.k == "op" and t.a[0] == "not":
            k = st.known.get(t.a[2])
            if k is not None and t.a[1] == 1:
                return op("not", 1, k)
        if st.known and t.k in ("op", "ite", "discr", "len"):
            r = self.ksubst(st, t, 0)
            if r is not t:
                return self.simp(st, r)
        if t.k == "op":
            n = t.a[0]
            if n == "eq":
                a, b = t.a[2], t.a[3]
                if isc(b) and b.a[1] in st.ne.get(a, ()):
                    return FALSE
            elif n == "not" and t.a[1] == 1:
                r = self.simp(st, t.a[2])
                if isc(r):
                    return op("not", 1, r)
            elif n == "lt_u":
                r = self.decide_lt(st, t.a[1], t.a[2], t.a[3])
                if r is not None:
                    return TRUE if r else FALSE
            elif n == "ovf_add_u":
                r = self.decide_ovf(st, t.a[1], t.a[2], t.a[3])
                if r is not None:
                    return TRUE if r else FALSE
        return t

    def decide_lt(self, st, w, a, b):
        if self.assume_capacity and a.k == "cap":
            return False
        ma = umax(a, w)
        if isc(b):
            if ma < b.a[1]:
                return True
        # x < x + c, x - c < x (no wrap: the sums of lengths and small constants stay below 2^64)
        if b.k == "op" and b.a[0] == "add" and len(b.a) == 4 and isc(b.a[3]) and b.a[2] is a and 0 < b.a[3].a[1] < 64 and ma + 64 < (1 << w):
            return True
        if a.k == "op" and a.a[0] == "add" and len(a.a) == 4 and isc(a.a[3]) and a.a[2] is b and 0 < a.a[3].a[1] < 64 and umax(b, w) + 64 < (1 << w):
            return False
        # x < x - c is false when x >= c
        if b.k == "op" and b.a[0] == "add" and len(b.a) == 4 and isc(b.a[3]) and b.a[2] is a and w == 64 and b.a[3].a[1] >> 63:
            m_ = (1 << 64) - b.a[3].a[1]
            ne = st.ne.get(a, ())
            if m_ < 16 and (st.known.get(mk("op", "lt_u", w, a, c(w, m_))) is FALSE or all(v in ne for v in range(m_))):
                return False
        # base + i against base + j, with base known large enough for the negative offsets
        if w == 64 and a.k == b.k == "op":
            (ba, ia), (bb, ib) = soff(a), soff(b)
            if ba is bb and ba is not None and umax(ba, w) + 64 < (1 << w):
                need = max(-ia, -ib, 0)
                if need <= 16 and self.lower(st, ba, need):
                    return ia < ib
        # x < y + k' known for a neighbouring constant
        if st.known:
            base, k = (b.a[2], b.a[3].a[1]) if b.k == "op" and b.a[0] == "add" and len(b.a) == 4 and isc(b.a[3]) else (b, 0)
            if k < 16 and not isc(base):
                for j in range(0, 6):
                    if j == k:
                        continue
                    f = st.known.get(mk("op", "lt_u", w, a, mk("op", "add", w, base, c(w, j)) if j else base))
                    if f is FALSE and j > k:
                        return False
                    if f is TRUE and j < k:
                        return True
        # a known fact x < y with y <= b and a <= x decides a < b; y <= x decides not
        f = st.known.get(mk("op", "lt_u", w, b, a))
        if f is TRUE:
            return False
        # len >= 0 and known nonzero
        if isc(a) and a.a[1] == 0:
            return None
        if isc(a):
            # k < x for x = y + c: from known facts on y only when ne covers the small values
            ne = st.ne.get(b, ())
            if all(v in ne for v in range(0, a.a[1] + 1)) and a.a[1] < 16:
                return True
            if b.k == "op" and b.a[0] == "add" and isc(b.a[-1]) and len(b.a) == 4:
                base, off = b.a[2], b.a[-1].a[1]
                if off >> 63:
                    # base - m with base != 0..m-1 known
                    m_ = (1 << 64) - off
                    ne = st.ne.get(base, ())
                    if all(v in ne for v in range(0, m_ + a.a[1] + 1)) and m_ + a.a[1] < 16:
                        return True
                elif umax(base, w) + off < (1 << w) and a.a[1] < off:
                    return True
        if isc(b):
            # x < k false when x is known to avoid 0..k-1
            ne = st.ne.get(a, ())
            if b.a[1] < 16 and all(v in ne for v in range(0, b.a[1])):
                return False
        return None

    def lower(self, st, x, m):
        """x >= m is known"""
        if m <= 0:
            return True
        ne = st.ne.get(x, ())
        if all(v in ne for v in range(m)):
            return True
        for j in range(m, m + 6):
            if st.known.get(mk("op", "lt_u", 64, x, c(64, j))) is FALSE:
                return True
        for t, v in st.known.items():
            # x >= y + j without wrapping
            if v is FALSE and t.k == "op" and t.a[0] == "lt_u" and t.a[1] == 64 and t.a[2] is x:
                y, j = soff(t.a[3])
                if y is not None and j >= m and (st.known.get(mk("op", "ovf_add_u", 64, c(64, j), y)) is FALSE or st.known.get(mk("op", "ovf_add_u", 64, y, c(64, j))) is FALSE):
                    return True
        return False

    def decide_ovf(self, st, w, a, b):
        if isc(a) and a.a[1] == 1:
            for t, v in st.known.items():
                if v is TRUE and t.k == "op" and t.a[0] == "lt_u" and t.a[2] is b:
                    return False
        return None

    def ksubst(self, st, t, d):
        if d > 12 or t.k in ("c", "v", "cf"):
            return t
        r = st.known.get(t)
        if r is not None:
            return r
        if t.k == "op" or t.k == "ite" or t.k == "len":
            ch = False
            a = list(t.a)
            for i, x in enumerate(a):
                if isinstance(x, T):
                    y = self.ksubst(st, x, d + 1)
                    if y is not x:
                        a[i] = y
                        ch = True
            if ch:
                return rebuild(t.k, tuple(a))
        return t

    def assume(self, st, t, val):
        """record t == val (const term) in a state; False if contradictory"""
        if isc(t):
            return t is val
        k = st.known.get(t)
        if k is not None:
            return k is val
        if isc(val) and val.a[1] in st.ne.get(t, ()):
            return False
        st.known[t] = val
        if t.k == "op" and t.a[1] == 1:
            n = t.a[0]
            if n == "not":
                return self.assume(st, t.a[2], op("not", 1, val))
            if n == "and" and val is TRUE:
                return all(self.assume(st, x, TRUE) for x in t.a[2:])
            if n == "or" and val is FALSE:
                return all(self.assume(st, x, FALSE) for x in t.a[2:])
        if t.k == "op" and t.a[0] == "eq":
            a, b = t.a[2], t.a[3]
            if isc(b):
                if val is TRUE:
                    if a not in st.known:
                        return self.assume(st, a, b)
                else:
                    st.ne[a] = st.ne.get(a, frozenset()) | {b.a[1]}
        return True

    def assume_ne(self, st, t, vals):
        if isc(t):
            return t.a[1] not in vals
        k = st.known.get(t)
        if k is not None:
            return k.a[1] not in vals
        st.ne[t] = st.ne.get(t, frozenset()) | frozenset(vals)
        return True

    # ------------------------------------------------------------ run
    def start(self, fn, args, pre=None):
        st = State()
        st.frames = []
        st.locs = []
        st.mem = {}
        st.known = {}
        st.ne = {}
        st.conds = None
        st.ev = None
        st.visits = {}
        st.n = 0
        st.steps = 0
        st.blocks = None
        self.push_frame(st, fn, args, None, None, None)
        if pre:
            pre(self, st)
        return st

    def push_frame(self, st, fn, args, dest, target, site):
        fid = len(st.frames)
        fr = Frame(fn, fid, 0, dest, target, site)
        st.frames.append(fr)
        d = {}
        for i, a in enumerate(args):
            d[i + 1] = a
            if dest is None and fn.ctx.types[fn.locals[i + 1]]["k"] in ("ref", "ptr"):
                self.ptrs.add(a)
        # zero-sized locals are never assigned
        st.locs.append(d)
        st.visits = {k: v for k, v in st.visits.items() if k[0] < fid}

    def run(self, fn, args, pre=None):
        work = [self.start(fn, args, pre)]
        outs = []
        self.joins, self.parked, self.iters, self.entry = {}, {}, [], {}
        self.total_steps = 0
        while work or self.parked:
            st = work.pop() if work else self.parked.pop(next(reversed(self.parked)))
            self.step_all(st, work, outs)
            if len(outs) > self.max_outcomes:
                raise Limit("more than %d traces in %s" % (self.max_outcomes, fn.name))
        return outs

    def resume(self, st):
        """continue one suspended trace on its own budget"""
        work, outs = [st], []
        self.total_steps = 0
        while work:
            s = work.pop()
            self.step_all(s, work, outs)
            if len(outs) > self.max_outcomes:
                raise Limit("more than %d traces in %s" % (self.max_outcomes, st.frames[0].fn.name))
        return outs

    def finish(self, outs, kind, val, st, why=None):
        if kind == "panic" and self.prune and self.prune(conds_list(st.conds)):
            return
        outs.append(Outcome(kind, val, st, why))

    def site(self, fr, line):
        return (fr.fn.deff, fr.fn.file, line)

    def step_all(self, st, work, outs):
        while True:
            self.total_steps += 1
            if self.total_steps > self.max_steps:
                raise Limit("step budget exceeded in %s" % st.frames[0].fn.name)
            fr = st.frames[-1]
            fn = fr.fn
            if fr.blk in fn.loop_headers():
                if not self.loop_head(st, fr, outs):
                    return
            stmts, t = fn.blocks[fr.blk][0], fn.blocks[fr.blk][1]
            locs = st.locs[fr.fid]
            for s in stmts:
                h = s[1]
                if h == "=":
                    v = self.rvalue(st, fr, s[3])
                    pl = s[2]
                    if isinstance(pl, int):
                        locs[pl] = v
                    else:
                        self.write_place(st, fr, pl, v)
                elif h == "sd":
                    pl = s[2]
                    ty = fn.ctx.types[self.place_ty(fn, pl)]
                    x = self.read_place(st, fr, pl)
                    nf = len(ty["v"][s[3]][2])
                    self.write_place(st, fr, pl, agg(ty["def"], s[3], [fld(x, s[3], i) if x.k != "uninit" else UNINIT for i in range(nf)]))
                elif h in ("pushl", "pushr", "pushn"):
                    v = self.operand(st, fr, s[3])
                    if h == "pushl":
                        locs[s[2]] = spush(locs[s[2]], v)
                    else:
                        r = self.read_place(st, fr, s[2])
                        if h == "pushn":
                            if r.k != "ref" or not r.a[1] or r.a[1][-1] != ("f", None, 1):
                                raise Unsupported("a vector's length by %s" % show(r)[:80])
                            r = ref(r.a[0], r.a[1][:-1])
                        x = self.load(st, r)
                        if x.k == "agg" and x.a[0] != "vec" and x.a[0].split("::")[-1] == "Vec" and isc(x.a[2][1]) and x.a[2][1].a[1] == 0:
                            x = EMPTY
                        self.store(st, r, spush(x, v))
                elif h == "cno":
                    self.copy_nonoverlapping(st, fr, s)
            k = t[1]
            if k == "goto":
                st.frames[-1] = self.at(fr, t[2])
                continue
            if k == "sw":
                if not self.switch(st, fr, t, work):
                    return
                continue
            if k == "call":
                r = self.call(st, fr, t, work, outs)
                if not r:
                    return
                continue
            if k == "ret":
                ret = locs.get(0)
                if ret is None:
                    ret = UNIT
                if len(st.frames) == 1:
                    self.finish(outs, "return", ret, st)
                    return
                st.frames.pop()
                st.locs.pop()
                up = st.frames[-1]
                self.write_place(st, up, fr.dest, ret) if fr.dest is not None else None
                if callable(fr.target):
                    r = fr.target(self, st, ret, work, outs)
                    if not r:
                        return
                    continue
                if fr.target is None:
                    self.finish(outs, "panic", None, st, ("diverge", fn.deff))
                    return
                st.frames[-1] = self.at(up, fr.target)
                continue
            if k == "assert":
                cond = self.simp(st, self.operand(st, fr, t[2]))
                exp = t[3]
                good = c(1, 1 if exp else 0)
                if isc(cond):
                    if cond is good:
                        st.frames[-1] = self.at(fr, t[5])
                        continue
                    self.finish(outs, "panic", None, self.cond(st, cond, good is FALSE, fr, t), self.assert_why(st, fr, t))
                    return
                st2 = st.copy()
                self.take(st2, cond, op("not", 1, good), fr, t[0])
                self.finish(outs, "panic", None, st2, self.assert_why(st2, fr, t))
                if not self.take(st, cond, good, fr, t[0]):
                    return
                st.frames[-1] = self.at(fr, t[5])
                continue
            if k == "drop":
                self.do_drop(st, fr, t)
                st.frames[-1] = self.at(fr, t[3])
                continue
            if k in ("unreach",):
                return      # infeasible by construction of MIR
            if k in ("resume", "abort"):
                self.finish(outs, "panic", None, st, (k, fn.deff, fn.file, t[0]))
                return
            raise Unsupported("terminator " + k)

    def cond(self, st, *a):
        return st

    def assert_why(self, st, fr, t):
        m = t[4]
        args = []
        for x in m[1:]:
            if isinstance(x, list):
                try:
                    args.append(self.operand(st, fr, x))
                except Exception:
                    pass
        return ("assert:" + m[0] + (":" + m[1] if m[0] == "ovf" else ""), fr.fn.deff, fr.fn.file, t[0], tuple(args))

    def at(self, fr, b):
        return Frame(fr.fn, fr.fid, b, fr.dest, fr.target, fr.site)

    def take(self, st, term, val, fr, line):
        if not self.assume(st, term, val):
            return False
        st.conds = (st.conds, term, val, (fr.fn.deff, line))
        return True

    def switch(self, st, fr, t, work):
        x = self.simp(st, self.operand(st, fr, t[2]))
        cases = t[3]
        w = None
        if isc(x):
            for v, b in cases:
                if x.a[1] == (v & ((1 << x.a[0]) - 1)):
                    st.frames[-1] = self.at(fr, b)
                    return True
            st.frames[-1] = self.at(fr, t[4])
            return True
        if x.k == "ite" and isc(x.a[1]) and isc(x.a[2]):
            res = []
            for tv, cv in ((FALSE, x.a[2]), (TRUE, x.a[1])):
                s = st.copy() if tv is FALSE else st
                if not self.take(s, x.a[0], tv, fr, t[0]):
                    continue
                tgt = t[4]
                for v, b in cases:
                    if cv.a[1] == (v & ((1 << cv.a[0]) - 1)):
                        tgt = b
                s.frames[-1] = self.at(fr, tgt)
                res.append(s)
            for s in res:
                if s is not st:
                    work.append(s)
            return st in res
        # types
        ti = self.op_ty(fr.fn, t[2])
        w = self.width(fr.fn.ctx.types[ti]) or 64
        if x.k == "discr":
            w = 64
        ne = st.ne.get(x, frozenset())
        live = [(v, b) for v, b in cases if (v & ((1 << w) - 1)) not in ne]
        other_ok = True
        if x.k == "discr":
            allv = set(y & ((1 << 64) - 1) for y in x.a[1])
            rest = allv - set(v & ((1 << 64) - 1) for v, _ in cases) - ne
            if not rest:
                other_ok = False
        elif w == 1:
            other_ok = (1 if cases[0][0] == 0 else 0) not in ne
            rest = None
        else:
            rest = None
        if other_ok and self.trivially_unreach(fr.fn, t[4]):
            other_ok = False
        branches = []
        for v, b in live:
            branches.append(("eq", v & ((1 << w) - 1), b))
        if other_ok:
            branches.append(("other", None, t[4]))
        n = len(branches)
        res = []
        for i, (kind, v, b) in enumerate(branches):
            s = st.copy() if i < n - 1 else st
            if kind == "eq":
                o = self.take(s, x, c(w, v), fr, t[0])
            else:
                vals = [y & ((1 << w) - 1) for y, _ in cases]
                if w == 1:
                    o = self.take(s, x, c(1, 1 - cases[0][0]), fr, t[0])
                elif rest is not None and len(rest) == 1:
                    o = self.take(s, x, c(64, list(rest)[0]), fr, t[0])
                else:
                    o = self.assume_ne(s, x, vals)
                    s.conds = (s.conds, mk("notin", x, tuple(sorted(vals))), TRUE, (fr.fn.deff, t[0]))
            if o:
                s.frames[-1] = self.at(fr, b)
                res.append(s)
        if not res:
            return False
        if self.splitter is not None and self.splitter(self, x, fr):
            self.pending.extend(res)
            return False
        for s in res:
            if s is not st:
                work.append(s)
        return st in res

    def trivially_unreach(self, fn, b):
        return not fn.blocks[b][0] and fn.blocks[b][1][1] == "unreach"

    # ------------------------------------------------------------ loops
    def loop_head(self, st, fr, outs):
        key_ = (fr.fid, fr.blk)
        v = st.visits.get(key_)
        if self.concrete is not None and (self.concrete_fn is None or self.concrete_fn(fr.fn)):
            n = v or 0
            if n and self.prune and self.prune(conds_list(st.conds)):
                return False
            if n > self.concrete:
                self.finish(outs, "cut", None, st, ("loop", fr.fn.deff))
                return False
            st.visits[key_] = n + 1
            return True
        snap = (dict(st.locs[fr.fid]), dict(st.mem), [dict(x) for x in st.locs[:fr.fid]])
        if v is None and self.havoc and self.havoc(fr.fn):
            self.havoc_head(st, fr)
            st.visits[key_] = (-1, (dict(st.locs[fr.fid]), dict(st.mem), [dict(x) for x in st.locs[:fr.fid]]), st.conds)
            return True
        if v is not None and v[0] == -1:
            self.iters.append((fr.fn.deff, v[1], st, v[2]))
            self.unfixed(fr, v[1], st)
            return False
        if v is None:
            st.visits[key_] = (1, snap, (dict(st.known), dict(st.ne), st.conds, st.ev) if self.join and self.join(fr.fn) else None)
            st.ev = Ev("loop", fr.fn.deff, (), None, self.site(fr, fr.fn.blocks[fr.blk][1][0]), st.ev, st.conds)
            return True
        n, old, entry = v
        if n == 0:
            st.visits[key_] = (2, old, entry)
            return True
        if n == 1 and self.unroll(st, fr, old):
            st.visits[key_] = (1, snap, v[2])
            return True
        if n > self.max_visits and entry is None:
            self.finish(outs, "cut", None, st, ("loop", fr.fn.deff))
            return False
        gk = None
        if entry is not None:
            # join of all traces: one generalised state per loop entry, re-analysed when it grows
            gk = (key_, id(entry))
            g = self.joins.get(gk)
            if g is not None:
                if n > 1 and old is not g[0]:
                    # an iteration of a state that has been generalised since
                    pass
                bef, old = old, g[0]
            else:
                bef = old
            if n > 1:
                self.iters.append((fr.fn.deff, bef, st.copy(), st.conds))
        tag = [0]
        ch = False
        hdr = "%s@%d#%d" % (fr.fn.deff.split("::")[-1], fr.blk, n if gk is None else 0)

        def merge(o, nw, path):
            nonlocal ch
            if o is nw:
                return nw
            if o is None or nw is None:
                return nw if o is None else nw
            if o.k == "agg" and nw.k == "agg" and o.a[0] == nw.a[0] and o.a[1] == nw.a[1] and len(o.a[2]) == len(nw.a[2]) and len(o.a[2]) > 0 and o.a[0] != "vec":
                return agg(nw.a[0], nw.a[1], [merge(x, y, path + ".%d" % i) for i, (x, y) in enumerate(zip(o.a[2], nw.a[2]))])
            if nw.k == "ref" and o.k == "ref" and nw.a[0] is o.a[0] and len(nw.a[1]) == len(o.a[1]) and all(p[0] == q[0] for p, q in zip(nw.a[1], o.a[1])):
                comps = []
                for i, (p, q) in enumerate(zip(o.a[1], nw.a[1])):
                    if p == q:
                        comps.append(q)
                    else:
                        comps.append((q[0],) + tuple(merge(a, b, path + "r%d" % i) if isinstance(b, T) else b for a, b in zip(p[1:], q[1:])))
                return ref(nw.a[0], comps, nw.a[2] if o.a[2] is nw.a[2] else None)
            if o.k == "upd" or nw.k == "upd":
                ob = o.a[0] if o.k == "upd" else o
                nb = nw.a[0] if nw.k == "upd" else nw
                if ob is nb:
                    ks = {}
                    for z in (o, nw):
                        if z.k == "upd":
                            for kk, _ in z.a[1]:
                                ks[kk] = 1
                    r = nb
                    for (var, i) in ks:
                        r = setfld(r, var, i, merge(fld(o, var, i), fld(nw, var, i), path + ".%d" % i))
                    return r
            if o.k == "lp" and o.a[0] == hdr_prefix(o) and o.a[1] == path:
                return o
            ch = True
            self.tyinfo.setdefault(mk("lp", hdr, path), self.tyinfo.get(nw, self.tyinfo.get(o, self.termw(nw, self.termw(o, 64)))))
            return mk("lp", hdr, path)

        def hdr_prefix(o):
            p = "%s@%d#" % (fr.fn.deff.split("::")[-1], fr.blk)
            return o.a[0] if isinstance(o.a[0], str) and o.a[0].startswith(p) else None

        ol, om, oo = old
        newl = dict(st.locs[fr.fid])
        for kk, vv in st.locs[fr.fid].items():
            if kk in ol:
                newl[kk] = merge(ol[kk], vv, "_%d" % kk)
            # locals first assigned in the loop body are dead at the header
        for kk in list(newl):
            if kk not in ol:
                del newl[kk]
        newm = dict(st.mem)
        for kk, vv in st.mem.items():
            o = om.get(kk, mk("deref", kk))
            newm[kk] = merge(o, vv, "*" + show(kk))
        newo = []
        for fi, d in enumerate(st.locs[:fr.fid]):
            nd = dict(d)
            for kk, vv in d.items():
                if kk in oo[fi]:
                    nd[kk] = merge(oo[fi][kk], vv, "^%d_%d" % (fi, kk))
            newo.append(nd)
        if gk is not None:
            if not ch and gk in self.joins:
                return False
            newsnap = (newl, newm, newo)
            cnt = self.joins[gk][1] + 1 if gk in self.joins else 1
            if cnt > 60:
                raise Limit("no stable loop state in %s" % fr.fn.name)
            self.joins[gk] = (newsnap, cnt)
            st.locs[:fr.fid] = [dict(x) for x in newo]
            st.locs[fr.fid] = dict(newl)
            st.mem = dict(newm)
            st.known, st.ne, st.conds, st.ev = dict(entry[0]), dict(entry[1]), entry[2], entry[3]
            st.visits[key_] = (0, newsnap, entry)
            st.visits = {k: v for k, v in st.visits.items() if not (k[0] == fr.fid and k[1] != fr.blk)}
            st.ev = Ev("loop*", fr.fn.deff, (), None, self.site(fr, fr.fn.blocks[fr.blk][1][0]), st.ev, st.conds)
            self.parked[gk] = st
            return False
        if not ch and n > 1:
            self.finish(outs, "cut", None, st, ("loop", fr.fn.deff))
            return False
        if not ch and n == 1:
            self.finish(outs, "cut", None, st, ("loop", fr.fn.deff))
            return False
        st.locs[:fr.fid] = newo
        st.locs[fr.fid] = newl
        st.mem = newm
        st.visits[key_] = (n + 1, (dict(newl), dict(newm), [dict(x) for x in newo]), entry)
        st.visits = {k: v for k, v in st.visits.items() if not (k[0] == fr.fid and k[1] != fr.blk and self.inside(fr.fn, fr.blk, k[1]))}
        st.ev = Ev("loop*", fr.fn.deff, (), None, self.site(fr, fr.fn.blocks[fr.blk][1][0]), st.ev, st.conds)
        return True

    def head_name(self, st, fr):
        hdr = "%s@%d" % (fr.fn.deff.split("::")[-1], fr.blk)
        chain = tuple((f.fn.deff, f.blk) for f in st.frames[:-1])
        if chain:
            # one name per way to get here: two runs of a loop on one path are two loops
            hdr += "^%d" % self.chains.setdefault((hdr, chain), sum(1 for k in self.chains if k[0] == hdr))
        return hdr

    def tag(self, x):
        """part of a loop symbol's name: what everything the loop changes was before the first iteration"""
        if self.joint is None:
            self.jl.append(x)
            return "~"
        return "~%d" % self.joint

    def havoc_head(self, st, fr):
        self.joint, self.jl = None, []
        mem, locs = dict(st.mem), [dict(d) for d in st.locs]
        self.havoc_pass(st, fr)
        st.mem, st.locs[:] = mem, locs
        self.joint = self.tags.setdefault(tuple(self.jl), len(self.tags))
        self.havoc_pass(st, fr)
        self.force_head(st, fr, self.head_name(st, fr))

    def havoc_pass(self, st, fr):
        """an arbitrary iteration: everything the loop may change becomes a symbol (positions of iterators included)"""
        hdr = self.head_name(st, fr)
        same = {}

        def gen(x, path):
            if x is None or x is UNINIT:
                return x
            if x.k == "ref" or x in st.mem or x in self.ptrs:
                return x
            if x.k == "agg" and x.a[0] != "vec" and x.a[0] != "[]" and len(x.a[2]) > 0:
                n = x.a[0]
                if n in ("slice_iter",):
                    r, p, e = x.a[2]
                    return agg(n, None, (r, cnt(p, path), e))
                if n.endswith("ops::range::Range"):
                    return agg(n, x.a[1], (cnt(x.a[2][0], path), x.a[2][1]))
                if n.endswith("::Enumerate") or n == "Enumerate":
                    return agg(n, x.a[1], (gen(x.a[2][0], path + ".0"), cnt(x.a[2][1], path)))
                if not any(v[0].endswith("Option") for v in [x.a]):
                    return agg(n, x.a[1], [gen(y, path + ".%d" % i) for i, y in enumerate(x.a[2])])
            s = mk("lp", hdr, path + self.tag(x))
            self.tyinfo.setdefault(s, self.tyinfo.get(x, self.termw(x, 64)))
            self.entry.setdefault(s, set()).add(x)
            return s

        def cnt(p, path):
            # positions advance together: equal start values share one symbol
            base = path.split(".")[0]
            k = (base, p)
            if k not in same:
                same[k] = mk("lp", hdr, base + "#%d" % len(same) + self.tag(p))
                self.tyinfo.setdefault(same[k], 64)
            self.entry.setdefault(same[k], set()).add(p)
            return same[k]
        locs = st.locs[fr.fid]
        mods = fr.fn.loop_mods(fr.blk)
        direct = {b for b, p in mods if not p}
        for b, p in sorted(mods):
            if b not in locs:
                continue
            if not p:
                locs[b] = gen(locs[b], "_%d" % b)
            else:
                v = self.ptr_of(locs[b])
                if b in direct:
                    # a pointer made anew in every iteration; what it writes to shows at the end of one (unfixed)
                    if fr.fn.live_at(fr.blk, b):
                        raise Unsupported("a loop that changes the pointer it writes through")
                    locs.pop(b)
                    direct.discard(b)
                    continue
                self.havoc_ptr(st, v, hdr, gen)
        # pointers to mutable data handed on by value
        for b, x in list(locs.items()):
            if b in direct and isinstance(x, T) and x.k == "ref" and x.a[0].k == "L" and x.a[0].a[0] < fr.fid:
                self.havoc_ptr(st, x, hdr, gen)

    def havoc_ptr(self, st, v, hdr, gen):
        if v.k == "ref":
            root, path = v.a[0], v.a[1]
            old = self.rd(self.get_root(st, root), path)
            if old.k == "ref":
                return self.havoc_ptr(st, old, hdr, gen)
            self.set_root(st, root, self.wr(self.get_root(st, root), path, gen(old, show(v))))
        else:
            old = st.mem[v] if v in st.mem else mk("deref", v)
            s = mk("lp", hdr, "*" + show(v) + self.tag(old))
            self.entry.setdefault(s, set()).add(old)
            st.mem[v] = s

    def unfixed(self, fr, snap, st):
        """what an iteration changed though it was not made arbitrary at the head: self.missed, for another run"""
        key = (fr.fid, fr.fn.deff, fr.blk)
        hdr = self.head_name(st, fr)

        def cmp(root, old, new, path):
            if old is new or old is None or new is None or old is UNINIT or new is UNINIT or old.k == "uninit" or new.k == "uninit":
                return
            if old.k == "lp" and old.a[0] == hdr:
                return
            if old.k == "ref" and not path and new.k == "ref":
                return
            if new.k == "upd" and new.a[0] is old:
                for (var, i), v in new.a[1]:
                    cmp(root, fld(old, var, i), v, path + (("f", var, i),))
                return
            if new.k == "upd" and old.k == "upd" and new.a[0] is old.a[0]:
                for var, i in sorted({k for k, _ in old.a[1]} | {k for k, _ in new.a[1]}, key=str):
                    cmp(root, fld(old, var, i), fld(new, var, i), path + (("f", var, i),))
                return
            if old.k == "agg" and new.k == "agg" and old.a[:2] == new.a[:2] and len(old.a[2]) == len(new.a[2]) and old.a[0] not in ("vec", "[]"):
                for i, (x, y) in enumerate(zip(old.a[2], new.a[2])):
                    cmp(root, x, y, path + (("sl" if old.a[0] in ("slice_iter", "into_iter") else "f", old.a[1], i),))
                return
            self.missed.setdefault(key, set()).add((root, path))
        for n, l in enumerate([snap[0]] + snap[2]):
            fid = fr.fid if n == 0 else n - 1
            cur = st.locs[fid]
            for b, x in l.items():
                if b in cur:
                    cmp(mk("L", fid, b), x, cur[b], ())
        for r, y in st.mem.items():
            cmp(r, snap[1].get(r, mk("deref", r)) if r.k != "H" or r in snap[1] else None, y, ())

    def force_head(self, st, fr, hdr):
        for root, path in sorted(self.force.get((fr.fid, fr.fn.deff, fr.blk), ()), key=lambda x: (show(x[0]), len(x[1]), str(x[1]))):
            if root.k == "L" and root.a[1] not in st.locs[root.a[0]]:
                continue
            if root.k == "H" and root not in st.mem:
                continue
            old = self.get_root(st, root)
            x = self.rd(old, path)
            if x is None or x is UNINIT or x.k == "lp" and x.a[0] == hdr:
                continue
            s = mk("lp", hdr, show(root) + "".join(".%s" % p[2] for p in path) + self.tag(x) + "~%d" % self.tags.setdefault(x, len(self.tags)))
            self.tyinfo.setdefault(s, self.tyinfo.get(x, self.termw(x, 64)))
            self.entry.setdefault(s, set()).add(x)
            self.set_root(st, root, self.wr(old, path, s))

    def inside(self, fn, h, b):
        """b is an inner header reachable from h without leaving (approximation: drop its visits, they restart)"""
        return True

    def unroll(self, st, fr, old):
        """a loop driven by an iterator or range whose two ends are known is peeled, not widened"""
        ol = old[0]
        for kk, vv in st.locs[fr.fid].items():
            if kk in ol and ol[kk] is not vv and self.stepped(ol[kk], vv):
                return True
        for d, oo in zip(st.locs[:fr.fid], old[2]):
            for kk, vv in d.items():
                if kk in oo and oo[kk] is not vv and self.stepped(oo[kk], vv):
                    return True
        return False

    def stepped(self, a, b):
        if a.k != "agg" or b.k != "agg" or a.a[0] != b.a[0] or len(a.a[2]) != len(b.a[2]):
            return False
        n = a.a[0]
        if n in ("slice_iter", "into_iter") or n.endswith("ops::range::Range"):
            x, y = a.a[2][-2:], b.a[2][-2:]
            if all(isc(z) for z in x + y):
                return x != y and 0 <= x[1].a[1] - x[0].a[1] <= 40
            return False
        return any(p is not q and self.stepped(p, q) for p, q in zip(a.a[2], b.a[2]))

    # ------------------------------------------------------------ drops
    def do_drop(self, st, fr, t):
        ty = fr.fn.ctx.types[t[5]]
        d = ty.get("def", "")
        if d in self.dropimpls:
            st.ev = Ev("drop", d, (self.read_place(st, fr, t[2]),), None, self.site(fr, t[0]), st.ev, st.conds)

    def copy_nonoverlapping(self, st, fr, s):
        st.ev = Ev("cno", "copy_nonoverlapping", (), None, self.site(fr, s[0]), st.ev, st.conds)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t, work, outs):
        fn = fr.fn
        callee, args_o, dest, target, unwind, fop_ = t[2], t[3], t[4], t[5], t[6], t[7]
        args = [self.operand(st, fr, a) for a in args_o]
        argt = [self.op_ty(fn, a) for a in args_o]
        line = t[0]
        if callee is None:
            # call through a function pointer value
            f = self.operand(st, fr, fop_)
            if f.k in ("fnv", "fndef"):
                return self.call_fnv(st, fr, f, args, dest, target, line, work, outs)
            return self.opaque_call(st, fr, "fnptr", "fnptr", [f] + args, argt, dest, target, line, outs, None)
        odef, symi, gargs = callee[0], callee[1], callee[2]
        if symi is None:
            return self.opaque_call(st, fr, odef, odef, args, argt, dest, target, line, outs, None)
        sym = fn.ctx.syms[symi]
        name = sym["def"]
        body = self.db.fn_of(fn.ctx, symi)
        # user models first
        m = self.models.get(name) or self.models.get(odef)
        if m is None:
            m = MODELS.get(name) or MODELS.get(odef)
            if m is None and sym["kind"] != "virtual":
                m = pattern_model(name) or pattern_model(odef)
        if m is not None:
            r = m(Call(self, st, fr, args, argt, dest, target, line, work, outs, sym, odef, body, fn))
            if r is not NotImplemented:
                return r
        if odef in FNTRAIT:
            r = self.call_closure_trait(st, fr, odef, sym, body, args, argt, dest, target, line, work, outs, gargs)
            if r is not NotImplemented:
                return r
        if sym["kind"].startswith("virtual"):
            return self.opaque_call(st, fr, "dyn " + odef, odef, args, argt, dest, target, line, outs, sym)
        if target is None:
            # diverging call: a panic
            st.ev = Ev("call", name, tuple(args), None, self.site(fr, line), st.ev, st.conds)
            self.finish(outs, "panic", None, st, ("call:" + name, fn.deff, fn.file, line, tuple(self.snap(st, a) for a in args)))
            return False
        if body is None:
            v = self.ctor(sym, args, body)
            if v is not None:
                return self.ret(st, fr, dest, target, v, outs)
        if body is not None and self.may_inline(st, fr, body, sym, name):
            self.inlined.add(body.deff)
            if body.spread is not None and body.spread == len(args):
                pass
            st.frames[-1] = fr
            self.push_frame(st, body, self.spread_args(body, args), dest, target, self.site(fr, line))
            return True
        return self.opaque_call(st, fr, name, odef, args, argt, dest, target, line, outs, sym)

    def spread_args(self, body, args):
        return args

    def may_inline(self, st, fr, body, sym, name):
        if len(st.frames) >= self.max_depth:
            return False
        if self.opaque and self.opaque.search(name):
            return False
        if sum(1 for f in st.frames if f.fn is body) >= 1 and not body.crate == "core":
            return False
        if sum(1 for f in st.frames if f.fn is body) >= 3:
            return False
        if self.inline_policy is not None:
            r = self.inline_policy(body, sym, name)
            if r is not None:
                return r
        if body.crate.startswith("tinywasm"):
            return True
        if not self.follow_std or STD_OPAQUE.match(name):
            return False
        return body.crate in ("core", "alloc")

    def call_fnv(self, st, fr, f, args, dest, target, line, work, outs):
        ctx = self.db.ctxs[f.a[1]]
        si = f.a[2]
        if si is None or si < 0:
            return self.opaque_call(st, fr, f.a[0] or "?", f.a[0] or "?", args, [None] * len(args), dest, target, line, outs, None)
        sym = ctx.syms[si]
        body = self.db.fn_of(ctx, si)
        name = sym["def"]
        m = self.models.get(name) or MODELS.get(name) or pattern_model(name)
        if m is not None:
            r = m(Call(self, st, fr, args, [None] * len(args), dest, target, line, work, outs, sym, name, body, fr.fn))
            if r is not NotImplemented:
                return r
        ctor = self.ctor(sym, args, body)
        if ctor is not None:
            return self.ret(st, fr, dest, target, ctor, outs)
        if body is not None and self.may_inline(st, fr, body, sym, name):
            self.push_frame(st, body, args, dest, target, self.site(fr, line))
            return True
        return self.opaque_call(st, fr, name, name, args, [None] * len(args), dest, target, line, outs, sym)

    def ctor(self, sym, args, body):
        """the value a tuple struct's or enum variant's constructor builds, when the function is one"""
        if body is not None or "::" not in sym["def"]:
            return None
        n = sym["def"]
        if n not in self.ctors:
            self.ctors[n] = None
            par, last = n.rsplit("::", 1)
            for c in self.db.ctxs.values():
                for t in c.types:
                    if t["k"] == "enum" and t.get("def") == par:
                        for v in t["v"]:
                            if v[0] == last and v[2]:
                                self.ctors[n] = (par, t["v"].index(v), len(v[2]))
        x = self.ctors[n]
        if x is None or x[2] != len(args):
            return None
        return agg(x[0], x[1], tuple(args))

    def call_closure_trait(self, st, fr, odef, sym, body, args, argt, dest, target, line, work, outs, gargs):
        selfv = args[0]
        tup = args[1] if len(args) > 1 else UNIT
        rest = list(tup.a[2]) if tup.k == "agg" and tup.a[0] == "()" else [tup]
        v = selfv
        depth = 0
        while (v.k == "ref") and depth < 4:
            nv = self.load(st, v)
            if nv.k == "agg" and nv.a[0].startswith("closure:") or nv.k in ("fndef", "fnv", "ref"):
                v = nv
                depth += 1
                continue
            v = nv
            break
        if v.k in ("fndef", "fnv"):
            return self.call_fnv(st, fr, v, rest, dest, target, line, work, outs)
        cbody = None
        if v.k == "agg" and v.a[0].startswith("closure:"):
            parts = v.a[0][8:].split("|")
            if len(parts) == 3 and parts[1] not in ("None", "-1"):
                cbody = self.db.fn_of(self.db.ctxs[parts[2]], int(parts[1]))
        if cbody is None and body is not None and sym["kind"] == "item" and "{closure" in sym["name"]:
            cbody = body
        if cbody is None:
            # closure type known from the self type
            ti = argt[0]
            tt = fr.fn.ctx.types[ti] if ti is not None else None
            while tt is not None and tt["k"] in ("ref", "ptr"):
                tt = fr.fn.ctx.types[tt["e"]]
            if tt is not None and tt["k"] == "closure" and tt.get("sym") is not None:
                cbody = self.db.fn_of(fr.fn.ctx, tt["sym"])
            elif tt is not None and tt["k"] == "fndef" and tt.get("sym") is not None:
                return self.call_fnv(st, fr, mk("fndef", tt["def"], fr.fn.ctx.crate, tt["sym"]), rest, dest, target, line, work, outs)
        if cbody is None or len(st.frames) >= self.max_depth:
            return NotImplemented
        if self.opaque and self.opaque.search(cbody.deff):
            return NotImplemented
        # self argument: by reference or by value as the body wants
        want = cbody.ctx.types[cbody.locals[1]] if cbody.argc >= 1 else None
        sv = selfv
        if want is not None and want["k"] in ("ref", "ptr"):
            # peel to a single reference level
            while sv.k == "ref":
                inner = self.load(st, sv)
                if inner.k == "ref":
                    sv = inner
                else:
                    break
            if sv.k != "ref" and (sv.k == "agg"):
                tmp = mk("H", "clo", st.n)
                st.n += 1
                st.mem[tmp] = sv
                sv = ref(tmp)
        else:
            while sv.k == "ref":
                sv = self.load(st, sv)
        self.inlined.add(cbody.deff)
        self.push_frame(st, cbody, [sv] + rest, dest, target, self.site(fr, line))
        return True

    def ret(self, st, fr, dest, target, v, outs, name="?"):
        if target is None:
            self.finish(outs, "panic", None, st, ("call:" + name, fr.fn.deff))
            return False
        self.write_place(st, fr, dest, v)
        st.frames[-1] = self.at(fr, target)
        return True

    def snap(self, st, v, d=0):
        """value with references to locals replaced by what they point at (for call snapshots)"""
        if d > 6:
            return v
        if v.k == "ref":
            if v.a[0].k in ("L", "H", "K"):
                return mk("at", self.snap(st, self.load(st, v), d + 1))
            if d <= 1:
                return mk("at", self.load(st, v))
            return v
        if v.k == "agg" and v.a[2]:
            return agg(v.a[0], v.a[1], [self.snap(st, x, d + 1) for x in v.a[2]])
        if d == 0 and v in st.mem:
            return mk("at", st.mem[v])
        return v

    def mut_ptrs(self, fn, args, argt, st):
        """pointees a call may write: &mut arguments (and &mut inside closures/tuples/aggregates passed by value)"""
        res = []

        def scan(v, d):
            if d > 5:
                return
            if v.k == "ref":
                res.append(v)
            elif v.k == "agg":
                for x in v.a[2]:
                    scan(x, d + 1)

        for a, ti in zip(args, argt):
            if ti is None or ti < 0:
                continue
            t = fn.ctx.types[ti]
            if t["k"] in ("ref", "ptr"):
                if t.get("m"):
                    res.append(a)
                else:
                    e = fn.ctx.types[t["e"]] if "e" in t else None
                    if e is not None and e["k"] == "closure":
                        scan(self.load(st, a), 0)
            elif t["k"] in ("closure", "tuple"):
                self.scan_mut(fn.ctx, t, a, res, 0)
            elif t["k"] in ("struct", "enum"):
                if self.has_mut(fn.ctx, ti):
                    scan(a, 0)
        return res

    def scan_mut(self, ctx, t, v, res, d):
        if d > 4:
            return
        ups = t.get("up") or t.get("f") or []
        for i, u in enumerate(ups):
            ut = ctx.types[u]
            x = fld(v, None, i)
            if ut["k"] in ("ref", "ptr"):
                if ut.get("m"):
                    res.append(x)
            elif ut["k"] in ("closure", "tuple"):
                self.scan_mut(ctx, ut, x, res, d + 1)

    def has_mut(self, ctx, ti, d=0, seen=None):
        if seen is None:
            seen = set()
        if ti in seen or d > 6:
            return False
        seen.add(ti)
        t = ctx.types[ti]
        if t["k"] == "ref":
            return bool(t.get("m"))
        if t["k"] in ("struct", "enum"):
            for a in t.get("a", []):
                if isinstance(a, int) and self.has_mut(ctx, a, d + 1, seen):
                    return True
            for v in t.get("v", []):
                for f in v[2]:
                    if isinstance(f[1], int) and f[1] >= 0 and self.has_mut(ctx, f[1], d + 1, seen):
                        return True
        if t["k"] in ("tuple",):
            return any(self.has_mut(ctx, x, d + 1, seen) for x in t["f"])
        return False

    def opaque_call(self, st, fr, name, odef, args, argt, dest, target, line, outs, sym):
        self.opaque_seen[name] = self.opaque_seen.get(name, 0) + 1
        snaps = tuple(self.snap(st, a) for a in args)
        muts = self.mut_ptrs(fr.fn, args, argt, st)
        site = self.site(fr, line)
        if target is None:
            st.ev = Ev("call", name, snaps, None, site, st.ev, st.conds, tuple(args))
            self.finish(outs, "panic", None, st, ("call:" + name, fr.fn.deff, fr.fn.file, line, snaps))
            return False
        v = mk("call", name, snaps)
        st.ev = Ev("call", name, snaps, v, site, st.ev, st.conds, tuple(args))
        i = 0
        for p in muts:
            old = self.load(st, p) if p.k == "ref" else st.mem.get(p, mk("deref", p))
            self.store(st, p, mk("after", name, i, snaps))
            i += 1
        self.write_place(st, fr, dest, v)
        ti = self.place_ty(fr.fn, dest)
        w = self.width(fr.fn.ctx.types[ti]) if ti is not None and ti >= 0 else None
        if isinstance(w, int):
            self.tyinfo[v] = w
        st.frames[-1] = self.at(fr, target)
        return True


class Call:
    """what a model sees"""
    __slots__ = ("e", "st", "fr", "args", "argt", "dest", "target", "line", "work", "outs", "sym", "odef", "body", "fn")

    def __init__(self, *a):
        (self.e, self.st, self.fr, self.args, self.argt, self.dest, self.target, self.line, self.work, self.outs, self.sym,
         self.odef, self.body, self.fn) = a

    def ret(self, v, st=None):
        return self.e.ret(st or self.st, self.fr, self.dest, self.target, v, self.outs)

    def event(self, kind="call", name=None, ret=None):
        st = self.st
        st.ev = Ev(kind, name or self.sym["def"], tuple(self.e.snap(st, a) for a in self.args), ret, self.e.site(self.fr, self.line), st.ev, st.conds, tuple(self.args))

    def panic(self, why, st=None, args=()):
        self.e.finish(self.outs, "panic", None, st or self.st, (why, self.fr.fn.deff, self.fr.fn.file, self.line, tuple(args)))
        return False

    def fork(self, cond, then, els):
        """cond true -> then(st), false -> els(st); each returns True to continue in that state"""
        cond = self.e.simp(self.st, cond)
        if isc(cond):
            return (then if cond.a[1] else els)(self.st)
        s2 = self.st.copy()
        if self.e.take(s2, cond, FALSE, self.fr, self.line):
            if els(s2):
                self.work.append(s2)
        if not self.e.take(self.st, cond, TRUE, self.fr, self.line):
            return False
        return then(self.st)

    def setret(self, st, v):
        return self.e.ret(st, self.fr, self.dest, self.target, v, self.outs)

    def load(self, r, st=None):
        return self.e.load(st or self.st, r)

    def store(self, r, v, st=None):
        self.e.store(st or self.st, r, v)

    def ty(self, i):
        ti = self.argt[i]
        return self.fn.ctx.types[ti] if ti is not None else None

    def retty(self):
        ti = self.e.place_ty(self.fn, self.dest)
        return self.fn.ctx.types[ti]


FNTRAIT = {"core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"}

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


PATTERNS = []


def pattern_model(name):
    m = INT_RE.match(name)
    if m:
        return lambda C: int_method(C, m.group(1), 64 if m.group(2) == "size" else int(m.group(2)), m.group(3))
    m2 = FLT_RE.match(name)
    if m2:
        return lambda C: float_method(C, m2.group(1), m2.group(2))
    return None


def int_method(C, sg, w, name):
    s = "_s" if sg == "i" else "_u"
    a = C.args
    for p in ("wrapping_", "unchecked_"):
        if name.startswith(p):
            o = name[len(p):]
            if o in ("add", "sub", "mul"):
                return C.ret(op(o, w, a[0], a[1]))
            if o in ("shl", "shr"):
                return C.ret(op("shl" if o == "shl" else "shr" + s, w, a[0], C.e.amt(a[1], 32, w)))
            if o == "neg":
                return C.ret(op("neg", w, a[0]))
            if o in ("div", "rem"):
                def good(st):
                    return C.setret(st, op(o + s, w, a[0], a[1]))
                return C.fork(op("eq", w, a[1], c(w, 0)), lambda st: C.panic("assert:div0", st), good)
            if o == "abs" and p == "wrapping_":
                return C.ret(mk("op", "wabs", w, a[0]))
    if name in ("rotate_left", "rotate_right"):
        return C.ret(op("rotl" if name == "rotate_left" else "rotr", w, a[0], C.e.amt(a[1], 32, w)))
    if name in UN_PURE:
        nm = {"leading_zeros": "clz", "trailing_zeros": "ctz", "count_ones": "popcnt"}.get(name, name)
        if isc(a[0]):
            x = a[0].a[1]
            r = {"clz": w - x.bit_length(), "ctz": w if x == 0 else (x & -x).bit_length() - 1, "popcnt": bin(x).count("1")}.get(nm)
            if r is not None:
                return C.ret(c(32, r))
        v = mk("op", nm, w, a[0])
        if nm in ("clz", "ctz", "popcnt"):
            # result is u32: for 64-bit inputs the value fits; keep one spelling through zext/trunc
            v = v if w == 32 else mk("op", "trunc", 32, v, w) if w == 64 else v
        return C.ret(v)
    if name in ("checked_add", "checked_sub", "checked_mul"):
        o = name[8:]
        v = op(o, w, a[0], a[1])
        return C.fork(op("ovf_" + o + s, w, a[0], a[1]), lambda st: C.setret(st, NONE), lambda st: C.setret(st, some(v)))
    if name in ("overflowing_add", "overflowing_sub", "overflowing_mul"):
        o = name[12:]
        return C.ret(agg("()", None, (op(o, w, a[0], a[1]), op("ovf_" + o + s, w, a[0], a[1]))))
    if name in ("saturating_sub",) and sg == "u":
        def sat(st):
            return C.setret(st, c(w, 0))
        return C.fork(op("lt_u", w, a[0], a[1]), sat, lambda st: C.setret(st, op("sub", w, a[0], a[1])))
    if name == "saturating_add" and sg == "u":
        return C.fork(op("ovf_add_u", w, a[0], a[1]), lambda st: C.setret(st, c(w, -1)), lambda st: C.setret(st, op("add", w, a[0], a[1])))
    if name == "saturating_mul" and sg == "u":
        return C.fork(op("ovf_mul_u", w, a[0], a[1]), lambda st: C.setret(st, c(w, -1)), lambda st: C.setret(st, op("mul", w, a[0], a[1])))
    if name.startswith("saturating_") or name in ("abs_diff", "unsigned_abs", "signum", "isqrt", "ilog2", "next_multiple_of", "is_power_of_two", "next_power_of_two"):
        v = mk("op", name + s, w, *a)
        return C.ret(v)
    if name in ("checked_div", "checked_rem"):
        o = name[8:]
        zero = op("eq", w, a[1], c(w, 0))
        v = some(op(o + s, w, a[0], a[1]))

        def nz(st):
            if sg == "u":
                return C.setret(st, v)
            C2 = Call(C.e, st, C.fr, C.args, C.argt, C.dest, C.target, C.line, C.work, C.outs, C.sym, C.odef, C.body, C.fn)
            mn = op("and", 1, op("eq", w, a[0], c(w, 1 << (w - 1))), op("eq", w, a[1], c(w, -1)))
            return C2.fork(mn, lambda s3: C.setret(s3, NONE), lambda s3: C.setret(s3, v))
        return C.fork(zero, lambda st: C.setret(st, NONE), nz)
    if name == "overflowing_rem":
        def nz(st):
            C2 = Call(C.e, st, C.fr, C.args, C.argt, C.dest, C.target, C.line, C.work, C.outs, C.sym, C.odef, C.body, C.fn)
            m1 = op("eq", w, a[1], c(w, -1))
            return C2.fork(m1, lambda s3: C.setret(s3, agg("()", None, (c(w, 0), op("eq", w, a[0], c(w, 1 << (w - 1)))))),
                           lambda s3: C.setret(s3, agg("()", None, (op("rem" + s, w, a[0], a[1]), FALSE))))
        return C.fork(op("eq", w, a[1], c(w, 0)), lambda st: C.panic("assert:rem0", st), nz)
    if name == "from_le_bytes":
        return C.ret(from_bytes(w, a[0]))
    if name == "to_le_bytes":
        return C.ret(to_bytes(w, a[0]))
    if name in ("min_value",):
        return C.ret(c(w, 1 << (w - 1) if sg == "i" else 0))
    if name in ("max_value",):
        return C.ret(c(w, (1 << (w - 1)) - 1 if sg == "i" else -1))
    if name == "cast_signed" or name == "cast_unsigned":
        return C.ret(a[0])
    if name == "div_ceil" and sg == "u":
        return C.ret(mk("op", "div_ceil_u", w, a[0], a[1]))
    return NotImplemented


def from_bytes(w, x):
    if x.k == "bytes":
        return x.a[1]
    if x.k == "agg" and all(isc(y) for y in x.a[2]):
        return c(w, sum(y.a[1] << (8 * i) for i, y in enumerate(x.a[2])))
    return mk("op", "frombytes", w, x)


def to_bytes(w, x):
    if x.k == "op" and x.a[0] == "frombytes" and x.a[1] == w:
        return x.a[2]
    return mk("bytes", w, x)


def float_method(C, ty, name):
    w = 32 if ty == "f32" else 64
    a = C.args
    if name == "to_bits":
        return C.ret(bits_of(ty, a[0]))
    if name == "from_bits":
        return C.ret(from_bits(ty, a[0]))
    if name == "from_le_bytes":
        return C.ret(from_bits(ty, from_bytes(w, a[0])))
    if name == "to_le_bytes":
        return C.ret(to_bytes(w, bits_of(ty, a[0])))
    if name == "is_nan":
        return C.ret(op("not", 1, fop("eq", ty, a[0], a[0])))
    if name == "is_sign_positive":
        return C.ret(op("not", 1, mk("op", "f.is_sign_negative", ty, *a)))
    if name in ("abs", "floor", "ceil", "trunc", "round", "round_ties_even", "sqrt", "copysign", "min", "max", "minimum",
                "maximum", "is_sign_negative", "is_sign_positive", "is_infinite", "is_finite", "fract", "rem_euclid", "clamp",
                "mul_add", "signum", "total_cmp", "to_int_unchecked", "is_subnormal", "is_normal"):
        return C.ret(mk("op", "f." + name, ty, *a))
    return NotImplemented


from models import *  # noqa  (registers the standard-library models)
