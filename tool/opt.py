"""The peephole rewriter as a relation: for one arbitrary iteration, which suffix of the emitted code becomes what, and when."""
import engine as E
from engine import slen, sel
from terms import *
from lib import Missing


def contains_vec(ctx, ti, elname):
    t = ctx.types[ti]
    if t.get("def") == "alloc::vec::Vec":
        el = ctx.types[t["a"][0]]
        return (el.get("def") or el.get("s") or el["k"]).split("::")[-1] == elname
    return False


def vec_paths(ctx, ti, elname, d=0):
    if contains_vec(ctx, ti, elname):
        return [()]
    t = ctx.types[ti]
    out = []
    if t["k"] == "struct" and d < 3 and t.get("v"):
        for i, f in enumerate(t["v"][0][2]):
            if isinstance(f[1], int) and f[1] >= 0:
                out += [(i,) + p for p in vec_paths(ctx, f[1], elname, d + 1)]
    return out


def at(x, path):
    for i in path:
        x = fld(x, None, i)
    return x


class Rw:
    """one trace of one iteration"""
    __slots__ = ("name", "x", "idx", "orig", "new", "conds", "bs0", "bs1", "blen", "locs0", "locs1", "untouched", "removed", "known", "kind", "why", "st", "reads")


class OptModel:
    def __init__(self, db, counts=(0, 0, 0), only=None, opaque=None):
        self.db = db
        self.ctx = ctx = db.ctxs["tinywasm_parser"]
        self.find()
        f = self.f
        self.chase = [g.name for g in ctx.fns.values() if self.is_chase_sig(g)]
        import re
        op_ = r"^log::|^wasmparser::"
        for n in self.chase:
            op_ += "|^" + re.escape(n) + "$"
        self.eng = e = E.Engine(db, assume_capacity=True, opaque=op_, max_outcomes=60000, max_steps=6000000)
        e.havoc = lambda fn: fn is f
        args = []
        self.src = None
        for i in range(f.argc):
            t = ctx.types[f.locals[i + 1]]
            v = mk("v", "a%d" % i)
            if contains_vec(ctx, f.locals[i + 1], "Instruction"):
                self.src = v
            elif t["k"] == "ref" and ctx.types[t["e"]]["k"] == "slice" and ctx.types[ctx.types[t["e"]]["e"]]["k"] == "bool":
                self.bnd = v
            elif t.get("def", "").endswith("ValueCounts") and counts is not None:
                n = len(t["v"][0][2])
                v = E.agg(t["def"], None, [c(16, x) for x in counts[:n]])
            elif t["k"] == "uint" and t["w"] == 32:
                self.selfaddr = v
            args.append(v)
        self.insn_ty = [t for t in ctx.types if t["k"] == "enum" and t["def"].endswith("::Instruction")][0]
        self.vn = {int(v[1]): v[0] for v in self.insn_ty["v"]}
        self.d2i = {int(v[1]): i for i, v in enumerate(self.insn_ty["v"])}
        self.big = len(self.insn_ty["v"])
        src = self.src
        e.splitter = lambda en, x, fr: x.k == "discr" and len(x.a[1]) >= self.big // 2 and x.a[0].k == "sel" and x.a[0].a[0] is src
        outs = e.run(f, args)
        e.splitter = None
        self.emitted = self.find_emitted()
        self.pre_panics = [o for o in outs if o.kind == "panic"]
        self.exits = [o for o in outs if o.kind == "return"]
        pend, e.pending = e.pending, []
        self.rws, self.panics, self.limits = [], [], []
        e.missed = {}
        for st in pend:
            ds = [(k, v) for k, v in st.known.items() if k.k == "discr" and k.a[0].k == "sel" and k.a[0].a[0] is src]
            name = self.vn[ds[0][1].a[1]] if ds else "_"
            if only is not None and name not in only:
                continue
            if name != "_" and name not in self.emitted:
                continue        # the lowering never emits it
            e.iters = []
            try:
                outs = e.resume(st)
            except (E.Limit, E.Unsupported) as ex:
                self.limits.append((name, str(ex)))
                continue
            for o in outs:
                if o.kind == "panic":
                    self.panics.append((name, o))
                elif o.kind in ("cut", "return"):
                    self.limits.append((name, "an inner loop of the rewriter was not resolved: %s" % (o.why,)))
            for _, before, s, c0 in e.iters:
                if all(self.vn[v.a[1]] in self.emitted for k, v in s.known.items()
                       if k.k == "discr" and k.a[0].k == "sel" and k.a[0].a[0] is src):
                    self.rws.append(self.conv(name, before, s, c0))
            e.iters = []
        for (fid, d, blk), v in e.missed.items():
            for root, path in v:
                self.limits.append(("_", "the rewriting loop changes %s%s, which the analysis takes to be fixed" % (show(root), "".join(".%s" % p[2] for p in path))))

    def find(self):
        ctx = self.ctx
        l = []
        for f in ctx.fns.values():
            if "::optimize::" in f.name and f.loop_headers() and any(contains_vec(ctx, f.locals[i + 1], "Instruction") for i in range(f.argc)):
                l.append(f)
        if len(l) != 1:
            raise Missing("the rewriting loop over the instruction vector: %d candidates" % len(l))
        self.f = l[0]

    def find_emitted(self):
        """names of the instructions constructed anywhere in the crate but the rewriter's module: all its input can hold"""
        ctx = self.ctx
        mod = self.f.name.rsplit("::", 1)[0] + "::"
        tis = {i for i, t in enumerate(ctx.types) if t is self.insn_ty}
        got = set()

        def walk(x):
            if isinstance(x, list):
                if len(x) >= 4 and x[0] == "agg" and x[1] == "adt" and x[2] in tis:
                    got.add(x[3])
                for y in x:
                    walk(y)
        for f in ctx.fns.values():
            if f.crate == ctx.crate and not f.name.startswith(mod):
                walk(f.blocks)
        return {self.insn_ty["v"][i][0] for i in got}

    def is_chase_sig(self, g):
        ctx = self.ctx
        if "::optimize::" not in g.name or g.argc != 2:
            return False
        t0, t1, r = (ctx.types[g.locals[i]] for i in (1, 2, 0))
        if not (t1["k"] == r["k"] == "uint" and t1["w"] == r["w"] == 32 and t0["k"] == "ref"):
            return False
        s = ctx.types[t0["e"]]
        return s["k"] == "slice" and ctx.types[s["e"]].get("def", "").endswith("::Instruction")

    def conv(self, name, before, s, c0):
        ctx, f = self.ctx, self.f
        r = Rw()
        r.name, r.st, r.kind = name, s, "iter"
        l0, l1 = before[0], s.locs[0]
        conds, cc = [], s.conds
        while cc is not None and cc is not c0:
            conds.append(cc[1:])
            cc = cc[0]
        conds.reverse()
        r.conds = [(a, b) for a, b, _ in conds]
        outv = None
        for l, v in l0.items():
            for p in vec_paths(ctx, f.locals[l], "Instruction"):
                x = at(v, p)
                if x.k == "lp":
                    outv = (l, p, x)
        if outv is None:
            raise Missing("the output buffer of the rewriting loop")
        l, p, B = outv
        self.B = B
        self.outpath = (l, p)
        V = at(l1[l], p)
        xs = [k for k in s.known if k.k == "discr" and k.a[0].k == "sel" and k.a[0].a[0] is self.src]
        r.x = xs[0].a[0] if xs else None
        if r.x is None:
            xs = [a.a[0].a[0] for a, b in r.conds if a.k == "notin" and a.a[0].k == "discr" and a.a[0].a[0].k == "sel" and a.a[0].a[0].a[0] is self.src]
            r.x = xs[0] if xs else None
        r.idx = r.x.a[1] if r.x is not None else None
        r.locs0, r.locs1 = l0, l1
        n = slen(B)
        r.blen = n
        # how many of the earlier instructions were removed or looked at
        k = 0
        y = V
        removed = 0
        while True:
            if y.k in ("push", "pop", "store", "trc"):
                if y.k == "trc":
                    d = op("sub", 64, n, y.a[1])
                    removed = max(removed, d.a[1] if isc(d) and d.a[1] < 64 else 999)
                if y.k == "pop":
                    d = op("sub", 64, n, slen(y))
                    if isc(d) and 0 < d.a[1] < 64:
                        removed = max(removed, d.a[1])
                if y.k == "store":
                    d = op("sub", 64, n, y.a[1])
                    removed = max(removed, d.a[1] if isc(d) and 0 < d.a[1] < 64 else (0 if isc(d) and d.a[1] == 0 else 999))
                y = y.a[0]
            else:
                break
        r.untouched = y is B
        r.removed = removed
        d = op("sub", 64, slen(V), n)
        m = d.a[1] if isc(d) else None
        if m is not None and m >> 63:
            m -= 1 << 64
        r.new = None
        r.orig = None
        if r.untouched and m is not None and removed < 64:
            seq = []
            for j in range(-removed, m):
                seq.append(sel(V, op("add", 64, n, U64(j))))
            if m < -removed:
                r.removed = removed = -m
                seq = []
            r.orig = [sel(B, op("add", 64, n, U64(-j))) for j in range(removed, 0, -1)] + [r.x]
            r.new = seq
            # an unchanged common prefix was not consumed
            while len(r.orig) > 1 and r.new and r.orig[0] is r.new[0]:
                r.orig.pop(0)
                r.new.pop(0)
        r.known = s.known
        return r


def U64(j):
    return c(64, j & ((1 << 64) - 1))
