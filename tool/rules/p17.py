"""Instantiation: what a module declares is built once, in order, and the instance names exactly that."""
import re
from terms import *
from lib import extract, Missing
from api import Api, contradictory, implied, leaves
from engine import agg, sel
from rules.common import CRATES

LEVEL = "proof"
OPAQUE = r"::Imports::link$|::eval_const$|TableInstance::init$|::write_all$|MemoryInstance::new(_lazy)?$|TableInstance::new$"
P1 = mk("deref", mk("v", "p1"))



def is_empty(x):
    return x.k == "agg" and x.a[0] == "vec" and not x.a[2]


class Bad(Exception):
    pass


class Inst:
    def __init__(self, chk, db):
        self.chk = chk
        self.A = Api(db, OPAQUE, outcomes=20000)
        self.pos, self.enums = self.A.layout()
        fs = self.A.fn(r"::ModuleInstance::instantiate_no_start$")
        if len(fs) != 1:
            raise Missing("instantiate_no_start")
        self.f = fs[0]
        self.ts, self.nx = self.A.loops(self.f)
        self.by = {}
        for t in self.nx:
            for k in t.eff:
                if k.k == "lp":
                    self.by.setdefault(k, []).append(t)
        self.mod = fld(mk("deref", fld(fld(mk("deref", mk("v", "p2")), None, 0), None, 0)), None, 2)
        self.where = "%s:%d" % (self.f.file, self.f.line)
        self.es = {n: {v[0]: v[1] for v in e["v"]} for n, e in self.enums.items()}
        self.done = set()

    def M(self, n):
        """a field of the module: a boxed list, or a value"""
        return fld(self.mod, None, self.pos["ModuleInner"][n])

    def slice(self, n):
        x = self.M(n)
        return mk("deref", fld(x, None, 0))

    # -------------------------------------------------- reading lists that loops build
    def unfold(self, v):
        """the list v as [("base", term) or ("loop", symbol, path) or ("one", term), …], in order; iterations that leave it alone are dropped"""
        tail = []
        for _ in range(60):
            if v.k == "push":
                tail.append(("one", v.a[1]))
                v = v.a[0]
                continue
            if is_empty(v):
                return [("base", v)] + tail[::-1]
            path, x = [], v
            while x.k == "fld":
                path.append((x.a[1], x.a[2]))
                x = x.a[0]
            path.reverse()
            if x.k == "upd":
                raise Bad("a list that is not understood: %s" % show(v)[:120])
            if x.k != "lp":
                return [("base", v)] + tail[::-1]
            moved = False
            for t in self.by.get(x, []):
                y = t.eff[x]
                for p in path:
                    y = fld(y, *p)
                while y.k == "store":
                    y = y.a[0]
                moved |= y is not v
            if moved:
                tail.append(("loop", x, tuple(path)))
            es = self.A.entry[x]
            if len(es) != 1:
                raise Bad("a list with %d beginnings" % len(es))
            v = next(iter(es))
            for p in path:
                v = fld(v, *p)
        raise Bad("a list that is not understood")

    def steps(self, seg):
        """[(iteration, what it appends)]"""
        _, x, path = seg
        r = []
        at = x
        for p in path:
            at = fld(at, *p)
        for t in self.by[x]:
            y = t.eff[x]
            for p in path:
                y = fld(y, *p)
            while y.k == "store":
                y = y.a[0]
            if y is at:
                r.append((t, None))
                continue
            if y.k != "push" or y.a[0] is not at:
                raise Bad("an iteration does not append exactly one item: %s" % show(y)[:160])
            r.append((t, y.a[1]))
        return r

    def counter(self, t, start, w=64):
        s = [s for s, v in t.eff.items() if s.k == "lp" and v is op("add", w, s, c(w, 1)) and self.A.entry.get(s) == {start}]
        if not s:
            raise Bad("no position that starts at %s and advances by one" % show(start)[:60])
        return s

    def per_item(self, t, segs, decls, item):
        """the list is segs[0] followed by item(i) for each declaration, in order; `t`: the trace that leaves it so"""
        n = mk("len", decls)
        if len(segs) == 1:
            if not implied(t.conds, op("eq", 64, n, c(64, 0))) and not self.skipped(t, n):
                raise Bad("nothing is appended though there may be declarations")
            return
        if segs[1][0] != "loop" or len(segs) > 3 or len(segs) == 3 and segs[2][0] != "one":
            raise Bad("it is not built by one pass over the declarations: %s" % [s[0] for s in segs])
        steps = self.steps(segs[1])
        cs = None
        for it, y in steps:
            if y is None:
                raise Bad("an iteration appends nothing")
            here = [i for i in self.counter(it, c(64, 0)) if not item(it, sel(decls, i), y, i)]
            if not here:
                raise Bad(item(it, sel(decls, self.counter(it, c(64, 0))[0]), y, self.counter(it, c(64, 0))[0]))
            cs = here if cs is None else [i for i in cs if i in here]
        if not cs:
            raise Bad("iterations over different declarations")
        for i in cs:
            last = len(segs) == 3
            if last and not item(t, sel(decls, i), segs[2][1], i) and implied(t.conds, op("eq", 64, op("add", 64, i, c(64, 1)), n)):
                return
            if not last and implied(t.conds, op("lt_u", 64, i, n), 0):
                return
        raise Bad("the pass may end before the last declaration")

    def skipped(self, t, n):
        return False

    def addresses(self, t, v, mine, base, n):
        """v is `mine` followed by one address for each declaration, from the number of items there were (those of `base`) up"""
        segs = self.unfold(v)
        if segs[0][1] is not mine and not (is_empty(mine) and is_empty(segs[0][1])):
            raise Bad("it does not begin with the imported items: %s" % show(segs[0][1])[:100])

        def upto(e, conds):
            """e is first + n"""
            for f in subterms(e):
                if f.k == "op" and f.a[0] == "trunc" and self.count(f, base):
                    if e is op("add", 32, f, trunc(32, n, 64)) or e is f and implied(conds, op("eq", 64, n, c(64, 0))):
                        return True
            return False

        def bound(y, conds, val):
            return any(a.k == "op" and a.a[0] == "lt_u" and a.a[2] is y and isc(b) and b.a[1] == val and upto(a.a[3], conds) for a, b in conds)
        if len(segs) == 1:
            if implied(t.conds, op("eq", 64, n, c(64, 0))):
                return
            if not any(a.k == "op" and a.a[0] == "lt_u" and isc(b) and b.a[1] == 0 and self.count(a.a[2], base) and upto(a.a[3], t.conds) for a, b in t.conds):
                raise Bad("the new addresses are left out")
            return
        if len(segs) != 2 or segs[1][0] != "loop":
            raise Bad("addresses that are not understood")
        for it, y in self.steps(segs[1]):
            if y is None:
                raise Bad("an address is left out")
            if y in it.eff and it.eff[y] is op("add", 32, y, c(32, 1)) and all(self.count(e, base) for e in self.A.entry.get(y, ())):
                if bound(y, t.conds, 0) and bound(y, it.conds, 1):
                    continue
                raise Bad("not one address for each declaration")
            # first + i
            ok = False
            for i in self.counter(it, c(64, 0)):
                fs = [z for z in subterms(y) if z.k == "len" and self.count(z, base)]
                if any(y is trunc(32, op("add", 64, i, f), 64) or y is op("add", 32, trunc(32, i, 64), trunc(32, f, 64)) for f in fs):
                    ok |= implied(t.conds, op("lt_u", 64, i, n), 0)
            if not ok:
                raise Bad("an address that is not the next one: %s" % show(y)[:120])

    # -------------------------------------------------- the state
    def final(self, t, path):
        term, v = P1, t.eff.get(P1, P1)
        for i in path:
            term, v = fld(term, None, i), fld(v, None, i)
            v = t.eff.get(term, v)
        return v

    def link(self, t):
        r = [mk("call", n, a) for n, a, _ in t.evs if n.endswith("::Imports::link")]
        if len(r) != 1:
            raise Bad("the imports are linked %d times" % len(r))
        a = r[0].a[1]
        if a[1] is not mk("v", "p1") or a[2] is not mk("v", "p2"):
            raise Bad("other things are linked")
        imp = a[0].a[0] if a[0].k == "at" else a[0]
        given = fld(mk("v", "p3"), 1, 0)
        none = discr(mk("v", "p3"), (0, 1))
        if implied(t.conds, op("eq", 64, none, c(64, 1))) or any(a is none and b is c(64, 1) for a, b in t.conds):
            if imp is not given:
                raise Bad("other imports than the given ones are linked")
        elif not (imp.k == "agg" and imp.a[0].endswith("::Imports") and all(x.k == "call" and x.a[0].endswith("::default") for x in imp.a[2])) and \
                not (imp.k == "call" and imp.a[0].endswith("::default")):
            raise Bad("without imports something else than nothing is linked")
        return r[0], fld(r[0], 0, 0), mk("after", r[0].a[0], 1, r[0].a[1])

    def linked(self, t):
        """(resolved imports, store after linking) of a trace that got past linking"""
        call, res, aft = self.link(t)
        for k in self.cands(t):
            if k.k == "after" and k.a[0] == call.a[0] and k.a[2] == call.a[1]:
                aft = k
        return res, aft

    def cands(self, t):
        seen = set()
        for x in list(t.eff.values()) + [v for vs in self.A.entry.values() for v in vs]:
            for y in subterms(x):
                if y.k == "after" and y not in seen:
                    seen.add(y)
        return seen

    # -------------------------------------------------- what each list must hold
    def item_func(self, idx):
        p = self.pos["WasmFunctionInstance"]

        def f(it, d, y, i):
            if y.k != "agg" or not y.a[0].endswith("::FunctionInstance") or y.a[1] != self.es["FunctionInstance"]["Wasm"]:
                return "a function of another kind"
            w = y.a[2][0]
            if fld(w, None, p["func"]) is not d:
                return "a function that is not the one declared at this place: %s" % show(fld(w, None, p["func"]))[:100]
            if fld(w, None, p["owner"]) is not idx:
                return "the function's owner is not the new instance: %s" % show(fld(w, None, p["owner"]))[:100]
        return f

    def made(self, it, y, d, pat, what):
        if y.k != "fld" or y.a[0].k != "call" or not re.search(pat, y.a[0].a[0]) or y.a[0].a[1][0] is not d:
            return "not the %s of the declaration at this place: %s" % (what, show(y)[:100])
        if not self.okay(it, y.a[0]):
            return "a %s that could not be made is used" % what

    def okay(self, it, call):
        x = discr(call, (0, 1))
        return any(a is x and isc(b) and b.a[1] == 0 for a, b in it.conds) or implied(it.conds, op("eq", 64, x, c(64, 0)))

    def item_table(self, it, d, y, i):
        return self.made(it, y, d, r"::TableInstance::new$", "table")

    def item_memory(self, it, d, y, i):
        r = self.made(it, y, d, r"::MemoryInstance::new(_lazy)?$", "memory")
        if r:
            return r
        x = y.a[0].a[1][1]
        x = x.a[0] if x.k == "at" else x
        names = []
        while x.k == "fld":
            names.append(x.a[2])
            x = x.a[0]
            if x.k == "deref":
                x = x.a[0]
        if not names or names[-1] != self.pos["Store"]["engine"] or names[0] != self.pos["Config"]["memory_backend"] or not self.storeish(x):
            return "the memory is not made with the engine's configuration"

    def storeish(self, x):
        for _ in range(40):
            if x is mk("v", "p1") or x is P1 or x.k == "after" and x.a[0].endswith("::Imports::link"):
                return True
            if x.k == "upd":
                x = x.a[0]
            elif x.k == "lp" and len(self.A.entry[x]) == 1:
                x = next(iter(self.A.entry[x]))
            else:
                return False
        return False

    def evaluated(self, x, root, init, globals_, funcs):
        """x is the value of the constant expression in the store as it is"""
        if x.k != "call" or not x.a[0].endswith("::eval_const"):
            return "not the value of its initialiser: %s" % show(x)[:100]
        un = lambda y: y.a[0] if y.k in ("at",) else y
        st, ins, gl, fn = [un(y) for y in x.a[1]]
        if ins is not init and ins is not fld(init, None, 0) and ins is not mk("deref", fld(init, None, 0)):
            return "another expression is evaluated: %s" % show(ins)[:120]
        if root is not None and st is not root:
            return "it is evaluated in another state of the store"
        for got, want, what in ((gl, globals_, "globals"), (fn, funcs, "functions")):
            if got is not want and got is not fld(want, None, 0):
                return "its %s are not the instance's: %s" % (what, show(got)[:100])

    def item_global(self, root, gl, fn):
        p, q = self.pos["GlobalInstance"], self.pos["Global"]

        def f(it, d, y, i):
            v, ty = fld(y, None, p["value"]), fld(y, None, p["ty"])
            if ty is not fld(d, None, q["ty"]):
                return "the global does not have its declared type"
            if v.k != "fld" or v.a[1:] != (0, 0) or not (v.a[0].k == "call"):
                return "the global does not hold the value of its initialiser: %s" % show(v)[:100]
            r = self.evaluated(v.a[0], root, fld(d, None, q["init"]), gl, fn)
            if r:
                return r
            if not self.okay(it, v.a[0]):
                return "a value that could not be computed is used"
        return f

    # -------------------------------------------------- segments
    def kind_of(self, it, kind, enum):
        vs = self.enums[enum]["v"]
        x = discr(kind, tuple(v[1] for v in vs))
        for v in vs:
            if any(a is x and isc(b) and b.a[1] == v[1] for a, b in it.conds) or implied(it.conds, op("eq", 64, x, c(64, v[1]))):
                return v[0]
        # all but one excluded
        out = {n for a, b in it.conds if a.k == "notin" and a.a[0] is x and b is TRUE for n in a.a[1]}
        left = [v[0] for v in vs if v[1] not in out]
        return left[0] if len(left) == 1 else None

    def sees(self, it, x, v):
        return any(a is x and isc(b) and b.a[1] == v for a, b in it.conds) or implied(it.conds, op("eq", 64, x, c(64, v))) or \
            x.k == "discr" and v in (0, 1) and x.a[1] == (0, 1) and implied(it.conds, op("eq", 64, x, c(64, 1 - v)), 0)

    def changed(self, it):
        """paths of the store an iteration changes -> (before, after)"""
        r = {}
        for k, v in it.eff.items():
            path, x = [], k
            while x.k == "fld":
                path.append(x.a[2])
                x = x.a[0]
            if x.k == "lp":
                e = next(iter(self.A.entry[x]))
                ep, y = [], e
                while y.k == "fld" and not self.storeish(y):
                    ep.append(y.a[2])
                    y = y.a[0]
                if not self.storeish(y):
                    continue
                pre = ep[::-1] + path[::-1]
            elif self.storeish(x):
                pre = path[::-1]
            else:
                continue
            for p, ov, nv in leaves(k, v):
                r[tuple(pre) + tuple(i for _, i in p)] = (ov, nv)
        return r

    def trap_of(self, it, entry, head):
        """the iteration's record of an earlier trap: a symbol of its pass that starts as `entry` says"""
        r = set()
        for a, b in it.conds:
            for x in subterms(a):
                if x.k == "lp" and x.a[0] == head and all(entry(e) for e in self.A.entry.get(x, ())):
                    r.add(x)
        for x in it.eff:
            if x.k == "lp" and x.a[0] == head and all(entry(e) for e in self.A.entry.get(x, ())):
                r.add(x)
        return r

    def segment(self, it, x, i, decl, what, enum, names, y, instance, entry, payload, lists):
        """one iteration over an element or data segment; returns the kinds of outcome it shows"""
        S, St = self.pos["Store"], self.pos["State"]
        gl, fn, tb = lists
        kind = fld(decl, None, names["kind"])
        k = self.kind_of(it, kind, enum)
        if k is None:
            raise Bad("a segment's kind is not looked at")
        ts = self.trap_of(it, entry, x.a[0])
        ts = {s for s in ts if any(s in t.eff for t in self.by.get(s, []))} or ts
        trapped = any(self.sees(it, discr(s, (0, 1)), 1) for s in ts)
        clear = any(self.sees(it, discr(s, (0, 1)), 0) for s in ts)
        newtrap = [s for s in ts if it.eff.get(s, s) is not s]
        kept = y.k == "agg" and y.a[0].endswith("Option") and y.a[1] == 1
        gone = y.k == "agg" and y.a[0].endswith("Option") and y.a[1] == 0
        if not kept and not gone:
            raise Bad("a segment neither kept nor dropped: %s" % show(y)[:80])
        if kept:
            payload(it, y.a[2][0], decl)
        ch = self.changed(it)
        own = (S["state"], St["elements" if what == "element" else "data"])
        tgt = (S["state"], St["tables"])
        other = [p for p in ch if p != own and p != tgt]
        if other:
            raise Bad("the store is changed elsewhere: %s" % (other[0],))
        inits = [mk("call", n, a) for n, a, _ in it.evs if re.search(r"TableInstance::init$" if what == "element" else r"::write_all$", n) and
                 any(z is i for z in subterms(mk("t", *a)))]
        if k == "Passive" or k == "Declared":
            if inits or newtrap or tgt in ch:
                raise Bad("a %s segment does something" % k.lower())
            if (k == "Passive") != kept:
                raise Bad("a %s segment is %s" % (k.lower(), "kept" if kept else "dropped"))
            return {k}
        if trapped and not clear:
            if inits or newtrap or tgt in ch:
                raise Bad("an active segment is copied after a trap")
            if not kept:
                raise Bad("an active segment is dropped after a trap")
            return {"after trap"}
        if len(inits) != 1:
            raise Bad("an active segment is copied %d times" % len(inits))
        call = inits[0]
        if not clear:
            raise Bad("an active segment is copied though an earlier one may have trapped")
        a = [z.a[0] if z.k == "at" else z for z in call.a[1]]
        v = self.es[enum]["Active"]
        af = {n: j for j, (n, _) in enumerate(next(q for q in self.enums[enum]["v"] if q[1] == v)[2])}
        # the target: the instance's item the segment names
        tidx = fld(kind, v, af["table" if what == "element" else "mem"])
        addr = sel(tb, self.z(tidx))
        st = fld(fld(x, None, S["state"]), None, St["tables" if what == "element" else "memories"])
        target = sel(st, self.z(addr))
        got = a[0]
        if what == "data":
            got = self.inner(got)
            if not any(z is target for z in got):
                raise Bad("it is copied to another memory than the segment names")
        elif got is not target:
            raise Bad("it is copied to another table than the segment names: %s" % show(got)[:140])
        # where
        off = fld(kind, v, af["offset"])
        r = self.offset(it, a[1], x, off, gl, fn)
        if r:
            raise Bad(r)
        payload(it, a[2], decl)
        # the outcome
        if what == "element":
            bad, good = 1, 0
        else:
            bad, good = 0, 1
        d = discr(call, (0, 1))
        if self.sees(it, d, good):
            if kept or newtrap:
                raise Bad("a copied active segment is %s" % ("kept" if kept else "a trap"))
            out = "copied"
        elif self.sees(it, d, bad):
            if not newtrap:
                raise Bad("a segment out of bounds does not trap")
            nt = it.eff[newtrap[0]]
            if nt.k != "agg" or not nt.a[0].endswith("Option") or nt.a[1] != 1:
                raise Bad("a trap is forgotten")
            w = nt.a[2][0]
            if what == "element" and w is not fld(call, 1, 0):
                raise Bad("another trap is recorded")
            if what == "data" and not (w.k == "agg" and w.a[0].endswith("::Trap") and w.a[1] == self.es["Trap"]["MemoryOutOfBounds"]):
                raise Bad("another trap is recorded: %s" % show(w)[:60])
            if not kept:
                raise Bad("a segment that was not copied is dropped")
            out = "trap"
        else:
            raise Bad("the outcome of a copy is not looked at")
        if tgt in ch and what == "data":
            raise Bad("a data segment changes a table")
        if what == "element":
            n = ch.get(tgt)
            if n is None or not (n[1].k == "store" and n[1].a[1] is self.z(addr) and n[1].a[2].k == "after" and n[1].a[2].a[0] == call.a[0]):
                raise Bad("what is copied does not reach the table")
        return {out}

    def z(self, x):
        return zext(64, 32, x)

    def inner(self, x):
        """a memory's byte array, and what holds it"""
        r = [x]
        for _ in range(12):
            if x.k == "lp" and len(self.A.entry[x]) == 1:
                x = next(iter(self.A.entry[x]))
            elif x.k in ("fld", "deref", "at", "ref"):
                x = x.a[0]
            else:
                break
            r.append(x)
        return r

    def offset(self, it, got, x, off, gl, fn):
        """the evaluated offset: 32-bit values zero-extended"""
        g = got
        if g.k == "op" and g.a[0] == "zext":
            g = g.a[2]
            w = 32
        else:
            w = 64
        tv = self.es["TinyWasmValue"]
        want = tv["Value32"] if w == 32 else tv["Value64"]
        if g.k != "fld" or g.a[1] != want or g.a[0].k != "fld" or g.a[0].a[1:] != (0, 0):
            return "it is copied to %s, not to its offset" % show(got)[:100]
        call = g.a[0].a[0]
        r = self.evaluated(call, x, off, gl, fn)
        if r:
            return "its offset: " + r
        if not self.okay(it, call) or not self.sees(it, discr(g.a[0], tuple(sorted(tv.values()))), want):
            return "an offset of another type is used"

    # -------------------------------------------------- everything a trace leaves behind
    def chain(self, v):
        """v and the values it was before"""
        r = []
        for _ in range(60):
            r.append(v)
            if v.k == "push":
                v = v.a[0]
                continue
            path, x = [], v
            while x.k == "fld":
                path.append((x.a[1], x.a[2]))
                x = x.a[0]
            if x.k != "lp" or len(self.A.entry[x]) != 1:
                return r
            v = next(iter(self.A.entry[x]))
            for p in path[::-1]:
                v = fld(v, *p)
        return r

    def count(self, first, base):
        """first is the number of items of `base`"""
        x = first
        if x.k == "op" and x.a[0] == "trunc":
            x = x.a[2]
        if x.k != "len":
            return False
        segs = self.unfold(x.a[0])
        return len(segs) == 1 and segs[0][1] is base

    def instance(self, t):
        """the instance's record"""
        hs = []
        for k, v in t.o.st.mem.items():
            if k.k != "H":
                continue
            v = t.sub(v)
            if v.k == "agg" and len(v.a[2]) > 2 and v.a[2][2].k == "agg" and v.a[2][2].a[0].endswith("::ModuleInstanceInner"):
                hs.append((k, v.a[2][2]))
        if len(hs) != 1:
            raise Bad("%d instances are made" % len(hs))
        return hs[0]

    def check_lists(self, t, which):
        """what a completed instantiation leaves in the store and the instance"""
        call, res, aft = self.link(t)
        res, aft = self.linked(t)
        h, rec = self.instance(t)
        S, St, I, R = (self.pos[n] for n in ("Store", "State", "ModuleInstanceInner", "ResolvedImports"))
        final = {k: self.final(t, (S["state"], St[k])) for k in ("funcs", "tables", "memories", "globals", "elements", "data")}
        boxed = lambda n: rec.a[2][I[n]].a[0] if rec.a[2][I[n]].k == "box" else rec.a[2][I[n]]
        insts = self.final(t, (S["module_instances"],))
        base = {k: fld(fld(aft, None, S["state"]), None, St[k]) for k in final}
        idx = rec.a[2][I["idx"]]
        addrs = {"funcs": boxed("func_addrs"), "tables": boxed("table_addrs"), "memories": boxed("mem_addrs"), "globals": boxed("global_addrs"),
                 "elements": boxed("elem_addrs"), "data": boxed("data_addrs")}
        if which == "idx":
            if idx not in [trunc(32, mk("len", fld(x, None, S["module_instances"])), 64) for x in (P1, aft)]:
                raise Bad("its index is not its place in the store: %s" % show(rec.a[2][I["idx"]])[:100])
            segs = self.unfold(insts)
            if [s[0] for s in segs] != ["base", "one"] or segs[0][1] is not fld(aft, None, S["module_instances"]):
                raise Bad("not exactly one instance is added to the store")
            if not any(z is h for z in subterms(segs[1][1])):
                raise Bad("the instance added is not the new one")
            for n, v in (("types", self.M("func_types")), ("func_type_idxs", self.M("func_type_idxs")), ("func_start", self.M("start_func")), ("exports", self.M("exports"))):
                if rec.a[2][I[n]] is not v:
                    raise Bad("its %s are not the module's: %s" % (n, show(rec.a[2][I[n]])[:80]))
            i = rec.a[2][I["store_id"]]
            if self.unfold(i) not in [[("base", fld(x, None, S["id"]))] for x in (aft, P1)]:
                raise Bad("its store is another one: %s" % show(i)[:80])
            return
        if which in ("funcs", "tables", "memories", "globals"):
            decl = {"funcs": "funcs", "tables": "table_types", "memories": "memory_types", "globals": "globals"}[which]
            n = mk("len", self.slice(decl))
            segs = self.unfold(final[which])
            if segs[0][1] is not base[which]:
                raise Bad("the store's items of before are not kept: %s" % show(segs[0][1])[:100])
            mine = self.unfold(addrs[which])
            ib = fld(res, None, R[which])
            skip = which == "memories" and self.sees(t, discr(self.M("local_memory_allocation"), (0, 1, 2)), dict(self.es["LocalMemoryAllocation"])["Skip"])
            if skip and len(segs) == 1:
                if len(mine) != 1 or mine[0][1] is not ib:
                    raise Bad("addresses of memories that were not made")
                return
            gl, fn = addrs["globals"], addrs["funcs"]
            item = {"funcs": self.item_func(idx), "tables": self.item_table, "memories": self.item_memory, "globals": self.item_global(None, gl, fn)}[which]
            self.per_item(t, segs, self.slice(decl), item)
            self.addresses(t, addrs[which], ib, base[which], n)
            return
        # elements and data
        decl = {"elements": "elements", "data": "data"}[which]
        segs = self.unfold(final[which])
        if segs[0][1] is not base[which]:
            raise Bad("the store's items of before are not kept: %s" % show(segs[0][1])[:100])
        mine = self.unfold(addrs[which])
        if not is_empty(mine[0][1]):
            raise Bad("addresses that do not belong to it: %s" % show(mine[0][1])[:100])
        if len(segs) == 1 and len(mine) == 1:
            return self.per_item(t, segs, self.slice(decl), None)
        if [s[0] for s in segs] != ["base", "loop"] or [s[0] for s in mine] != ["base", "loop"]:
            raise Bad("its %s segments are not set up in one pass each" % which)
        return final, addrs, segs, mine

    def root(self, sym):
        return sym

    def seg_all(self, t, which, cover):
        """the element (or data) segments of a trace that got through them"""
        r = self.check_lists(t, which)
        if r is None:
            return
        final, addrs, segs, mine = r
        _, x, path = segs[1]
        sym = x
        key = (which, sym, mine[1][1], addrs["tables" if which == "elements" else "memories"], addrs["globals"], addrs["funcs"])
        decls = self.slice("elements" if which == "elements" else "data")
        n = mk("len", decls)
        names = self.pos["Element" if which == "elements" else "Data"]
        call, res, aft = self.link(t)
        res, aft = self.linked(t)
        S, St = self.pos["Store"], self.pos["State"]
        base = fld(fld(aft, None, S["state"]), None, St[which])
        if key not in self.done:
            entry = self.entry_trap(t, which)
            asteps = {id(it): y for it, y in self.steps(mine[1])}
            for it, y in self.steps(segs[1]):
                if y is None:
                    raise Bad("a segment is left out")
                a = asteps.get(id(it))
                if a is None:
                    raise Bad("a segment's address is left out")
                ok = [i for i in self.counter(it, c(64, 0)) if implied(it.conds, op("lt_u", 64, i, n))]
                good = None
                for i in ok:
                    fs = [z for z in subterms(a) if z.k == "len" and self.count(z, base)]
                    if any(a is op("add", 32, trunc(32, i, 64), trunc(32, f, 64)) for f in fs) or \
                            a.k == "op" and a.a[0] == "trunc" and a.a[2].k == "len" and a.a[2].a[0] is self.at(x, path):
                        good = i
                        break
                if good is None:
                    raise Bad("a segment's address is not its place in the store: %s" % show(a)[:100])
                w = fld(y, None, 0)
                out = self.segment(it, x, good, sel(decls, good), "element" if which == "elements" else "data",
                                   "ElementKind" if which == "elements" else "DataKind", names, w, None, entry, self.payload(which, x, addrs),
                                   (addrs["globals"], addrs["funcs"], addrs["tables" if which == "elements" else "memories"]))
                cover |= out
            self.done.add(key)
        # all of them
        if not any(a.k == "op" and a.a[0] == "lt_u" and isc(b) and b.a[1] == 0 and a.a[3] is n and a.a[2].k == "lp" and a.a[2].a[0] == x.a[0] and
                   self.A.entry.get(a.a[2]) == {c(64, 0)} for a, b in t.conds):
            raise Bad("the pass may end before the last segment")

    def at(self, x, path):
        for p in path:
            x = fld(x, *p)
        return x

    def traps(self, t, which):
        """the records of a trap that the element (or data) pass keeps"""
        final = self.final(t, (self.pos["Store"]["state"], self.pos["State"][which]))
        segs = self.unfold(final)
        r = set()
        for s in segs[1:]:
            if s[0] == "loop":
                for it in self.by[s[1]]:
                    for k, v in it.eff.items():
                        if k.k == "lp" and k.a[0] == s[1].a[0] and v.k == "agg" and v.a[0].endswith("Option") and v.a[1] == 1:
                            r.add(k)
        return r

    def entry_trap(self, t, which):
        if which == "elements":
            return lambda e: e.k == "agg" and e.a[0].endswith("Option") and e.a[1] == 0
        early = self.traps(t, "elements")
        return lambda e: e in early

    def bits_of_ref(self, x):
        """a reference value's address"""
        return fld(fld(x, self.es["TinyWasmValue"]["ValueRef"], 0), None, 0)

    def payload(self, which, x, addrs):
        names = self.pos["Element" if which == "elements" else "Data"]
        gl, fn = addrs["globals"], addrs["funcs"]
        EI, TE = self.es["ElementItem"], self.es["TableElement"]

        def data(it, got, decl):
            want = mk("deref", fld(fld(decl, None, names["data"]), None, 0))
            if got is not want and got is not want.a[0]:
                raise Bad("other bytes than the segment's: %s" % show(got)[:100])

        def item(it, d, y, i):
            if y.k != "agg" or not y.a[0].endswith("::TableElement"):
                return "not a table element: %s" % show(y)[:80]
            k = self.kind_of(it, d, "ElementItem")
            if k == "Func":
                if y.a[1] != TE["Initialized"] or y.a[2][0] is not sel(fn, self.z(fld(d, EI["Func"], 0))):
                    return "not the address of the function it names: %s" % show(y)[:120]
                return
            if k != "Expr":
                return "its kind is not looked at"
            calls = [mk("call", n, a) for n, a, _ in it.evs if n.endswith("::eval_const")]
            call = [z for z in calls if self.evaluated(z, None, fld(d, EI["Expr"], 0), gl, fn) is None]
            if not call:
                return "not the value of its initialiser"
            v = fld(call[-1], 0, 0)
            if not self.sees(it, discr(v, tuple(sorted(self.es["TinyWasmValue"].values()))), self.es["TinyWasmValue"]["ValueRef"]) or not self.okay(it, call[-1]):
                return "a value that is not a reference"
            b = self.bits_of_ref(v)
            isnull = [bb.a[1] for a, bb in it.conds if isc(bb) and a.k == "op" and a.a[0] == "eq" and any(z.k == "fld" and z.a[0] is v for z in subterms(a))]
            if y.a[1] == TE["Uninitialized"]:
                if isnull != [1]:
                    return "a reference is lost"
            elif isnull != [0] or not (y.a[2][0].k == "fld" and any(z is v for z in subterms(y.a[2][0]))):
                return "another reference: %s" % show(y)[:120]

        def elements(it, got, decl):
            items = mk("deref", fld(fld(decl, None, names["items"]), None, 0))
            n = mk("len", items)
            segs = self.unfold(got)
            if not is_empty(segs[0][1]):
                raise Bad("its items do not begin with its first")
            if len(segs) == 1:
                if not implied(it.conds, op("eq", 64, n, c(64, 0))) and not implied(it.conds, op("lt_u", 64, c(64, 0), n), 0):
                    raise Bad("the segment's items are left out")
                return
            if [s[0] for s in segs] != ["base", "loop"]:
                raise Bad("its items are not made in one pass")
            cs = None
            for jt, y in self.steps(segs[1]):
                js = [j for j in self.counter(jt, c(64, 0)) if implied(jt.conds, op("lt_u", 64, j, n))]
                if not js:
                    if any(a.k == "op" and a.a[0] == "lt_u" and a.a[2].k == "lp" and a.a[2].a[0] == segs[1][1].a[0] and
                           any(z.k == "sel" for z in subterms(a.a[3])) and a.a[3] is not n for a, _ in jt.conds):
                        continue   # the same pass, for another segment
                    raise Bad("a pass over something else than the segment's items")
                if y is None:
                    raise Bad("an item is left out")
                good = [j for j in js if item(jt, sel(items, j), y, j) is None]
                if not good:
                    raise Bad("an item: " + item(jt, sel(items, js[0]), y, js[0]))
                cs = good if cs is None else [j for j in cs if j in good]
            if not cs:
                raise Bad("the segment's items are not all made")
            if not any(implied(it.conds, op("lt_u", 64, j, n), 0) for j in cs):
                raise Bad("the segment's last items may be left out")
        return elements if which == "elements" else data

    # -------------------------------------------------- how it ends
    def endings(self):
        """what each way to leave an instantiation leaves behind; {rule key: complaint or None}"""
        S = self.pos["Store"]
        r = {k: None for k in ("idx", "funcs", "tables", "memories", "globals", "elements", "data", "trap", "fail", "panic")}
        seen = {"trap": 0, "ok": 0, "fail": 0}
        cover = {"elements": set(), "data": set()}

        def note(k, e):
            r[k] = r[k] or str(e)

        def done(t):
            for k in ("idx", "funcs", "tables", "memories", "globals"):
                try:
                    if not r[k]:
                        self.check_lists(t, k)
                except Bad as e:
                    note(k, e)
            for k in ("elements", "data"):
                try:
                    if not r[k]:
                        self.seg_all(t, k, cover[k])
                except Bad as e:
                    note(k, e)
        for t in self.ts:
            if t.kind == "panic":
                why = str(t.why)
                if not (why.startswith("('assert:ovf") or "'alloc::" in why):
                    note("panic", "it can panic: %s" % why[:150])
                continue
            if t.kind != "return":
                note("panic", "it does not return")
                continue
            try:
                segs = self.unfold(self.final(t, (S["module_instances"],)))
                added = [s for s in segs if s[0] != "base"]
                late = self.traps(t, "data")
                if t.ok:
                    seen["ok"] += 1
                    h, _ = self.instance(t)
                    if not any(z is h for z in subterms(t.value)):
                        raise Bad("another instance is returned")
                    if not late or any(self.entry_of(s, late) for s in late):
                        raise Bad("a trap of an element segment is forgotten by the data segments")
                    if not any(self.sees(t, discr(s, (0, 1)), 0) for s in late):
                        raise Bad("it succeeds though a segment trapped")
                    done(t)
                elif any(self.sees(t, discr(s, (0, 1)), 1) for s in late):
                    seen["trap"] += 1
                    if not any(z is fld(s, 1, 0) for s in late for z in subterms(t.value)):
                        raise Bad("the error is not the segment's trap: %s" % show(t.value)[:100])
                    if len(added) != 1:
                        raise Bad("the instance is not kept though segments were written")
                    done(t)
                else:
                    seen["fail"] += 1
                    if added:
                        note("fail", "an instance that could not be set up is added to the store")
            except Bad as e:
                note("trap", e)
        for k, n in seen.items():
            if not n:
                note("trap", "no way to end with: %s" % k)
        for k, want in (("elements", {"Passive", "Declared", "copied", "trap", "after trap"}), ("data", {"Passive", "copied", "trap", "after trap"})):
            if want - cover[k]:
                note(k, "not seen: %s" % ", ".join(sorted(want - cover[k])))
        return r, seen

    def entry_of(self, s, late):
        """the data pass's record of a trap does not start as the element pass left it"""
        es = self.A.entry.get(s, ())
        return not all(e.k == "lp" and self.is_trap(e) for e in es)

    def is_trap(self, e):
        return any(k is e and v.k == "agg" and v.a[0].endswith("Option") and v.a[1] == 1 for t in self.by.get(e, ()) for k, v in t.eff.items())


class Const:
    """constant expressions"""

    def __init__(self, chk, db):
        self.chk = chk
        self.db = db
        self.A = Api(db, r"OperatorsIterator.*next$|OperatorsReader.*::next$|::convert_heaptype$", outcomes=20000)
        self.pos, self.enums = self.A.layout()
        self.es = {n: {v[0]: v[1] for v in e["v"]} for n, e in self.enums.items()}

    def one(self, pat):
        fs = self.A.fn(pat)
        if len(fs) != 1:
            raise Missing(pat)
        return fs[0]

    def pushed(self, t, deff):
        r = [(k, v) for k, v in t.eff.items() if k.k == "lp" and any(z.k == "push" for z in (v,))]
        if len(r) != 1:
            raise Bad("an iteration leaves %d lists longer" % len(r))
        return r[0]

    def variant(self, t, x, enum):
        vs = {v: k for k, v in self.es[enum].items()}
        for a, b in t.conds:
            if a.k == "discr" and a.a[0] is x and isc(b):
                return vs.get(b.a[1])
        return None

    def spec(self, t, ins, k, st):
        """(the value the instruction pushes, the stack it pushes it on)"""
        tv, ci = self.es["TinyWasmValue"], self.es["ConstInstruction"]
        v = ci[k]
        x = fld(ins, v, 0)
        val = lambda n, y: (n, y)
        if k in ("I32Const", "I64Const"):
            return val("Value32" if k[1:3] == "32" else "Value64", x), st
        if k in ("F32Const", "F64Const"):
            return val("Value32" if k[1:3] == "32" else "Value64", bits_of("f" + k[1:3], x)), st
        if k == "V128Const":
            return val("Value128", x), st
        if k == "GlobalGet":
            a = sel(mk("deref", mk("v", "p3")), zext(64, 32, x))
            g = sel(fld(fld(P1, None, self.pos["Store"]["state"]), None, self.pos["State"]["globals"]), zext(64, 32, a))
            return fld(g, None, self.pos["GlobalInstance"]["value"]), st
        if k in ("RefFunc", "RefExtern"):
            some = [b.a[1] for a, b in t.conds if a.k == "discr" and a.a[0] is x and isc(b)]
            if some == [0]:
                return val("ValueRef", None), st
            if k == "RefFunc" and some == [1]:
                return val("ValueRef", sel(mk("deref", mk("v", "p4")), zext(64, 32, fld(x, 1, 0)))), st
            return None, st
        m = re.match(r"I(32|64)(Add|Sub|Mul)$", k)
        if m and st is not None:
            from engine import spop, slast
            w = int(m.group(1))
            a, b = slast(spop(st)), slast(st)
            n = "Value%d" % w
            x, y = fld(a, tv[n], 0), fld(b, tv[n], 0)
            r = {"Add": lambda: op("add", w, x, y), "Sub": lambda: op("sub", w, x, y), "Mul": lambda: op("mul", w, x, y)}[m.group(2)]()
            for z in (a, b):
                if not any(p.k == "discr" and p.a[0] is z and isc(q) and q.a[1] == tv[n] for p, q in t.conds):
                    return None, st
            return val(n, r), spop(spop(st))
        return None, st

    def same(self, got, want):
        if want is None:
            return False
        if isinstance(want, T):
            return got is want
        n, y = want
        tv = self.es["TinyWasmValue"]
        if got.k != "agg" or not got.a[0].endswith("::TinyWasmValue") or got.a[1] != tv[n]:
            return False
        z = got.a[2][0]
        while z.k == "agg" and len(z.a[2]) == 1:
            z = z.a[2][0]
        if y is None:
            return isc(z) and sval(z) == -1
        return z is y

    def evaluate(self):
        f = self.one(r"::Store::eval_const$")
        ts, nx = self.A.loops(f)
        list_ = mk("deref", mk("v", "p2"))
        n = mk("len", list_)
        seen = set()
        for t in ts + nx:
            if t.kind in ("return",) and not t.ok:
                continue
            if t.kind == "panic":
                raise Bad("it can panic: %s" % str(t.why)[:100])
            if any(k.k != "lp" for k in t.eff):
                raise Bad("it changes something")
            if t in nx:
                s, v = self.pushed(t, f.deff)
                if not all(is_empty(e) for e in self.A.entry[s]):
                    raise Bad("the stack does not begin empty")
                js = [j for j, w in t.eff.items() if j.k == "lp" and w is op("add", 64, j, c(64, 1)) and self.A.entry.get(j) == {c(64, 0)} and
                      implied(t.conds, op("lt_u", 64, j, n))]
                ok = False
                for j in js:
                    ins = sel(list_, j)
                    k = self.variant(t, ins, "ConstInstruction")
                    if k is None:
                        continue
                    want, rest = self.spec(t, ins, k, s)
                    if self.same(v.a[1], want) and v.a[0] is rest:
                        ok = True
                        seen.add("stack " + k)
                    else:
                        raise Bad("%s computes %s" % (k, show(v)[:150]))
                if not ok:
                    raise Bad("an iteration that does not look at its instruction")
            elif implied(t.conds, op("eq", 64, n, c(64, 1))) and self.variant(t, sel(list_, c(64, 0)), "ConstInstruction"):
                ins = sel(list_, c(64, 0))
                k = self.variant(t, ins, "ConstInstruction")
                want, _ = self.spec(t, ins, k, None)
                if not self.same(t.value, want):
                    raise Bad("%s alone gives %s" % (k, show(t.value)[:150]))
                seen.add("alone " + k)
            else:
                v = t.value
                if v.k != "last" or v.a[0].k != "lp":
                    raise Bad("the result is not the last value: %s" % show(v)[:100])
                if not implied(t.conds, op("eq", 64, mk("len", v.a[0]), c(64, 1))):
                    raise Bad("the expression may leave several values")
                if not any(a.k == "op" and a.a[0] == "lt_u" and a.a[3] is n and isc(b) and b.a[1] == 0 for a, b in t.conds):
                    raise Bad("the expression's last instructions may be left out")
                seen.add("end")
        want = {"stack " + k for k in self.es["ConstInstruction"]} | {"end"}
        if want - seen:
            raise Bad("not computed: %s" % ", ".join(sorted(want - seen)))
        return len(seen)

    def decode(self):
        f = self.one(r"::process_const_operators$")
        ops = None
        for ctx in {id(g.ctx): g.ctx for l in self.db.by_def.values() for g in l}.values():
            for t in ctx.types:
                if t["k"] == "enum" and t["def"].startswith("wasmparser") and t["def"].endswith("::Operator"):
                    ops = {v[1]: (v[0], [x[0] for x in v[2]]) for v in t["v"]}
        if not ops:
            raise Missing("wasmparser's operators")
        ci = self.es["ConstInstruction"]
        names = {v: k for k, v in ci.items()}
        ts, nx = self.A.loops(f)
        got = {}
        for t in nx:
            s, v = self.pushed(t, f.deff)
            if v.a[0] is not s or not all(is_empty(e) for e in self.A.entry[s]):
                raise Bad("an iteration does not append one instruction")
            o = [(a.a[0], b.a[1]) for a, b in t.conds if a.k == "discr" and isc(b) and a.a[0].k == "fld" and b.a[1] in ops and len(a.a[1]) > 100]
            if len(o) != 1:
                raise Bad("an iteration that does not look at its operator")
            x, d = o[0]
            if x.a[1] != 0 or not (x.a[0].k == "fld" and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0].endswith("::next")):
                raise Bad("the operator is not the next one")
            k, fields = ops[d]
            y = v.a[1]
            if y.k != "agg" or not y.a[0].endswith("::ConstInstruction"):
                raise Bad("not an instruction: %s" % show(y)[:100])
            arg = fld(x, d, 0)
            n = names[y.a[1]]
            z = y.a[2][0] if y.a[2] else None
            if k in ("I32Const", "I64Const"):
                ok = n == k and z is arg
            elif k in ("F32Const", "F64Const"):
                w = z.a[2] if z.k == "op" and z.a[0] == "frombits" and z.a[1] == "f" + k[1:3] else None
                ok = n == k and w is not None and w.k == "call" and w.a[0].endswith("::bits") and any(q is arg for q in subterms(z))
            elif k == "V128Const":
                ok = n == k and any(q.k == "call" and q.a[0].endswith("V128::bytes") for q in subterms(z)) and any(q is arg for q in subterms(z)) and z.k in ("deref", "call")
            elif k == "GlobalGet":
                ok = n == k and z is arg
            elif k == "RefFunc":
                ok = n == k and z.k == "agg" and z.a[1] == 1 and z.a[2][0] is arg
            elif k == "RefNull":
                w = {b: a for a, b in self.es["WasmType"].items()}
                ty = [w.get(b.a[1]) for a, b in t.conds if a.k == "discr" and isc(b) and a.a[0].k == "fld" and a.a[0].a[0].k == "call" and
                      a.a[0].a[0].a[0].endswith("::convert_heaptype") and a.a[0].a[0].a[1][0] is arg]
                ok = n in ty and z.k == "agg" and z.a[1] == 0
            else:
                ok = n == k and z is None
            if not ok:
                raise Bad("%s becomes %s" % (k, show(y)[:120]))
            got.setdefault(k, set()).add(n)
        for t in ts:
            if t.kind == "return" and t.ok:
                x = t.value
                x = x.a[0] if x.k == "box" else x
                if x.k != "lp" or not all(is_empty(e) for e in self.A.entry[x]):
                    raise Bad("what is returned is not the list: %s" % show(x)[:100])
                if not any(a.k == "discr" and isc(b) and b.a[1] in ops and ops[b.a[1]][0] == "End" and len(a.a[1]) > 100 for a, b in t.conds):
                    raise Bad("it may end before the expression does")
            elif t.kind == "panic" and not str(t.why).startswith("('assert:ovf"):
                raise Bad("it can panic: %s" % str(t.why)[:100])
        want = set(ci) - {"RefExtern"} | {"RefNull"}
        if want - set(got):
            raise Bad("not understood: %s" % ", ".join(sorted(want - set(got))))
        return len(got)


class Start:
    def __init__(self, chk, db):
        self.db = db

    def run(self):
        A = Api(self.db, r"::Function::call$|::instantiate_no_start$|::validate_store$")
        pos, enums = A.layout()
        p1, p2 = mk("v", "p1"), mk("v", "p2")
        f = A.fn(r"::ModuleInstance::start$")
        if len(f) != 1:
            raise Missing("ModuleInstance::start")
        I = pos["ModuleInstanceInner"]
        rec = fld(mk("deref", fld(fld(mk("deref", p1), None, 0), None, 0)), None, 2)
        st = fld(rec, None, I["func_start"])
        d = discr(st, (0, 1))
        addr = sel(mk("deref", fld(fld(rec, None, I["func_addrs"]), None, 0)), zext(64, 32, fld(st, 1, 0)))
        seen = set()
        for t in A.run(f[0]):
            if t.kind != "return":
                continue
            calls = [(n, a) for n, a, _ in t.evs if n.endswith("::Function::call")]
            has = [b.a[1] for a, b in t.conds if a is d and isc(b)]
            if not has:
                if calls or t.ok:
                    raise Bad("a function is called without looking whether one is declared")
                continue
            if has[0] == 0:
                if calls:
                    raise Bad("a function is called though none is declared")
                if not t.ok or not (t.value.k == "agg" and t.value.a[1] == 0):
                    raise Bad("without a start function: %s" % show(t.value)[:80])
                seen.add("none")
                continue
            if len(calls) != 1:
                if t.ok or calls:
                    raise Bad("the start function is called %d times" % len(calls))
                continue
            fn, store, args = calls[0][1][0], calls[0][1][1], calls[0][1][2]
            fn = fn.a[0] if fn.k == "at" else fn
            F = pos["Function"]
            if fld(fn, None, F["addr"]) is not addr:
                raise Bad("another function is called: %s" % show(fld(fn, None, F["addr"]))[:100])
            if fld(fn, None, F["module_addr"]) is not fld(rec, None, I["idx"]):
                raise Bad("it is called for another instance")
            if store is not p2:
                raise Bad("it is called in another store")
            args = args.a[0] if args.k == "at" else args
            if not (args.k == "agg" and not args.a[2]) and not (args.k == "ref"):
                raise Bad("it is called with arguments: %s" % show(args)[:80])
            call = mk("call", calls[0][0], calls[0][1])
            res = [b.a[1] for a, b in t.conds if a.k == "discr" and a.a[0] is call and isc(b)]
            if res == [0] and t.ok:
                seen.add("done")
            elif res == [1] and not t.ok and t.value is fld(call, 1, 0):
                seen.add("failed")
            else:
                raise Bad("the start function's outcome is not the result's")
        if seen != {"none", "done", "failed"}:
            raise Bad("seen only: %s" % ", ".join(sorted(seen)))
        return "%s:%d" % (f[0].file, f[0].line)

    def whole(self):
        A = Api(self.db, r"::instantiate_no_start$|::ModuleInstance::start$")
        p1, p2, p3 = mk("v", "p1"), mk("v", "p2"), mk("v", "p3")
        f = A.fn(r"::ModuleInstance::instantiate$")
        if len(f) != 1:
            raise Missing("ModuleInstance::instantiate")
        seen = set()
        for t in A.run(f[0]):
            if t.kind != "return":
                raise Bad("it does not return")
            ev = [(n.split("::")[-1], mk("call", n, a)) for n, a, _ in t.evs]
            ns = [n for n, _ in ev if n in ("instantiate_no_start", "start")]
            if ns[:1] != ["instantiate_no_start"] or len(ns) > 2:
                raise Bad("what is called: %s" % ns)
            mkd = [x for n, x in ev if n == "instantiate_no_start"][0]
            if mkd.a[1] != (p1, p2, p3):
                raise Bad("something else is instantiated")
            r = [b.a[1] for a, b in t.conds if a.k == "discr" and a.a[0] is mkd and isc(b)]
            if r == [1]:
                if len(ns) != 1 or t.ok or t.value is not fld(mkd, 1, 0):
                    raise Bad("a failed instantiation is not reported as it is")
                seen.add("failed")
                continue
            if r != [0] or len(ns) != 2:
                raise Bad("the start function is not run after a successful instantiation")
            stc = [x for n, x in ev if n == "start"][0]
            a = stc.a[1][0]
            if not any(z is fld(mkd, 0, 0) for z in subterms(a)):
                raise Bad("another instance is started")
            q = [b.a[1] for x, b in t.conds if x.k == "discr" and x.a[0] is stc and isc(b)]
            if q == [1] and not t.ok and t.value is fld(stc, 1, 0):
                seen.add("start failed")
            elif q == [0] and t.ok and t.value is fld(mkd, 0, 0):
                seen.add("done")
            else:
                raise Bad("the outcome is not the start function's")
        if seen != {"failed", "start failed", "done"}:
            raise Bad("seen only: %s" % ", ".join(sorted(seen)))
        return "%s:%d" % (f[0].file, f[0].line)


TEXT = {"idx": "the instance has its place in the store as index, and its types, start function and exports are the module's; exactly it is added to the store",
        "funcs": "the functions", "tables": "the tables", "memories": "the memories", "globals": "the globals", "elements": "the element segments", "data": "the data segments",
        "trap": "it ends with the instance, a segment's trap, or an error", "fail": "a failed instantiation adds no instance", "panic": "it panics only when addresses run out"}


def run(chk):
    chk.rule("built", "after an instantiation the store holds what it held, then one item for each declaration of the module, in order, made from it; the instance's addresses are the imports', then exactly the new items'; "
             "globals hold their initialiser's value; segments are set up elements first, then data, in order: passive ones kept, declared ones dropped, active ones copied to their offset in their table or memory and dropped; "
             "the first that does not fit ends this, and is the result's trap", 10)
    chk.rule("const", "a constant expression is decoded operator by operator, and evaluated as WebAssembly says", 2)
    chk.rule("start", "the declared start function, and only it, is called once, after everything else, and its outcome is the instantiation's", 2)
    db = extract(("-p", "tinywasm"), CRATES)
    n = {}

    def built():
        i = Inst(chk, db)
        r, seen = i.endings()
        n.update({"traces": len(i.ts), "iterations": len(i.nx), "ends": seen})
        for k, e in r.items():
            chk.ob("built", k, not e, i.where, "%s: %s" % (TEXT[k], e) if e else "")

    def guard(rule, key, f, *a):
        try:
            w = f(*a)
            chk.ob(rule, key, True, w if isinstance(w, str) else "", "")
        except Bad as e:
            chk.ob(rule, key, False, "crates", str(e))

    def const():
        k = Const(chk, db)
        guard("const", "evaluate", k.evaluate)
        guard("const", "decode", k.decode)

    def start():
        k = Start(chk, db)
        guard("start", "start", k.run)
        guard("start", "instantiate", k.whole)
    chk.attempt("built", built)
    chk.attempt("const", const)
    chk.attempt("start", start)
    chk.extra.update(n)
    chk.assume = ["addresses fit in 32 bits", "linking only adds items to the store (P15)"]
    chk.trusted = ["the engine's models of Vec, slice, iterator and Option methods", "wasmparser hands the operators of an expression in order, and its floats' bits() are their bits"]
