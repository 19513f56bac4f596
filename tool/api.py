"""Outcomes of single functions: every trace with its conditions, effects on caller-visible places, calls and result."""
import re
import engine as E
from terms import *
from lib import Missing


class Trace:
    __slots__ = ("kind", "value", "conds", "eff", "evs", "o", "why", "ok", "sub")

    def __init__(self):
        self.sub = lambda x: x


class Api:
    def __init__(self, db, opaque="", concrete=None, outcomes=6000, steps=400000, models=None, **kw):
        self.db = db
        pat = r"^log::|^tinywasm(_parser|_types)?::log|^alloc::fmt::|^core::fmt::|^alloc::string::|::Error as "
        self.e = E.Engine(db, assume_capacity=True, opaque=pat + ("|" + opaque if opaque else ""), max_outcomes=outcomes, max_steps=steps, models=models, **kw)
        if concrete is not None:
            self.e.concrete = concrete

    def fn(self, pat):
        """the functions whose path matches"""
        r = [f for n, l in self.db.by_def.items() if re.search(pat, n) for f in l]
        if not r:
            raise Missing("function " + pat)
        return r

    def layout(self):
        """field positions of the crates' structs, and their enums"""
        pos, enums = {}, {}
        for ctx in {id(f.ctx): f.ctx for l in self.db.by_def.values() for f in l}.values():
            for t in ctx.types:
                if t["k"] == "struct" and t["def"].startswith("tinywasm") and t.get("v"):
                    pos.setdefault(t["def"].split("::")[-1], {x[0]: i for i, x in enumerate(t["v"][0][2])})
                elif t["k"] == "enum" and t["def"].startswith("tinywasm"):
                    enums.setdefault(t["def"].split("::")[-1], t)
        return pos, enums

    def callers(self, pat):
        """{def path of a function: (file, line)} of every function with a call to a function matching pat"""
        r = {}
        rx = re.compile(pat)
        fs = [f for l in self.db.by_def.values() for f in l] + list(self.db.poly_def.values())
        for f in fs:
            for b in f.blocks:
                t = b[1]
                if t[1] != "call" or t[2] is None:
                    continue
                names = [t[2][0]] + ([f.ctx.syms[t[2][1]]["def"]] if t[2][1] is not None else [])
                if any(rx.search(n) for n in names):
                    r.setdefault(f.deff, (f.file, f.line))
        return r

    def run(self, f, args=None):
        args = args or [mk("v", "p%d" % i) for i in range(1, f.argc + 1)]
        return [self.trace(o) for o in self.e.run(f, args)]

    def loops(self, f, args=None):
        """(traces, iterations): every loop is entered once, in an arbitrary state of what it changes; an iteration
        that comes back to the head is a Trace of kind "next" whose eff maps the symbols of that state to their next values"""
        self.e.havoc = lambda fn: True
        try:
            self.e.force = {}
            for _ in range(12):
                self.e.missed = {}
                ts = self.run(f, args)
                new = {k: v - self.e.force.get(k, set()) for k, v in self.e.missed.items()}
                if not any(new.values()):
                    break
                for k, v in new.items():
                    self.e.force.setdefault(k, set()).update(v)
            else:
                raise Missing("a loop whose changes are not understood")
            if any(self.e.missed.values()):
                raise Missing("a loop whose changes are not understood: %s" % str(self.e.missed)[:200])
            nx = []
            for d, snap, st, c0 in self.e.iters:
                t = Trace()
                t.kind, t.why, t.value, t.ok, t.o = "next", d, None, None, None
                t.conds = [(x[0], x[1]) for x in E.conds_list(st.conds)]
                t.eff = {}
                fid = len(st.frames) - 1
                for old, new in [(snap[0], st.locs[fid])] + list(zip(snap[2], st.locs[:fid])):
                    for k, v in new.items():
                        if k in old:
                            delta(old[k], v, t.eff)
                for root, v in st.mem.items():
                    old = snap[1].get(root, mk("deref", root))
                    if old is not v:
                        delta(old, v, t.eff, old)
                t.evs = [(ev.name, tuple(ev.args or ()), getattr(ev, "res", None)) for ev in E.Outcome("next", None, st).events if ev.kind == "call"]
                nx.append(t)
            self.entry = dict(self.e.entry)
            return self.fixed(ts, nx)
        finally:
            self.e.havoc = None

    def fixed(self, ts, nx):
        """what no iteration changes is what it was before the loop"""
        for t in nx:
            for k in t.eff:
                if k.k == "ref":
                    raise Missing("a loop that moves a pointer %s -> %s" % (show(k)[:200], show(t.eff[k])[:200]))
        for _ in range(3):
            n = len(ts) + len(nx)
            ts, nx = self.settle(ts, nx)
            if len(ts) + len(nx) == n:
                break
        return ts, nx

    def settle(self, ts, nx):
        moved = {k for t in nx for k, v in t.eff.items() if v is not k and self.entry.get(k) != {v}}
        for t in nx:
            t.eff = {k: v for k, v in t.eff.items() if k in moved or k.k != "lp"}
        m = {s: next(iter(v)) for s, v in self.entry.items() if s not in moved and len(v) == 1}
        for _ in range(6):
            n = {s: subst(v, m) for s, v in m.items()}
            if n == m:
                break
            m = n
        if m:
            memo = {}
            S = lambda x: subst(x, m, memo) if isinstance(x, (T, tuple)) else x
            for t in ts + nx:
                t.conds = [(S(a), S(b)) for a, b in t.conds]
                t.eff = {S(k): S(v) for k, v in t.eff.items()}
                t.evs = [(n, S(a), S(r)) for n, a, r in t.evs]
                t.value = S(t.value)
                t.sub = lambda x, S=S, P=t.sub: S(P(x))
            self.entry = {s: {S(x) for x in v} for s, v in self.entry.items() if s not in m}
        # what cannot happen once that is known
        fit = lambda t: not any(isinstance(b, T) and a.k == b.k == "c" and a is not b for a, b in t.conds)
        return [t for t in ts if fit(t)], [t for t in nx if fit(t)]

    def trace(self, o):
        t = Trace()
        t.o, t.kind, t.value, t.why = o, o.kind, o.value if o.kind == "return" else None, getattr(o, "why", None)
        t.conds = [(x[0], x[1]) for x in o.conds]
        t.eff = {}
        for root, val in o.st.mem.items():
            if root.k == "H":
                continue
            old = mk("deref", root)
            for p, ov, nv in leaves(old, val):
                k = old
                for var, i in p:
                    k = fld(k, var, i)
                t.eff[k] = nv
        t.evs = [(ev.name, tuple(ev.args or ()), getattr(ev, "res", None)) for ev in o.events if ev.kind == "call"]
        v = t.value
        t.ok = None
        if isinstance(v, T) and v.k == "agg" and v.a[0] == E.RES:
            t.ok = v.a[1] == 0
            t.value = v.a[2][0] if v.a[2] else None
        return t


def leaves(old, new):
    from summ import leaves as l
    return l(old, new)


def delta(old, new, out, root=None):
    if old is new:
        return
    if old.k == "lp":
        out[old] = new
    elif old.k == "ref" and (new.k != "ref" or old.a[0].k != "L" or new.a[0].k != "L"):
        out[old] = new
    elif old.k == "agg" and new.k == "agg" and old.a[0] == new.a[0] and old.a[1] == new.a[1] and len(old.a[2]) == len(new.a[2]):
        for a, b in zip(old.a[2], new.a[2]):
            delta(a, b, out)
    elif old.k == "upd" and new.k == "upd" and old.a[0] is new.a[0]:
        for var, i in sorted({k for k, _ in old.a[1]} | {k for k, _ in new.a[1]}, key=str):
            o = fld(old, var, i)
            delta(o, fld(new, var, i), out, None if root is None else o)
    elif root is not None:
        for p, ov, nv in leaves(old, new):
            k = old
            for var, i in p:
                k = fld(k, var, i)
            out[k] = nv


def contradictory(conds, axioms=None):
    """the conditions cannot all hold"""
    from lin import facts
    have = {}
    cs = []
    for a, b in conds:
        if a.k == "notin" or not isc(b):
            cs.append((a, b))
            continue
        v = b.a[1]
        while a.k == "op" and a.a[0] == "not" and a.a[1] == 1:
            a, v = a.a[2], 1 - v
        if have.setdefault(a, v) != v:
            return True
        cs.append((a, c(b.a[0], v)))
    for a, b in cs:
        if a.k == "notin" and a.a[0] in have and have[a.a[0]] in a.a[1] and b is TRUE:
            return True
        if isc(a) and isc(b) and a.a[1] != b.a[1]:
            return True
    return facts(cs, axioms).infeasible()


def implied(conds, pred, val=1, axioms=None):
    """under the conditions the boolean term pred has value val"""
    if isc(pred):
        return pred.a[1] == val
    for a, b in conds:
        if a is pred and isc(b):
            return b.a[1] == val or contradictory(conds, axioms)
    k = (tuple(conds), pred, val) if axioms is None else None
    if k in MEMO:
        return MEMO[k]
    r = contradictory(conds + [(pred, c(1, 1 - val))], axioms)
    if k is not None:
        MEMO[k] = r
    return r


MEMO = {}
