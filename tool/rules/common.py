"""Shared by the operator rules: lowering + executor models of a set of operators, and what a trace accesses."""
import engine as E
from terms import *
from lib import extract, Missing
from lower import LowerModel
from summ import ExecModel, find_path, term_at
from compose import Composer, S32, S64, S128, IP

SZ = {"i32": S32, "f32": S32, "i64": S64, "f64": S64, "v128": S128}
STUB = ["tinywasm_types", "tinywasm_parser", "tinywasm", "twstub"]     # with concrete instances of the generic interface
CRATES = ["tinywasm_types", "tinywasm_parser", "tinywasm"]


class Ops:
    """lowering and executor summaries of the operators named"""

    def __init__(self, chk, names, budgeted=False, extra=(), db=None, **kw):
        self.chk = chk
        self.db = db = db or extract(("-p", "tinywasm"), CRATES)
        self.L = LowerModel(db, only=set(names))
        need = set(extra)
        for n in names:
            for o in self.L.res.get(n, ()):
                for y in o.emitted or ():
                    i = self.L.insn(y)
                    if i:
                        need.add(i[0])
        self.M = ExecModel(db, budgeted=budgeted, only=need, **kw)
        self.C = Composer(self.M)
        ctx = self.M.ctx
        st = self.M.f.locals[1]
        self.vecs = {}
        for ty in ("MemoryInstance", "TableInstance", "FunctionInstance", "GlobalInstance", "ElementInstance", "DataInstance"):
            r = find_path(ctx, st, lambda t, i, ty=ty: t.get("def") == "alloc::vec::Vec" and ctx.types[t["a"][0]].get("def", "").endswith("::" + ty), maxd=8)
            if r:
                self.vecs[ty] = term_at(self.M.self_, r[0])

    def where(self, n):
        f = self.L.fns.get(n)
        return "%s:%s" % (f.file, f.line) if f else ""

    def seqs(self, n):
        """the emitted sequences of one operator, or None with the reason"""
        los = self.L.res.get(n)
        if not los:
            return None, "no accepting lowering found (%s)" % self.L.limits.get(n, "visitor method missing")
        seqs = {}
        for l in los:
            if l.emitted is None or l.popn:
                return None, "the lowering rewrites earlier instructions"
            seqs.setdefault(tuple(l.emitted), []).append(l)
        return seqs, ""

    def outs(self, seq, st=None):
        return [o for o in (self.C.run(seq, st) if seq else [self.C.start()]) if not excluded(self.C, o)]

    def desc(self, o):
        loc = {show(k): show(v) for k, v in o.loc.items()}
        return ("%s %s %s where %s" % (o.kind, self.C.trap(o) or "", loc, [(show(a), show(b)) for a, b in o.conds][:8]))[:900]


UNREACH = ("underflow", "unwrap", "expect", "unreachable", "index", "slice", "split", "range", "drain")


def excluded(C, o):
    """stack underflow and indices validation has checked; the operand-stack limit (its own property)"""
    if o.kind == "panic":
        s = str(o.trap)
        if o.conds and o.conds[-1][1] is FALSE:
            a = o.conds[-1][0]
            if a.k == "op" and a.a[0] == "lt_u" and a.a[3].k == "len":
                return True     # an index into the module's or store's tables
        return any(z in s for z in UNREACH) and all(z not in s for z in ("ovf:", "div_zero", "rem_zero"))
    if o.kind == "err":
        return bool(o.trap is not None and C.trap(o) in ("ValueStackOverflow", "StackOverflow"))
    return False


def indexed(t):
    """(vector, address vector, index term) of a store entity reached through a module-level index"""
    if t.k != "sel":
        return None
    i = strip(t.a[1])
    if i.k != "sel":
        return None
    return t.a[0], i.a[0], strip(i.a[1])


def strip(t):
    while t.k == "op" and t.a[0] in ("zext", "sext", "trunc"):
        t = t.a[2]
    return t


def same_stacks(o, d, extra=()):
    return all(o.loc.get(s, s) is d.get(s, s) for s in (S32, S64, S128))


def events(o, sub):
    return [e for e in o.evs if sub in e[0]]
