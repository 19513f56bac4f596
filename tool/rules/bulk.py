"""Operators over whole memories, tables and segments: operands, ranges, and what each trace does to the addressed entity."""
import engine as E
from terms import *
from lin import Lin, facts
from seqval import SeqVal, lsum
from compose import S32, S64, S128, IP
from rules.common import Ops, indexed, strip

STACKS = (S32, S64, S128)


def last(s):
    return mk("last", s)


def popn(s, n):
    for _ in range(n):
        s = mk("pop", s)
    return s


class Bulk:
    def __init__(self, chk, names, budgeted, **kw):
        self.chk = chk
        self.O = Ops(chk, names, budgeted, **kw)
        self.C, self.M = self.O.C, self.O.M
        self.VT, self.VM = self.O.vecs.get("TableInstance"), self.O.vecs.get("MemoryInstance")
        self.VE, self.VD = self.O.vecs.get("ElementInstance"), self.O.vecs.get("DataInstance")
        self.pos = {}
        for t in self.M.ctx.types:
            if t["k"] == "struct" and t["def"].startswith("tinywasm"):
                self.pos.setdefault(t["def"].split("::")[-1], {f[0]: i for i, f in enumerate(t["v"][0][2])})
        self.enums = {t["def"].split("::")[-1]: t for t in self.M.ctx.types if t["k"] == "enum" and t["def"].startswith("tinywasm")}
        self.traces = 0

    def variant(self, enum, name):
        for i, v in enumerate(self.enums[enum]["v"]):
            if v[0] == name:
                return i, int(v[1])
        raise KeyError(name)

    # ---- entities reached by a module-level index
    def ents(self, o, V):
        """{index term: entity} of every store entity of one kind the trace mentions, by the module's address table"""
        out = {}
        for t in self.terms(o):
            for y in subterms(t):
                if y.k == "sel" and y.a[0] is V:
                    ix = indexed(y)
                    if ix:
                        out[ix[2]] = (y, ix[1])
        return out

    def terms(self, o):
        for a, b in o.conds:
            yield a if a.k != "notin" else a.a[0]
        for k, v in o.loc.items():
            if isinstance(k, T):
                yield k
            yield v
        for n, args in o.evs:
            for a in args:
                if isinstance(a, T):
                    yield a

    def discr(self, o, t):
        """the discriminant of a two-variant enum the trace's conditions settle"""
        isd = lambda x: x.k == "discr" and x.a[0] is t
        for a, b in o.conds:
            v = b.a[1]
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if isd(a):
                return b.a[1]
            if a.k == "notin" and isd(a.a[0]) and len(a.a[1]) == 1:
                return 1 - list(a.a[1])[0]
            if a.k == "op" and a.a[0] == "eq" and any(isd(x) for x in a.a[2:]) and any(isc(x) for x in a.a[2:]):
                k = [x for x in a.a[2:] if isc(x)][0].a[1]
                return k if v else 1 - k
        return None

    def is64(self, o, ent, what):
        """the address type of a memory or table"""
        p = self.pos
        if what == "mem":
            t = fld(fld(ent, None, p["MemoryInstance"]["kind"]), None, p["MemoryType"]["arch"])
        else:
            t = fld(fld(ent, None, p["TableInstance"]["kind"]), None, p["TableType"]["arch"])
        d = self.discr(o, t)
        if d is None:
            return None
        return self.enums["MemoryArch"]["v"][[i for i, v in enumerate(self.enums["MemoryArch"]["v"]) if int(v[1]) == d][0]][0] == "I64"

    def entity(self, o, V, which):
        """the entity a trace addresses through the operator's static index (a term such as a1), and its address"""
        for k, (y, tab) in self.ents(o, V).items():
            if k is which:
                return y, tab, mk("sel", tab, zext(64, 32, which))
        return None

    # ---- operands
    def operands(self, kinds):
        """kinds: list of widths in the order they were pushed -> terms (64-bit zero-extended for addresses), stacks afterwards"""
        st = {32: 0, 64: 0, 128: 0}
        vals = []
        for w in reversed(kinds):
            S = {32: S32, 64: S64, 128: S128}[w]
            vals.append(last(popn(S, st[w])))
            st[w] += 1
        vals.reverse()
        return vals, {S32: popn(S32, st[32]), S64: popn(S64, st[64]), S128: popn(S128, st[128])}

    def wide(self, t, is64):
        return t if is64 else zext(64, 32, t)

    def stacks(self, o, after, push=None):
        bad = []
        for S in STACKS:
            want = after.get(S, S)
            if push and push[0] is S:
                want = mk("push", want, push[1])
            got = o.loc.get(S, S)
            if got is not want and not (push and push[0] is S and got.k == "push" and got.a[0] is want.a[0] and self.equal(o, got.a[1], want.a[1])):
                bad.append("%s is %s instead of %s" % (show(S), show(got)[:120], show(want)[:120]))
        return "; ".join(bad)

    def equal(self, o, a, b):
        return a is b

    def others(self, o, allowed):
        """locations other than the operand stacks that a trace changes"""
        return [k for k, v in o.loc.items() if k not in STACKS and k not in (IP,) and k not in allowed and v is not k]

    def lin(self, o, extra=()):
        return facts(list(o.conds) + list(extra), self.axioms)

    def axioms(self, l, t):
        pass

    def inbounds(self, l, parts):
        """add: every (start, n, len) range fits"""
        for s, n, L in parts:
            d, k = lsum(lsum(l.lin(s), l.lin(n)), l.lin(L) if isinstance(L, T) else ({}, L), -1)
            l.cons.append((d, k))

    def excluded(self, o):
        for a, b in o.conds:
            if a.k == "notin" and b is TRUE and a.a[0].k == "discr" and a.a[0].a[0].k == "fld" and self.reftype(a.a[0].a[0], a.a[1]):
                return True                 # a table of a type that is not a reference
        if o.kind in ("panic", "err"):
            if o.conds:
                a, b = o.conds[-1]
                if a.k == "op" and a.a[0] == "lt_u" and b is FALSE and a.a[3].k == "len":
                    D = a.a[3].a[0]
                    if D in (self.VT, self.VM, self.VE, self.VD) or (D.k in ("deref", "fld") and not any(x.k == "sel" for x in subterms(D))):
                        return True         # an index into the module's or store's tables
                if a.k == "op" and a.a[0] == "eq" and b is TRUE and any(x.k == "len" and x.a[0] in STACKS for x in a.a[2:]):
                    return True             # stack underflow
        return o.kind == "err" and o.trap is not None and self.C.trap(o) in ("ValueStackOverflow", "StackOverflow", "CallStackOverflow")

    def reftype(self, t, no):
        """is t the element type of a table, and are reference types among the excluded ones"""
        p = self.pos
        if t.a[2] != p["TableType"]["element_type"] or t.a[0].k != "fld" or t.a[0].a[2] != p["TableInstance"]["kind"]:
            return False
        y = t.a[0].a[0]
        return y.k == "sel" and y.a[0] is self.VT and {self.variant("WasmType", "RefFunc")[1], self.variant("WasmType", "RefExtern")[1]} <= set(no)

    def outs(self, seq):
        return [o for o in self.C.run(seq) if not self.excluded(o)]

    # ---- table elements
    def elemval(self, l, o, v):
        """the reference a stored TableElement stands for, as an i32 term (-1: null)"""
        t = self.enums["TableElement"]
        if v.k == "agg":
            n = t["v"][v.a[1]][0]
            if n == "Uninitialized":
                return c(32, 0xffffffff)
            return v.a[2][0]
        d = self.discr(o, v)
        iu, un = self.variant("TableElement", "Uninitialized")
        ii, ini = self.variant("TableElement", "Initialized")
        if d == un:
            return c(32, 0xffffffff)
        if d == ini:
            return fld(v, ii, 0)
        return mk("refof", v)

    def refeq(self, o, a, b):
        """equal references under the trace's conditions"""
        if a is b:
            return True
        nul = c(32, 0xffffffff)
        for x, y in o.conds:
            v = y.a[1]
            while x.k == "op" and x.a[0] == "not":
                x, v = x.a[2], 1 - v
            if v and x.k == "op" and x.a[0] == "eq" and nul in x.a[2:]:
                z = [q for q in x.a[2:] if q is not nul]
                if z and ((a is z[0] and b is nul) or (b is z[0] and a is nul)):
                    return True
        return False
