"""Table operators: which elements of which table they read and write, and when they trap instead."""
import engine as E
from terms import *
from lin import Lin
from seqval import SeqVal, lsum
from compose import S32, S64, S128
from rules.bulk import Bulk, last, STACKS

LEVEL = "proof"
NUL = c(32, 0xffffffff)
# operator: (operands in push order; D/S/N: table-index typed by destination/source/both, r: reference, i: i32), which argument names the (dst, src) entity
SIG = {
    "table_get": ("D", ("a1", None)),
    "table_set": ("Dr", ("a1", None)),
    "table_size": ("", ("a1", None)),
    "table_fill": ("DrD", ("a1", None)),
    "table_copy": ("DSN", ("a1", "a2")),
    "table_init": ("Dii", ("a2", "a1")),
    "elem_drop": ("", ("a1", None)),
}


class Tables(Bulk):
    def run(self):
        for n in SIG:
            self.chk.attempt("table", self.one, n)
        self.chk.extra.update({"operators": len(SIG), "traces": self.traces})

    def one(self, n):
        O = self.O
        seqs, why = O.seqs(n)
        where = O.where(n)
        if seqs is None:
            return self.chk.ob("table", n, False, where, why)
        for seq in seqs:
            bad, seen = "", set()
            for o in self.outs(seq):
                self.traces += 1
                try:
                    r = self.trace(n, o)
                except E.Unsupported as ex:
                    r = "not analysable: %s" % ex
                if r:
                    bad = r + ": " + O.desc(o)
                    break
                seen.add((o.kind, self.arch))
            if not bad:
                for a in self.archs(n):
                    for k in ("ok",) if n in ("table_size", "elem_drop") else ("ok", "err"):
                        if (k, a) not in seen:
                            bad = "no %s trace for index types %s" % ("completing" if k == "ok" else "trapping", a)
            self.chk.ob("table", n, not bad, where, bad)

    def archs(self, n):
        if n == "elem_drop":
            return [()]
        if n == "table_copy":
            return [(a, b) for a in (False, True) for b in (False, True)]
        return [(a,) for a in (False, True)]

    def trace(self, n, o):
        self.arch = None
        if o.kind == "cut":
            return None         # more iterations of the same loop
        kinds, (da, sa) = SIG[n]
        if n == "elem_drop":
            self.arch = ()
            return self.drop(o, self.VE, "ElementInstance", "items", da)
        d = self.entity(o, self.VT, mk("v", da))
        if o.kind == "panic":
            l = self.lin(o)
            return None if l.infeasible() else "the host panics"
        if d is None:
            return "does not address its table"
        dst, tab, daddr = d
        T = fld(dst, None, self.pos["TableInstance"]["elements"])
        a64 = self.is64(o, dst, "table")
        src = s64 = None
        S = None
        if n == "table_copy":
            x = self.entity(o, self.VT, mk("v", sa))
            saddr = mk("sel", tab, zext(64, 32, mk("v", sa)))
            same = self.eqaddr(o, daddr.a[0], daddr, saddr)
            src = dst if same else x and x[0]
            if src is None:
                return "does not address its source table"
            # the address type is read off either table term
            s64 = self.is64(o, x[0], "table") if x else None
            if s64 is None and same:
                s64 = a64
            if a64 is None and same:
                a64 = s64
            S = fld(src, None, self.pos["TableInstance"]["elements"])
            self.arch = (a64, s64)
            if s64 is None or a64 is None:
                return "the operand sizes do not follow the index types of the tables"
        else:
            self.arch = (a64,)
            if a64 is None:
                return "the operand sizes do not follow the table's index type"
        w = {"D": 64 if a64 else 32, "S": 64 if s64 else 32, "N": 64 if a64 and s64 else 32, "r": 32, "i": 32}
        vals, after = self.operands([w[k] for k in kinds])
        idx = [self.wide(v, w[k] == 64) for k, v in zip(kinds, vals)]
        l = self.lin(o)
        if l.infeasible():
            return None
        sv = SeqVal(l)
        if n == "table_size":
            v = mk("len", T)
            if o.kind != "ok":
                return "fails"
            return self.stacks(o, after, (S64 if a64 else S32, v if a64 else trunc(32, v, 64))) or self.pure(o)
        one = c(64, 1)
        if n in ("table_get", "table_set"):
            parts = [(idx[0], one, mk("len", T))]
        elif n == "table_fill":
            parts = [(idx[0], idx[2], mk("len", T))]
        elif n == "table_copy":
            parts = [(idx[0], idx[2], mk("len", T)), (idx[1], idx[2], mk("len", S))]
        else:
            seg = self.entity(o, self.VE, mk("v", sa))
            if seg is None:
                if o.kind != "err":
                    return "does not look at its segment"
                items, L = None, None
            else:
                it = fld(seg[0], None, self.pos["ElementInstance"]["items"])
                d_ = self.discr(o, it)
                items = fld(it, 1, 0)
                L = mk("len", items) if d_ == 1 else c(64, 0) if d_ == 0 else None
            if L is None and o.kind != "err":
                return "does not distinguish a dropped segment"
            parts = [(idx[0], idx[2], mk("len", T))] + ([(idx[1], idx[2], L)] if L is not None else [])
        if o.kind == "err":
            if self.C.trap(o) != "TableOutOfBounds":
                return "fails with %s" % self.C.trap(o)
            self.inbounds(l, parts)
            if not l.infeasible():
                return "traps although every range fits"
            return self.pure(o)
        if o.kind != "ok":
            return "ends with %s" % o.kind
        for s, k, L in parts:
            if not sv.nonneg(lsum(lsum(l.lin(L) if not isc(L) else ({}, L.a[1]), l.lin(s), -1), l.lin(k), -1)):
                return "completes although %s + %s may exceed %s" % (show(s), show(k), show(L)[:60])
        self.cur = (l, o)
        if n == "table_get":
            v = self.elemval(l, o, mk("sel", T, idx[0]))
            bad = self.pure(o)
            want = after[S32]
            got = o.loc.get(S32, S32)
            if got.k != "push" or got.a[0] is not want or not self.refeq(o, got.a[1], v):
                return "pushes %s instead of the element %s" % (show(got)[:150], show(v)[:100])
            a2 = dict(after)
            a2[S32] = got
            return bad or self.stacks(o, a2)
        bad = self.stacks(o, after)
        if bad:
            return bad
        new = self.newtable(o, dst, T)
        if isinstance(new, str):
            return new
        # contents, element-wise
        return self.contents(o, T, new, n, idx, vals, S, parts, l if n != "table_init" else l, items if n == "table_init" else None)

    def contents(self, o, T, new, n, idx, vals, S, parts, l, items):
        start, cnt = parts[0][0], parts[0][1]
        x = mk("v", "pos")
        for reg in ("before", "inside", "after"):
            l2 = self.lin(o)
            l2.atom(x, 64)
            lo, hi = l2.lin(start), lsum(l2.lin(start), l2.lin(cnt))
            p = l2.lin(x)
            L = l2.lin(mk("len", T))
            below = lambda a, b: l2.cons.append((lsum(a, b, -1)[0], lsum(a, b, -1)[1] + 1))       # a < b
            if reg == "before":
                below(p, lo)
            elif reg == "inside":
                q = lsum(lo, p, -1)
                l2.cons.append(q)
                below(p, hi)
            else:
                l2.cons.append(lsum(hi, p, -1))
            below(p, L)
            if l2.infeasible():
                continue
            for sv, got in SeqVal(l2).cases(new, p):
                if reg != "inside":
                    want = ("el", T, p)
                elif n in ("table_set", "table_fill"):
                    if got is None or got[0] != "val" or not self.refeq(o, self.elemval(l2, o, got[1]), vals[1]):
                        return "element inside the range becomes %s instead of %s" % (self.sh(got), show(vals[1]))
                    continue
                else:
                    want = ("el", S if n == "table_copy" else items, lsum(lsum(p, l2.lin(start), -1), l2.lin(idx[1])))
                if not sv.same(got, want):
                    return "element %s the range becomes %s instead of %s" % (reg, self.sh(got), self.sh(want))
        l3 = self.lin(o)
        sv = SeqVal(l3)
        if not sv.zero(lsum(sv.length(new), l3.lin(mk("len", T)), -1)):
            return "the table's size changes"
        return None

    def sh(self, e):
        if e is None:
            return "something undetermined"
        if e[0] == "val":
            return show(e[1])[:100]
        return "%s at %s" % (show(e[1])[:100], {show(k): v for k, v in e[2][0].items()} or e[2][1])

    def newtable(self, o, dst, T):
        """the element sequence of the addressed table afterwards; nothing else may change"""
        f = self.pos["TableInstance"]["elements"]
        bad = self.others(o, (self.VT,))
        if bad:
            return "also changes %s" % show(bad[0])[:120]
        v = o.loc.get(self.VT)
        if v is None or v is self.VT:
            return T
        if v.k != "store" or v.a[0] is not self.VT or v.a[1] is not dst.a[1]:
            return "changes another table: %s" % show(v)[:150]
        e = v.a[2]
        if e is dst:
            return T
        new = fld(e, None, f)
        for i in range(len(self.pos["TableInstance"])):
            if i != f and fld(e, None, i) is not fld(dst, None, i):
                return "changes the table's type"
        return new

    def pure(self, o):
        b = self.others(o, ())
        return "changes %s" % show(b[0])[:120] if b else None

    def eqaddr(self, o, V, a, b):
        if a is b:
            return True
        for x, y in o.conds:
            v = y.a[1]
            while x.k == "op" and x.a[0] == "not":
                x, v = x.a[2], 1 - v
            if x.k == "op" and x.a[0] == "eq" and {z for z in map(strip1, x.a[2:])} == {a, b}:
                return bool(v)
        return False

    def drop(self, o, V, ty, field, arg):
        if o.kind != "ok":
            return "fails"
        d = self.entity(o, V, mk("v", arg))
        if d is None:
            return "does not address its segment"
        bad = self.others(o, (V,))
        if bad:
            return "also changes %s" % show(bad[0])[:120]
        v = o.loc.get(V)
        f = self.pos[ty][field]
        if v is None or v.k != "store" or v.a[0] is not V or v.a[1] is not d[0].a[1]:
            return "does not empty its segment: %s" % (show(v)[:150] if v is not None else "no change")
        x = fld(v.a[2], None, f)
        if not (x.k == "agg" and x.a[1] == 0 and not x.a[2]):
            return "leaves the segment's contents: %s" % show(x)[:100]
        return self.stacks(o, {})


def strip1(t):
    while t.k == "op" and t.a[0] in ("zext",):
        t = t.a[2]
    return t


def run(chk):
    chk.rule("table", "a table operator pops operands of its table's index type, and either every range lies inside its table and segment and exactly the elements of the destination range change (to the "
             "given reference, the copied elements or the segment's), or it traps with TableOutOfBounds, some range does not fit, and nothing changes", 2 * len(SIG))
    for b in (False, True):
        Tables(chk, list(SIG), b, concrete=3).run()
    chk.assume = ["indices into a module's and the store's tables are in range (validation, instantiation)"]
    chk.trusted = ["the engine's models of Vec, slice and Option methods"]
