"""Growing memories and tables: the limits that decide, what a success changes and reports, and that a failure changes nothing."""
import engine as E
from terms import *
from lin import Lin
from seqval import SeqVal, lsum
from compose import S32, S64, S128
from rules.bulk import Bulk, last, popn, STACKS
from rules.p07 import Memories
from lib import Missing

LEVEL = "proof"
PAGE = 65536
TABLE_LIMIT = 10_000_000        # the documented size limit of tables: a growth within it may only fail for want of memory


class Grow(Memories):
    def go(self):
        for n in ("memory_grow", "table_grow"):
            self.chk.attempt("grow", self.one, n)
        self.chk.extra.update({"traces": self.traces})

    def one(self, n):
        O = self.O
        seqs, why = O.seqs(n)
        where = O.where(n)
        if seqs is None:
            return self.chk.ob("grow", n, False, where, why)
        for seq in seqs:
            seen, bad = set(), ""
            for o in self.outs(seq):
                if self.allocfail(o) and o.kind == "panic":
                    continue
                r = (self.memory if n == "memory_grow" else self.table)(o, seen)
                if r:
                    bad = r + ": " + O.desc(o)
                    break
            if not bad:
                for a in (False, True):
                    for w in ("grown", "refused", "unallocated"):
                        if (a, w) not in seen:
                            bad = "no trace where a %d-bit one is %s" % (64 if a else 32, w)
            self.chk.ob("grow", n, not bad, where, bad)

    def allocfail(self, o):
        return any("alloc_ok" in show(a) and b is FALSE for a, b in o.conds if a.k != "notin")

    def pushed(self, o, S, after):
        g = o.loc.get(S, S)
        if g.k != "push" or g.a[0] is not after[S]:
            return None
        for X in STACKS:
            if X is not S and o.loc.get(X, X) is not after[X]:
                return None
        return g.a[1]

    # ---- memories
    def memory(self, o, seen):
        d = self.entity(o, self.VM, mk("v", "a1"))
        if d is None:
            return "does not address its memory"
        mem = d[0]
        a64 = self.is64(o, mem, "mem")
        if a64 is None:
            return "the operand size does not follow the memory's address type"
        kind = fld(mem, None, self.pos["MemoryInstance"]["kind"])
        ps = fld(kind, None, self.pos["MemoryType"]["page_size"])
        for k, v in ((0, PAGE), (1, 1), (1, PAGE)):
            kk = self.discr(o, ps)
            if kk is not None and kk != k:
                continue
            self.traces += 1
            r = self.mem1(o, seen, mem, kind, a64, {fld(ps, 1, 0): c(64, v)} if k else {}, v)
            if r:
                return "%s (page size %d)" % (r, v)
        return None

    def mem1(self, o, seen, mem, kind, a64, m, ps):
        vals, after = self.operands([64 if a64 else 32])
        n = self.wide(vals[0], a64)
        pc = fld(mem, None, self.pos["MemoryInstance"]["page_count"])
        mx = fld(kind, None, self.pos["MemoryType"]["page_count_max"])
        D = self.backend(mem)
        memo = {}
        sb = lambda t: subst(t, m, memo) if m else t
        # the delta is read as a signed number; a negative one is refused
        big = c(64, 1 << (63 if a64 else 31))
        res = []
        for neg in (False, True):
            mm = dict(m)
            l = Lin()
            conds = []
            feasible = True
            sx = mk("op", "sext", 64, n.a[2], 32) if not a64 and n.k == "op" else None
            m2 = {}
            if sx is not None and not neg:
                m2 = {op("sext", 64, vals[0], 32) if False else sext(64, 32, vals[0]): n}
            for a, b in o.conds:
                if a.k == "notin":
                    continue
                x = sb(a)
                if m2:
                    x = subst(x, m2, {})
                if x.k == "op" and x.a[0] == "lt_s" and isc(x.a[3]) and x.a[3].a[1] == 0:
                    if (b is TRUE) != neg and (x.a[2] is n or x.a[2] is sext(64, 32, vals[0])):
                        feasible = False
                        break
                    continue
                if isc(x):
                    if x.a[1] != b.a[1]:
                        feasible = False
                        break
                    continue
                conds.append((x, b))
            if not feasible:
                continue
            l.add(op("lt_u", 64, n, big) if n.k != "c" else n, FALSE if neg else TRUE)
            # what holds of every memory: its pages are within its limit and are its length
            kx = self.discr(o, mx)
            decl = fld(mx, 1, 0)
            for k in (0, 1):
                if kx is not None and kx != k:
                    continue
                lim = decl if k else c(64, (1 << 32) // ps)
                l1 = l.clone()
                if k:
                    cap = (1 << 32) // ps if not a64 else ((1 << 48) if ps == PAGE else (1 << 64) - 1)
                    d, c0 = l1.lin(decl)
                    l1.cons.append((dict(d), c0 - cap))
                x = lsum(l1.lin(pc), l1.lin(lim) if k else ({}, lim.a[1]), -1)
                l1.cons.append(x)
                q0 = l1.lin(pc)
                l1.cons.append(({q: v * ps for q, v in q0[0].items()}, q0[1] * ps - (1 << 63) + 1))     # an existing memory fits the host
                for y in self.lenreads(o):
                    e = lsum(({q: v * ps for q, v in l1.lin(pc)[0].items()}, l1.lin(pc)[1] * ps), l1.lin(sb(y)), -1)
                    l1.cons.append(e)
                    l1.cons.append(({q: -v for q, v in e[0].items()}, -e[1]))
                for a, b in conds:
                    if a.k == "op":
                        l1.add(a, b)
                for a, b in conds:          # once more: sums are exact where the facts so far say so
                    if a.k == "op":
                        l1.memo = {}
                        l1.add(a, b)
                l1.memo = {}
                if l1.infeasible():
                    continue
                r = self.mem2(o, seen, mem, a64, n, neg, pc, lim, ps, D, after, l1, sb, m2)
                if r:
                    return r
        return None

    def lenreads(self, o):
        r = []
        for t in self.terms(o):
            for y in subterms(t):
                if y.k == "call" and y.a[0].endswith("LinearMemory::len") and y not in r:
                    r.append(y)
        return r

    def mem2(self, o, seen, mem, a64, n, neg, pc, lim, ps, D, after, l, sb, m2):
        evs = [e for e in self.evs(o) if e[0] != "len"]
        if any(e[0] != "grow_to" or e[1] is not D for e in evs) or len(evs) > 1:
            return "calls %s" % [(e[0], show(e[1])[:60]) for e in evs]
        grown = None
        if evs:
            k = self.grow_result(o, D)
            if k is None:
                return "the result of growing the backend is not looked at"
            grown = k == 0
        sv = SeqVal(l)
        sm = lambda t: subst(sb(t), m2, {}) if m2 else sb(t)
        fits = lambda: not neg and sv.nonneg(lsum(lsum(l.lin(lim) if not isc(lim) else ({}, lim.a[1]), l.lin(pc), -1), l.lin(n), -1))
        v = o.loc.get(self.VM)
        newpc = pc
        if v is not None and v is not self.VM:
            if v.k != "store" or v.a[0] is not self.VM or v.a[1] is not mem.a[1]:
                return "changes another memory: %s" % show(v)[:120]
            newpc = fld(v.a[2], None, self.pos["MemoryInstance"]["page_count"])
            for i in range(len(self.pos["MemoryInstance"])):
                if i != self.pos["MemoryInstance"]["page_count"] and fld(v.a[2], None, i) is not fld(mem, None, i) and i != self.pos["MemoryInstance"]["inner"]:
                    return "changes the memory's type"
        bad = [k for k in self.others(o, (self.VM,)) if self.owner(k) is not D]
        if bad:
            return "also changes %s" % show(bad[0])[:120]
        newpc = sm(newpc)
        if o.kind == "err":
            if grown is not False:
                return "traps although growing the backend did not fail"
            if not any(self.config(a) and b is TRUE for a, b in o.conds if a.k != "notin"):
                return "traps on a failed growth without being configured to"
            if newpc is not pc:
                return "changes the page count although the growth failed"
            return None
        if o.kind != "ok":
            return "the host panics"
        S = S64 if a64 else S32
        p = self.pushed(o, S, after)
        if p is None:
            return "leaves the operand stacks as %s" % {show(k): show(o.loc.get(k, k))[:80] for k in STACKS}
        p = sm(p)
        minus = c(64 if a64 else 32, (1 << (64 if a64 else 32)) - 1)
        if p is minus:
            if newpc is not pc:
                return "changes the page count although it reports failure"
            if grown:
                return "reports failure although the backend grew"
            if grown is False:
                seen.add((a64, "unallocated"))
                return None
            seen.add((a64, "refused"))
            # nothing was tried: the new size must exceed the limit
            if neg:
                return None
            x = lsum(lsum(l.lin(pc), l.lin(n)), l.lin(lim) if not isc(lim) else ({}, lim.a[1]), -1)
            l2 = l.clone()
            l2.cons.append(x)
            y = lsum(l.lin(pc), l.lin(n))
            l2.cons.append(({k: v * ps for k, v in y[0].items()}, y[1] * ps - (1 << 64) + 1))       # a size in bytes that is a number of the host
            if not l2.infeasible():
                return "refuses to grow although the new size is within the limit"
            return None
        want = pc if a64 else trunc(32, pc, 64)
        if p is not want:
            return "reports %s instead of the previous number of pages" % show(p)[:120]
        if grown is False:
            return "reports success although growing the backend failed"
        # within the limit
        l2 = l.clone()
        y = lsum(lsum(l.lin(lim) if not isc(lim) else ({}, lim.a[1]), l.lin(pc), -1), l.lin(n), -1)
        l2.cons.append((y[0], y[1] + 1))
        if neg or not l2.infeasible():
            return "grows beyond the limit"
        new = lsum(l.lin(pc), l.lin(n))
        if not sv.zero(lsum(l.lin(newpc), new, -1)):
            return "the page count becomes %s" % show(newpc)[:120]
        bytes_ = ({k: q * ps for k, q in new[0].items()}, new[1] * ps)
        if grown:
            seen.add((a64, "grown"))
            if not sv.zero(lsum(l.lin(sm(evs[0][2][0])), bytes_, -1)):
                return "the backend is grown to %s bytes" % show(evs[0][2][0])[:120]
        elif not sv.zero(l.lin(n)):
            return "reports success without growing the backend"
        return None

    def grow_result(self, o, D):
        for a, b in o.conds:
            v = b.a[1]
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if a.k == "discr" and a.a[0].k == "call" and a.a[0].a[0].endswith("::grow_to"):
                return b.a[1]
            if a.k == "op" and a.a[0] == "eq":
                ds = [x for x in a.a[2:] if x.k == "discr" and x.a[0].k == "call" and x.a[0].a[0].endswith("::grow_to")]
                cs = [x for x in a.a[2:] if isc(x)]
                if ds and cs:
                    return cs[0].a[1] if v else 1 - cs[0].a[1]
        return None

    def config(self, a):
        """the engine's trap_on_oom setting"""
        i = self.pos.get("Config", {}).get("trap_on_oom")
        return i is not None and a.k == "fld" and a.a[2] == i

    # ---- tables
    def table(self, o, seen):
        self.traces += 1
        d = self.entity(o, self.VT, mk("v", "a1"))
        if d is None:
            return "does not address its table"
        dst = d[0]
        f = self.pos["TableInstance"]["elements"]
        T = fld(dst, None, f)
        a64 = self.is64(o, dst, "table")
        if a64 is None:
            return "the operand size does not follow the table's index type"
        vals, after = self.operands([32, 64 if a64 else 32])
        ref, n = vals[0], self.wide(vals[1], a64)
        kind = fld(dst, None, self.pos["TableInstance"]["kind"])
        mx = fld(kind, None, self.pos["TableType"]["size_max"])
        kx = self.discr(o, mx)
        L = mk("len", T)
        new = self.newtable(o, dst, T)
        if isinstance(new, str):
            return new
        if o.kind != "ok":
            l = self.lin(o)
            return None if l.infeasible() else "ends with %s %s" % (o.kind, self.C.trap(o))
        S = S64 if a64 else S32
        p = self.pushed(o, S, after)
        if p is None:
            return "leaves the operand stacks as %s" % {show(k): show(o.loc.get(k, k))[:80] for k in STACKS}
        minus = c(64 if a64 else 32, (1 << (64 if a64 else 32)) - 1)
        for k in (0, 1):
            if kx is not None and kx != k:
                continue
            l = self.lin(o)
            decl = fld(mx, 1, 0)
            # what holds of every table: its size is within its maximum and the implementation's limit
            l.cons.append((dict(l.lin(L)[0]), l.lin(L)[1] - TABLE_LIMIT))
            if k:
                l.cons.append(lsum(l.lin(L), l.lin(decl), -1))
            l.memo = {}
            if l.infeasible():
                continue
            sv = SeqVal(l)
            total = lsum(l.lin(L), l.lin(n))
            if p is minus:
                if new is not T:
                    return "changes the table although it reports failure"
                if self.allocfail(o):
                    seen.add((a64, "unallocated"))
                    continue
                seen.add((a64, "refused"))
                l2 = l.clone()
                l2.cons.append((dict(total[0]), total[1] - TABLE_LIMIT))
                if k:
                    l2.cons.append(lsum(total, l.lin(decl), -1))
                if not l2.infeasible():
                    return "refuses to grow although the new size is within the limit"
                continue
            want = L if a64 else trunc(32, L, 64)
            if p is not want:
                return "reports %s instead of the previous size" % show(p)[:120]
            seen.add((a64, "grown"))
            if k:
                l2 = l.clone()
                y = lsum(l.lin(decl), total, -1)
                l2.cons.append((y[0], y[1] + 1))
                if not l2.infeasible():
                    return "grows beyond the maximum"
            if not sv.zero(lsum(sv.length(new), total, -1)):
                return "the size becomes %s" % {show(q): w for q, w in sv.length(new)[0].items()}
            x = l.lin(mk("v", "pos"))
            for inside in (True, False):
                l2 = l.clone()
                a = lsum(x, l.lin(L), -1)
                l2.cons.append((a[0], a[1] + 1) if inside else ({q: -w for q, w in a[0].items()}, -a[1]))
                b = lsum(x, total, -1)
                l2.cons.append((b[0], b[1] + 1))
                if l2.infeasible():
                    continue
                for s3, got in SeqVal(l2).cases(new, x):
                    if inside and not s3.same(got, ("el", T, x)):
                        return "an existing element becomes %s" % self.sh(got)
                    if not inside and (got is None or got[0] != "val" or not self.refeq(o, self.elemval(l2, o, got[1]), ref)):
                        return "a new element becomes %s instead of %s" % (self.sh(got), show(ref))
        return None


def creation(chk, db):
    """a new memory has its type's initial size, or is refused"""
    e = E.Engine(db, assume_capacity=True, opaque=r"^log::|^tinywasm::log|format|::Error as ")
    fs = [f for n, l in db.by_def.items() if n.endswith("MemoryInstance::new") or n.endswith("MemoryInstance::new_lazy") for f in l]
    if len(fs) < 2:
        raise Missing("constructors of memory instances")
    for f in fs:
        ctx = f.ctx
        pos = {}
        for t in ctx.types:
            if t["k"] == "struct" and t["def"].split("::")[-1] in ("MemoryInstance", "MemoryType"):
                pos[t["def"].split("::")[-1]] = {x[0]: i for i, x in enumerate(t["v"][0][2])}
        kind = mk("v", "kind")
        outs = e.run(f, [kind, mk("v", "backend")])
        ini = fld(kind, None, pos["MemoryType"]["page_count_initial"])
        mx = fld(kind, None, pos["MemoryType"]["page_count_max"])
        psz = fld(kind, None, pos["MemoryType"]["page_size"])
        bad, oks = "", 0
        for o in outs:
            for pv, pk in ((PAGE, 0), (1, 1), (PAGE, 1)):
                for k in (0, 1):
                    m = {fld(psz, 1, 0): c(64, pv)}
                    l = Lin()
                    feas = True
                    d0, c0 = l.lin(ini)
                    if k:
                        l.cons.append(lsum(l.lin(ini), l.lin(fld(mx, 1, 0)), -1))     # validation: initial <= declared maximum
                    for a, b, _ in o.conds:
                        if a.k == "notin":
                            continue
                        x = subst(a, m, {})
                        if x.k == "discr" and x.a[0] in (mx, psz):
                            if b.a[1] != (k if x.a[0] is mx else pk):
                                feas = False
                            continue
                        if isc(x):
                            if x.a[1] != b.a[1]:
                                feas = False
                            continue
                        if x.k == "op":
                            l.add(x, b)
                    if not feas or l.infeasible():
                        continue
                    if o.kind == "panic":
                        vs = {y for y in subterms(o.conds[-1][0]) if y.k == "v"} if o.conds else set()
                        if vs == {mk("v", "backend")}:
                            continue        # an invalid backend configuration
                        bad = "panics: %s under %s" % (o.value if not isinstance(o.value, T) else show(o.value)[:80], [(show(a)[:80], show(b)) for a, b, _ in o.conds if a.k != "notin"][-3:])
                        continue
                    r = o.value
                    if r.k != "agg" or r.a[1] != 0:
                        continue
                    oks += 1
                    inst = r.a[2][0]
                    got = fld(inst, None, pos["MemoryInstance"]["page_count"])
                    if subst(got, m, {}) is not ini:
                        bad = "starts with %s pages" % show(got)[:100]
                    if fld(inst, None, pos["MemoryInstance"]["kind"]) is not kind:
                        bad = "has another type"
        if not oks:
            bad = "never succeeds"
        chk.ob("create", f.deff.split("::")[-1], not bad, "%s:%s" % (f.file, f.line), bad)


def run(chk):
    chk.rule("grow", "memory.grow and table.grow succeed only up to the declared maximum (or the implementation's limit) and then add exactly the requested pages or elements and report the previous size; "
             "otherwise they report -1 (or trap, if configured, when the host has no memory), only if the limit is exceeded or allocation fails, and change nothing", 4)
    chk.rule("create", "a memory is created with its type's initial number of pages, without panicking", 2)
    G = None
    for b in (False, True):
        G = Grow(chk, ["memory_grow", "table_grow"], b)
        G.go()
    chk.attempt("create", creation, chk, G.O.db)
    chk.assume = ["page sizes are 1 or 65536 and initial sizes within the declared maximum (validation)", "a growth by 2^31 pages (2^63 for 64-bit memories) or more counts as exceeding every limit",
                  "the backends behave as byte arrays (P36): a failed grow_to leaves them unchanged"]
    chk.trusted = ["the engine's models of Vec, slice and Option methods"]
