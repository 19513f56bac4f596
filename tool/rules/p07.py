"""Bulk memory operators: what they hand to the memory backends (whose own behaviour is P36), and when they trap."""
import engine as E
from terms import *
from lin import Lin
from seqval import SeqVal, lsum
from compose import S32, S64, S128
from rules.bulk import Bulk, last, STACKS
from rules.p41 import Tables, strip1

LEVEL = "proof"
SIG = {
    "memory_fill": ("DiD", ("a1", None)),
    "memory_copy": ("DSN", ("a1", "a2")),
    "memory_init": ("Dii", ("a2", "a1")),
    "data_drop": ("", ("a1", None)),
    "memory_size": ("", ("a1", None)),
}
MUTATING = ("write", "write_all", "fill", "copy_within", "grow_to")
CHUNKS = 3


class Memories(Tables):
    def run(self):
        for n in SIG:
            self.chk.attempt("memory", self.one, n)
        self.chk.extra.update({"operators": len(SIG), "traces": self.traces})

    def one(self, n):
        O = self.O
        seqs, why = O.seqs(n)
        where = O.where(n)
        if seqs is None:
            return self.chk.ob("memory", n, False, where, why)
        for seq in seqs:
            bad, seen = "", set()
            for o in self.outs(seq):
                self.traces += 1
                r = self.trace(n, o)
                if r:
                    bad = r + ": " + O.desc(o)
                    break
                seen.add((o.kind, self.arch))
            if not bad:
                ar = [()] if n == "data_drop" else [(a, b) for a in (False, True) for b in (False, True)] if n == "memory_copy" else [(a,) for a in (False, True)]
                for a in ar:
                    for k in ("ok",) if n in ("memory_size", "data_drop") else ("ok", "err"):
                        if (k, a) not in seen:
                            bad = "no %s trace for address types %s" % ("completing" if k == "ok" else "trapping", a)
            self.chk.ob("memory", n, not bad, where, bad)

    # ---- events on memory backends
    def backend(self, mem):
        return fld(mem, None, self.pos["MemoryInstance"]["inner"])

    def evs(self, o):
        """[(method, backend as it was before the trace, other arguments, result is success/failure/None)]"""
        r = []
        for n, args in o.evs:
            if "LinearMemory" not in n:
                continue
            b = args[0]
            base = self.base(b)
            m = n.split("::")[-1]
            call = mk("call", n, args)
            r.append((m, base, args[1:], self.result(o, n, args, m)))
        return r

    def base(self, b):
        """a backend as it was before the trace: through the effects of earlier calls"""
        while True:
            if b.k == "at" and b.a[0].k == "after":
                x = b.a[0]
                b = x.a[2][x.a[1]]
                continue
            return self.owner(b) or b

    def owner(self, b):
        """the backend field of a memory that a pointer (or place) belongs to"""
        i = self.pos["MemoryInstance"]["inner"]
        while b.k in ("fld", "deref", "at"):
            if b.k == "fld" and b.a[2] == i and b.a[0].k == "sel" and b.a[0].a[0] is self.VM:
                return b
            b = b.a[0]
        return None

    def result(self, o, n, args, m):
        for a, b in o.conds:
            v = b.a[1]
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            k = None
            if a.k == "discr" and a.a[0].k == "call" and a.a[0].a[0] == n and tuple(a.a[0].a[1]) == tuple(args):
                k = b.a[1]
            elif a.k == "op" and a.a[0] == "eq":
                ds = [x for x in a.a[2:] if x.k == "discr" and x.a[0].k == "call" and x.a[0].a[0] == n and tuple(x.a[0].a[1]) == tuple(args)]
                cs = [x for x in a.a[2:] if isc(x)]
                if ds and cs:
                    k = cs[0].a[1] if v else 1 - cs[0].a[1]
            if k is not None:
                res = self.M.ctx
                return k == 1           # Option: Some
        return None

    def mlen(self, o, mem):
        """the term a trace uses for the length of a backend"""
        b = self.backend(mem)
        for n, args in o.evs:
            if n.endswith("LinearMemory::len") and self.base(args[0]) is b:
                return mk("call", n, args)
        return mk("call", "len of", (b,))

    def lenterms(self, o):
        """every length reading of one backend is the same number: nothing in these operators grows a memory"""
        r = {}
        for t in self.terms(o):
            for y in subterms(t):
                if y.k == "call" and y.a[0].endswith("LinearMemory::len"):
                    r.setdefault(self.base(y.a[1][0]), []).append(y)
        return r

    def lin(self, o, extra=()):
        l = super().lin(o, extra)
        for b, ts in self.lenterms(o).items():
            for t in ts[1:]:
                d = lsum(l.lin(ts[0]), l.lin(t), -1)
                l.cons.append(d)
                l.cons.append(({k: -v for k, v in d[0].items()}, -d[1]))
        return l

    def trace(self, n, o):
        self.arch = None
        kinds, (da, sa) = SIG[n]
        if n == "data_drop":
            self.arch = ()
            return self.drop(o, self.VD, "DataInstance", "data", da)
        d = self.entity(o, self.VM, mk("v", da))
        if o.kind == "panic" and self.lin(o).infeasible():
            return None
        if d is None:
            return "does not address its memory"
        dst, tab, daddr = d
        a64 = self.is64(o, dst, "mem")
        src = s64 = None
        if n == "memory_copy":
            x = self.entity(o, self.VM, mk("v", sa))
            saddr = mk("sel", tab, zext(64, 32, mk("v", sa)))
            same = self.eqaddr(o, None, daddr, saddr)
            s64 = self.is64(o, x[0], "mem") if x else None
            if same:
                src = dst
                a64 = s64 if a64 is None else a64
                s64 = a64 if s64 is None else s64
            else:
                src = x and x[0]
            if src is None:
                return "does not address its source memory"
            self.arch = (a64, s64)
            if a64 is None or s64 is None:
                return "the operand sizes do not follow the address types of the memories"
        else:
            self.arch = (a64,)
            if a64 is None:
                return "the operand sizes do not follow the memory's address type"
        w = {"D": 64 if a64 else 32, "S": 64 if s64 else 32, "N": 64 if a64 and s64 else 32, "i": 32}
        vals, after = self.operands([w[k] for k in kinds])
        idx = [self.wide(v, w[k] == 64) for k, v in zip(kinds, vals)]
        l = self.lin(o)
        if l.infeasible():
            return None
        if n == "memory_size":
            if o.kind != "ok":
                return "fails"
            v = fld(dst, None, self.pos["MemoryInstance"]["page_count"])
            return self.stacks(o, after, (S64 if a64 else S32, v if a64 else trunc(32, v, 64))) or self.pure(o)
        D = self.backend(dst)
        ML = self.mlen(o, dst)
        evs = self.evs(o)
        mut = [e for e in evs if e[0] in MUTATING]
        bad = [k for k in self.others(o, ()) if not self.owner(k) is D]
        if bad:
            return "also changes %s" % show(bad[0])[:120]
        bad = self.stacks(o, after)
        if bad and o.kind == "ok":
            return bad
        if any(e[1] is not D for e in mut):
            return "changes another memory: %s" % [(e[0], show(e[1])[:80]) for e in mut if e[1] is not D][:2]
        if o.kind not in ("ok", "err", "cut"):
            return "the host panics"
        if o.kind == "err" and self.C.trap(o) != "MemoryOutOfBounds":
            return "fails with %s" % self.C.trap(o)
        if n == "memory_copy":
            if src is dst:
                want = ("copy_within", (idx[0], idx[1], idx[2]))
                return self.single(o, l, mut, want, [(idx[0], idx[2], ML), (idx[1], idx[2], ML)])
            return self.chunks(o, evs, D, self.backend(src), idx, ML, self.mlen(o, src))
        if n == "memory_fill":
            v = vals[1]
            return self.single(o, l, mut, ("fill", (idx[0], idx[2], trunc(8, v, 32))), [(idx[0], idx[2], ML)])
        # memory_init
        seg = self.entity(o, self.VD, mk("v", sa))
        if seg is None:
            return "does not look at its segment"
        it = fld(seg[0], None, self.pos["DataInstance"]["data"])
        k = self.discr(o, it)
        bytes_ = fld(it, 1, 0)
        parts = [(idx[0], idx[2], ML)]
        if k is not None:
            parts.append((idx[1], idx[2], mk("len", bytes_) if k == 1 else c(64, 0)))
        elif o.kind == "ok":
            return "does not distinguish a dropped segment"
        return self.single(o, l, mut, ("write_all", (idx[0], ("segment", bytes_ if k == 1 else None, idx[1], idx[2]))), parts)

    def fits(self, l, p):
        L = ({}, p[2].a[1]) if isc(p[2]) else l.lin(p[2])
        return SeqVal(l).nonneg(lsum(lsum(L, l.lin(p[0]), -1), l.lin(p[1]), -1))

    def single(self, o, l, mut, want, parts):
        """one backend call does the work"""
        m, args = want
        if o.kind == "ok" and not mut:
            n = parts[0][1]
            if all(self.fits(l, p) for p in parts) and SeqVal(l).zero(l.lin(n)):
                return None
            return "completes without changing the memory"
        if o.kind == "err" and not mut:
            self.inbounds(l, parts)
            return None if l.infeasible() else "traps although every range fits"
        if len(mut) != 1 or mut[0][0] != m:
            return "the memory is changed by %s instead of one %s" % ([e[0] for e in mut], m)
        got = mut[0]
        if len(got[2]) != len(args):
            return "arguments of %s" % m
        for x, y in zip(got[2], args):
            if isinstance(y, tuple):
                if not self.segment(o, l, x, y):
                    return "writes %s instead of the segment's bytes from %s, %s long" % (show(x)[:150], show(y[2]), show(y[3]))
            elif x is not y:
                return "%s is called with %s instead of %s" % (m, show(x)[:120], show(y)[:120])
        if got[3] is None:
            return "the result of %s is not looked at" % m
        if got[3] != (o.kind == "ok"):
            return "%s although %s %s" % ("completes" if o.kind == "ok" else "traps", m, "succeeded" if got[3] else "failed")
        for p in parts[1:]:
            if p[2] is not parts[0][2] and not self.fits(l, p):
                return "the segment's range is not checked before the memory changes"
        return None

    def segment(self, o, l, x, y):
        _, D, s, n = y
        q = x.a[0] if x.k == "at" else x
        sv = SeqVal(l)
        if not sv.zero(lsum(sv.length(q), l.lin(n), -1)):
            return False
        if D is None:
            return sv.zero(l.lin(n))
        p = l.lin(mk("v", "pos"))
        l2 = self.lin(o)
        l2.cons.append((lsum(p, l2.lin(n), -1)[0], lsum(p, l2.lin(n), -1)[1] + 1))
        if l2.infeasible():
            return True
        sv = SeqVal(l2)
        return sv.same(sv.elem(q, p), ("el", D, lsum(p, l2.lin(s))))

    def chunks(self, o, evs, D, S, idx, ML, SL):
        """between two memories: pieces read from the source and written to the destination, in step, all after both ranges are known to fit"""
        d, s, n = idx
        parts = [(d, n, ML), (s, n, SL)]
        l = self.lin(o)
        done = ({}, 0)
        i = 0
        work = [e for e in evs if e[0] != "len"]
        reads = {}
        while i < len(work):
            m, b, args, ok = work[i]
            i += 1
            if not (self.fits(l, parts[0]) and self.fits(l, parts[1])):
                return "touches a memory before both ranges are known to fit"
            if m == "read_exact" and b is S:
                pos = lsum(l.lin(args[0]), l.lin(s), -1)
                q = args[1].a[0] if args[1].k == "at" else args[1]
                ln = SeqVal(l).length(q)
                if not SeqVal(l).zero(lsum(pos, done, -1)):
                    return "reads the source at %s after %s bytes" % (show(args[0])[:100], self.pl(done))
                if not SeqVal(l).nonneg(lsum(lsum(l.lin(n), done, -1), ln, -1)):
                    return "reads past the requested range"
                if ok is False:
                    return None         # within the source: cannot fail (P36)
                reads[len(reads)] = (args[1], pos, ln)
                cur = (pos, ln, args)
            elif m == "write_all" and b is D:
                if not reads:
                    return "writes before reading"
                pos = lsum(l.lin(args[0]), l.lin(d), -1)
                q = args[1].a[0] if args[1].k == "at" else args[1]
                sv = SeqVal(l)
                ln = sv.length(q)
                if not sv.zero(lsum(pos, done, -1)):
                    return "writes the destination at %s after %s bytes" % (show(args[0])[:100], self.pl(done))
                if not sv.nonneg(lsum(cur[1], ln, -1)):
                    return "writes more than was read"
                if not self.fromread(sv, l, q, ln, cur):
                    return "writes %s instead of the bytes just read" % show(q)[:150]
                if ok is False:
                    return None
                done = lsum(done, ln)
            else:
                return "unexpected %s on %s" % (m, show(b)[:80])
        if o.kind == "cut":
            return None         # more iterations of the same loop
        if o.kind == "ok":
            if not (self.fits(l, parts[0]) and self.fits(l, parts[1])):
                return "completes although a range may not fit"
            if not SeqVal(l).zero(lsum(done, l.lin(n), -1)):
                return "completes after %s bytes" % self.pl(done)
            return None
        if work:
            return "traps after touching a memory"
        self.inbounds(l, parts)
        return None if l.infeasible() else "traps although both ranges fit"

    def fromread(self, sv, l, q, ln, cur):
        pos, rl, args = cur
        p = l.lin(mk("v", "pos"))
        l2 = Lin()
        l2.cons, l2.atoms, l2.memo = list(l.cons), l.atoms, l.memo
        x = lsum(p, ln, -1)
        l2.cons.append((x[0], x[1] + 1))
        if l2.infeasible():
            return True
        e = SeqVal(l2).elem(q, p)
        if e is None or e[0] != "el":
            return False
        b = e[1]
        # position p of the written piece is position p of the buffer the read filled
        if b.k != "after" or not b.a[0].endswith("::read_exact") or tuple(b.a[2][1:]) != tuple(args):
            return False
        return SeqVal(l2).zero(lsum(e[2], p, -1))

    def pl(self, p):
        return {show(k): v for k, v in p[0].items()} or p[1]


def run(chk):
    chk.rule("memory", "a bulk memory operator pops operands of its memory's address type, works on the memories and segment it names, changes exactly the destination range by one backend operation with its own operands "
             "(or pieces of a copy between two memories, in step and complete, after both ranges are known to fit), and traps with MemoryOutOfBounds exactly when a range does not fit, with nothing changed", 2 * len(SIG))
    for b in (False, True):
        Memories(chk, list(SIG), b, concrete=CHUNKS).run()
    chk.assume = ["indices into a module's and the store's tables are in range (validation, instantiation)", "the backends behave as byte arrays (P36)"]
    chk.trusted = ["the engine's models of Vec, slice and Option methods"]
