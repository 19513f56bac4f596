"""Memory backends: each is one zero-initialised byte array; ranges are checked before anything is touched."""
import re
import engine as E
from terms import *
from lib import extract, Missing
from lin import Lin, facts
from rules.common import CRATES
from summ import leaves

LEVEL = "other"
TRAIT = "tinywasm::store::memory::LinearMemory"
ADDR, A2, A3 = mk("v", "a1"), mk("v", "a2"), mk("v", "a3")
SELF = mk("v", "self")
BASE = mk("deref", SELF)
SLICE = mk("deref", A2)


def ranges(m):
    """(start, byte count) terms of the ranges a method accesses"""
    k = re.fullmatch(r"(read|write)_(\d+)", m)
    if k:
        return [(ADDR, c(64, int(k.group(2)) // 8))]
    return {"write_all": [(ADDR, E.slen(SLICE))], "read_exact": [(ADDR, E.slen(SLICE))], "read_vec": [(ADDR, A2)],
            "fill": [(ADDR, A2)], "copy_within": [(A2, A3), (ADDR, A3)]}[m]


METHODS = ["write_all", "read_exact", "read_vec", "fill", "copy_within"] + ["%s_%d" % (a, b) for a in ("read", "write") for b in (8, 16, 32, 64, 128)]


def conj(o):
    return [(a, b) for a, b, _ in o.conds]


class Backend:
    def __init__(self, chk, db, ty):
        self.chk, self.db = chk, db
        self.ctx = db.ctxs["tinywasm"]
        self.ty = ty
        self.name = ty.split("::")[-1]
        self.m = {}
        for f in self.ctx.fns.values():
            q = re.fullmatch(r"<%s as %s>::(\w+)" % (re.escape(ty), re.escape(TRAIT)), f.name)
            if q:
                self.m[q.group(1)] = f
        st = self.m["len"].locals[1]
        self.sty = self.ctx.types[st]["e"]
        self.fields = self.ctx.types[self.sty]["v"][0][2]
        self.lens = [(conj(o), o.value) for o in self.eng().run(self.m["len"], [SELF]) if o.kind == "return"]

    def eng(self, opaque="", concrete=2, **kw):
        def prune(cs):
            l = Lin(self.axioms)
            for a, b, _ in cs:
                if a.k == "op":
                    l.add(a, b)
            return l.infeasible()
        return E.Engine(self.db, assume_capacity=True, concrete=concrete, max_outcomes=6000, prune=prune,
                        opaque=r"^log::|memory_oob|MemoryBackend::create$" + opaque, **kw)

    def where(self, f):
        return "%s:%s" % (f.file, f.line)

    def field(self, pred):
        r = [i for i, f in enumerate(self.fields) if pred(self.ctx.types[f[1]], f[0])]
        return r

    # the length under a trace's conditions
    def length(self, cs):
        known = {a: b for a, b in cs}
        r = []
        for lc, v in self.lens:
            if all(known.get(a, b) is b for a, b in lc):
                r.append(v)
        return r

    def axioms(self, l, t):
        """what the fields of the paged memory mean: mask = size - 1, so x & mask < size and x & mask <= x"""
        if t.k == "op" and t.a[0] == "and" and self.mask is not None and self.mask in t.a[2:]:
            l.cons.append(({t: 1, **l.lin(self.csize)[0]}, 1) if False else self._lt(l, t, self.csize))
            x = [y for y in t.a[2:] if y is not self.mask]
            if len(x) == 1:
                d, k = l.diff(t, x[0])
                l.cons.append((d, k))
        if t.k == "op" and t.a[0] == "shl" and t.a[2].k == "op" and t.a[2].a[0] == "shr_u" and t.a[3] is t.a[2].a[3] and self.mask is not None:
            # (x >> s) << s == x - (x & mask)
            x = t.a[2].a[2]
            self.chunkeq(l, t, x, None)
        elif t.k == "op" and t.a[0] == "shl" and t.a[2].k == "op" and t.a[2].a[0] == "add" and self.mask is not None and len(t.a[2].a) == 4:
            # ((x >> s) + 1) << s == x - (x & mask) + size
            for u, v in ((t.a[2].a[2], t.a[2].a[3]), (t.a[2].a[3], t.a[2].a[2])):
                if isc(u) and u.a[1] == 1 and v.k == "op" and v.a[0] == "shr_u" and v.a[3] is t.a[3]:
                    self.chunkeq(l, t, v.a[2], self.csize)

    def chunkeq(self, l, t, x, plus):
            d, k = l.diff(t, x)
            e, k2 = l.lin(op("and", 64, x, self.mask))
            if plus is not None:
                pd, pk = l.lin(plus)
                e = dict(e)
                for y, v in pd.items():
                    e[y] = e.get(y, 0) - v
                k2 -= pk
            d = dict(d)
            for y, v in e.items():
                d[y] = d.get(y, 0) + v
            l.cons.append((d, k + k2))
            l.cons.append(({y: -v for y, v in d.items()}, -k - k2))

    mask = csize = shift = None

    @staticmethod
    def _lt(l, a, b):
        d, k = l.diff(a, b)
        return d, k + 1

    def facts(self, o, extra=()):
        l = Lin(self.axioms)
        for a, b in list(extra) + conj(o):
            if a.k == "op":
                l.add(a, b)
        return l

    def allocfail(self, o):
        if any(a is mk("v", "alloc_ok") and b is FALSE for a, b in conj(o)) or any(show(a) == "alloc_ok" and b is FALSE for a, b in conj(o)):
            return True
        # a piecewise access that came back short (the backend below could not provide storage)
        for a, b in conj(o):
            cs = [x for x in subterms(a) if x.k == "call" and ("LinearMemory" in str(x.a[0]) or "MemoryBackend" in str(x.a[0])) and not str(x.a[0]).endswith("::len")]
            if cs:
                return True
        return False

    def mutations(self, o):
        """changes to the memory itself (not to the caller's buffer)"""
        r = []
        for root, val in o.st.mem.items():
            if root.k == "H" or root is A2:
                continue
            if root is not SELF and SELF not in set(subterms(root)):
                continue
            for p, ov, nv in leaves(mk("deref", root), val):
                r.append((root, p, nv))
        return r

    def success(self, o):
        v = o.value
        if v.k == "agg" and v.a[0] in (E.RES,):
            return v.a[1] == 0
        if v.k == "agg" and v.a[0].endswith("Option"):
            return v.a[1] == 1
        return None

    # ------------------------------------------------------------ range rule
    def range_rule(self, m):
        f = self.m.get(m)
        if f is None:
            return self.chk.missing("range", "%s::%s" % (self.name, m))
        opq = ""
        if m == "copy_within":
            opq = r"|(%s.*>|memory::LinearMemory)::(read_exact|write_all)$" % re.escape(self.name)
        elif m not in ("write_all", "read_exact", "fill"):
            opq = r"|(%s.*>|memory::LinearMemory)::(read_exact|write_all)$" % re.escape(self.name) if self.name != "VecMemory" else ""
        elif m == "read_exact" and self.name != "VecMemory" or self.name == "LazyLinearMemory":
            opq = r"|%s.*>::(read|write)$" % re.escape(self.name)
        outs = self.eng(opq, concrete=1).run(f, [SELF, ADDR, A2, A3, mk("v", "a4")][:f.argc])
        rs = ranges(m)
        extra = []
        k = re.fullmatch(r"write_(\d+)", m)
        if k:
            extra.append((op("eq", 64, E.slen(SLICE), rs[0][1]), TRUE))
        bad = ""
        n = 0
        seen = set()
        for o in outs:
            l = self.facts(o, extra)
            if l.infeasible():
                continue
            n += 1
            cs = conj(o)
            Ls = self.length(cs)
            if len(Ls) > 1:
                # the length was not needed: nothing was decided by it
                if o.kind == "return" and not self.mutations(o) and self.success(o) is False:
                    pass
            sub = self.reduced(o, rs)
            if sub is not None:
                s = self.success(o)
                if s is None or s != sub:
                    bad = "the outcome is not that of the access it is made of: " + show(o.value)
                    break
                seen.add("ok" if s else "fail")
                continue
            inr = any(all(l.sum_le([a, q], L) for a, q in rs) for L in Ls)
            out = any(any(l.sum_gt([a, q], L) or l.sum_gt([a, q], c(64, (1 << 64) - 1)) for a, q in rs) for L in Ls)
            desc = "%s %s where %s" % (o.kind, show(o.value)[:160] if o.value is not None else o.why, [(show(a), show(b)) for a, b in cs][:10])
            if o.kind == "panic":
                if inr or self.storage_panic(o):
                    continue            # inside the range: only the representation's own invariants can fail
                bad = "can panic outside the length check: " + desc
                break
            if o.kind == "cut":
                if not inr:
                    bad = "loops before the length check: " + desc
                    break
                continue
            s = self.success(o)
            dl = self.delegated(o, m, rs)
            if dl:
                seen.add("ok")
                if any(x is not None for x in [None]) and not inr:
                    bad = "delegates"
                continue
            if s is None:
                bad = "unexpected result: " + desc
                break
            if self.mutations(o) and not inr:
                bad = "changes the memory before the range is known to lie inside it: " + desc
                break
            if s and not inr:
                bad = "reports success for a range that may not lie inside the memory: " + desc
                break
            if not s:
                if not out and not self.allocfail(o):
                    bad = "fails for a range that may lie inside the memory: " + desc
                    break
                if out and not (m in ("write_all", "read_exact", "read_vec", "fill", "copy_within")) and not self.oob(o):
                    bad = "an access outside the memory does not report MemoryOutOfBounds: " + desc
                    break
            seen.add("ok" if s else "fail")
        if not bad and not {"ok", "fail"} <= seen:
            bad = "no %s trace" % ("succeeding" if "ok" not in seen else "failing")
        self.chk.ob("range", "%s::%s" % (self.name, m), not bad, self.where(f), bad[:1200])
        self.n += n
        return outs

    n = 0

    def reduced(self, o, rs):
        """the method is one access of exactly this range by another method of the same backend (which is checked itself):
        whether that succeeded"""
        ev = [e for e in o.events if e.kind == "call" and re.search(r"LinearMemory>?::(read_exact|write_all)$", str(e.name))]
        if len(ev) != 1 or len(rs) != 1 or ev[0].args[0] is not SELF or ev[0].args[1] is not ADDR:
            return None
        n = blen(ev[0].args[2])
        if n is not rs[0][1] and not (n is E.slen(SLICE)):
            return None
        for a, b in conj(o):
            if a.k == "discr" and a.a[0].k == "call" and a.a[0].a[0] == ev[0].name and isc(b):
                return b.a[1] == 1
        return None

    def storage_panic(self, o):
        """allocating lazily created storage"""
        return "materializ" in str(o.why) or "capacity" in str(o.why) or "alloc" in str(o.why)

    def oob(self, o):
        t = o.value.a[2][0]
        return t.k == "call" and str(t.a[0]).endswith("memory_oob") or (t.k == "agg" and self.trapname(t) == "MemoryOutOfBounds")

    def trapname(self, t):
        for ty in self.ctx.types:
            if ty["k"] == "enum" and ty["def"] == t.a[0]:
                return ty["v"][t.a[1]][0]

    def delegated(self, o, m, rs):
        """the result is that of the same access of the wrapped memory"""
        v = o.value
        if v.k == "call" and str(v.a[0]).endswith("LinearMemory::" + m):
            return all(x is y for x, y in zip(v.a[1][1:], [ADDR, A2, A3]))
        if self.name == "LazyLinearMemory" and self.success(o):
            ev = [e for e in o.events if e.kind == "call" and "LinearMemory::" + m in str(e.name)]
            return bool(ev) and all(x is y for x, y in zip(ev[-1].args[1:], [ADDR, A2, A3]))
        return False


class Vec(Backend):
    def content(self, m, outs):
        d = self.field(lambda t, n: t.get("def") == "alloc::vec::Vec")
        if len(d) != 1:
            raise Missing("buffer of VecMemory")
        D = fld(BASE, None, d[0])
        n = {"write_all": E.slen(SLICE), "read_exact": E.slen(SLICE)}.get(m)
        bad = ""
        k = re.fullmatch(r"(read|write)_(\d+)", m)
        for o in outs:
            if o.kind != "return" or not self.success(o) or self.facts(o).infeasible():
                continue
            new = D
            for root, p, nv in self.mutations(o):
                if root is SELF and p and p[0][1] == d[0] and len(p) == 1:
                    new = nv
                else:
                    bad = "changes %s %s" % (show(root), p)
            buf = o.st.mem.get(A2, SLICE)
            fs = self.facts(o)
            if k:
                w = int(k.group(2)) // 8
                if k.group(1) == "read":
                    v = o.value.a[2][0]
                    good = new is D and (v is E.ssub(D, ADDR, c(64, w)) or (v.k == "agg" and [x for x in v.a[2]] == [E.sel(D, op("add", 64, ADDR, c(64, i))) for i in range(w)]))
                else:
                    t = D
                    for i in range(w):
                        t = E.sstore(t, op("add", 64, ADDR, c(64, i)), E.sel(SLICE, c(64, i)))
                    good = new is t or self.splice(new, D, ADDR, c(64, w), SLICE) or self.splice(new, D, ADDR, E.slen(SLICE), SLICE)
                    if w == 1 and not good:
                        good = new is E.sstore(D, ADDR, E.sel(SLICE, c(64, 0)))
            elif m == "write_all":
                good = self.splice(new, D, ADDR, n, SLICE)
            elif m == "read_exact":
                good = new is D and buf is E.ssub(D, ADDR, n)
            elif m == "read_vec":
                good = new is D and o.value.a[2][0] is E.ssub(D, ADDR, A2)
            elif m == "fill":
                good = new.k == "splice" and new.a[0] is D and new.a[1] is ADDR and new.a[2] is A2 and new.a[3].k == "seqrep" and new.a[3].a[0] is A3
            elif m == "copy_within":
                good = new is mk("cpw", D, A2, A3, ADDR) or (new.k == "splice" and new.a[0] is D and new.a[1] is ADDR and new.a[2] is A3 and new.a[3] is E.ssub(D, A2, A3)) \
                    or (new is D and (fs.le(A3, c(64, 0)) or any(a is op("eq", 64, ADDR, A2) and b is TRUE for a, b in conj(o))))
            if m not in ("read_exact",) and buf is not SLICE and m != "read_vec":
                good = False
            if not good:
                bad = bad or "memory becomes %s, result %s, buffer %s" % (show(new), show(o.value), show(buf))
        self.chk.ob("content", "%s::%s" % (self.name, m), not bad, self.where(self.m[m]), bad[:900])

    def splice(self, t, D, at, n, src):
        return t.k == "splice" and t.a[0] is D and t.a[1] is at and t.a[2] is n and (t.a[3] is src or t.a[3] is E.ssub(src, c(64, 0), n))

    def partial(self):
        """read/write: the largest prefix that fits"""
        d = self.field(lambda t, n: t.get("def") == "alloc::vec::Vec")
        D = fld(BASE, None, d[0])
        for m in ("read", "write"):
            bad = ""
            for o in self.eng().run(self.m[m], [SELF, ADDR, A2]):
                l = self.facts(o)
                if l.infeasible():
                    continue
                if o.kind == "panic":
                    bad = "can panic: %s where %s" % (o.why, [(show(a), show(b)) for a, b in conj(o)])
                    break
                L, n, want = E.slen(D), o.value, E.slen(SLICE)
                new, buf = D, o.st.mem.get(A2, SLICE)
                for root, p, nv in self.mutations(o):
                    new = nv
                if isc(n) and n.a[1] == 0 and new is D and buf is SLICE:
                    if not (l.le(L, ADDR) or l.le(want, c(64, 0))):
                        bad = "reads or writes nothing although bytes remain: %s" % [(show(a), show(b)) for a, b in conj(o)]
                    continue
                if not l.sum_le([ADDR, n], L) or not l.le(n, want) or not (l.le(want, n) or l.sum_gt([ADDR, n, c(64, 1)], L)):
                    bad = "count %s where %s" % (show(n), [(show(a), show(b)) for a, b in conj(o)])
                if m == "write" and not (self.splice(new, D, ADDR, n, SLICE) and buf is SLICE):
                    bad = "memory becomes %s" % show(new)
                x = E.ssub(D, ADDR, n)
                if m == "read" and not (new is D and (buf is x or self.splice(buf, SLICE, c(64, 0), n, x))):
                    bad = "buffer becomes %s" % show(buf)
            self.chk.ob("content", "%s::%s" % (self.name, m), not bad, self.where(self.m[m]), bad[:900])

    def grow(self):
        d = self.field(lambda t, n: t.get("def") == "alloc::vec::Vec")
        D = fld(BASE, None, d[0])
        bad = ""
        for o in self.eng().run(self.m["grow_to"], [SELF, ADDR]):
            l = self.facts(o)
            if l.infeasible():
                continue
            mu = self.mutations(o)
            if o.kind != "return":
                bad = "can panic: %s" % (o.why,)
            elif self.success(o):
                new = mu[0][2] if mu else D
                if not l.le(E.slen(D), ADDR) or len(mu) > 1 or not (new is mk("rsz", D, ADDR, c(8, 0)) or (new is D and l.le(ADDR, E.slen(D)))):
                    bad = "memory becomes %s where %s" % (show(new), [(show(a), show(b)) for a, b in conj(o)])
            else:
                if mu or not (l.lt(ADDR, E.slen(D)) or self.allocfail(o)):
                    bad = "fails where %s, changing %s" % ([(show(a), show(b)) for a, b in conj(o)], mu)
        self.chk.ob("grow", self.name, not bad, self.where(self.m["grow_to"]), bad[:900])


class Paged(Backend):
    def setup(self):
        tc = [i for i, f in enumerate(self.fields) if self.ctx.types[f[1]].get("def") == "alloc::vec::Vec"]
        nm = {f[0]: i for i, f in enumerate(self.fields)}
        if len(tc) != 1 or len(self.lens) != 1:
            raise Missing("chunk table of PagedMemory")
        self.chunks = fld(BASE, None, tc[0])
        self.L = self.lens[0][1]
        # the roles of the other fields, from the constructor
        ctor = [f for f in self.ctx.fns.values() if f.name == self.ty + "::try_new"]
        if len(ctor) != 1:
            raise Missing("PagedMemory::try_new")
        a = [mk("v", "a1"), mk("v", "a2")]
        roles = {}
        for o in self.eng().run(ctor[0], a):
            if o.kind == "return" and self.success(o):
                v = o.value.a[2][0]
                for i in range(len(self.fields)):
                    x = fld(v, None, i)
                    if x is a[1]:
                        roles["csize"] = i
                    elif x is op("add", 64, a[1], c(64, -1)):
                        roles["mask"] = i
                    elif x.k == "op" and (x.a[0] in ("ctz", "trunc") or "ctz" in show(x)):
                        roles["shift"] = i
                    elif x is a[0]:
                        roles["len"] = i
        if set(roles) != {"csize", "mask", "shift", "len"} or fld(BASE, None, roles["len"]) is not self.L:
            self.chk.ob("content", "PagedMemory::try_new", False, self.where(ctor[0]), "chunk size, mask, shift and length are not set up consistently: %s" % roles)
            raise Missing("representation of PagedMemory")
        self.chk.ob("content", "PagedMemory::try_new", True, self.where(ctor[0]), "")
        self.csize, self.mask, self.shift = (fld(BASE, None, roles[k]) for k in ("csize", "mask", "shift"))

    def chunk_of(self, t):
        """the byte address whose chunk index t is"""
        if t.k == "op" and t.a[0] == "shr_u" and self.shift in (t.a[3], E.soff(t.a[3]) if False else t.a[3]):
            return t.a[2]
        return None

    def indices(self, o):
        """addresses of the chunks a trace visits, in order (the bounds checks on the chunk table)"""
        r = []
        for a, b in conj(o):
            if a.k == "op" and a.a[0] == "lt_u" and a.a[3].k == "len" and b is TRUE:
                base = a.a[3].a[0]
                while base.k == "store":
                    base = base.a[0]
                if base is self.chunks:
                    p = a.a[2]
                    if p.k == "op" and p.a[0] == "shr_u" and strip_(p.a[3]) is self.shift:
                        r.append(p.a[2])
                    else:
                        r.append(None)
        return r

    def offset(self, t):
        """the address a chunk offset belongs to"""
        if isc(t) and t.a[1] == 0:
            return "zero"
        if t.k == "op" and t.a[0] == "and" and self.mask in t.a[2:]:
            x = [y for y in t.a[2:] if y is not self.mask]
            return x[0] if len(x) == 1 else None
        return None

    def pieces(self, o, l):
        """(kind, address, count, source/value) of each piece copied between a chunk and a buffer"""
        idx = self.indices(o)
        out = []
        for e in o.events:
            if e.kind != "write":
                continue
            a0 = e.args[0]
            d = a0.a[0] if a0.k == "at" else mk("deref", a0) if a0 is A2 else a0
            s = e.args[1]
            s = s.a[0] if s.k == "at" else mk("deref", s) if s is A2 else s
            out.append((e.name.split("::")[-1], d, s))
        return idx, out

    def sl(self, t):
        if t.k == "sub":
            return t.a[0], t.a[1], t.a[2]
        return t, c(64, 0), E.slen(t)

    def isbuf(self, t):
        while t.k in ("splice", "store"):
            t = t.a[0]
        return t is SLICE

    def content(self, m):
        f = self.m[m]
        outs = self.eng(concrete=1 if m == "fill" else 2).run(f, [SELF, ADDR, A2, A3][:f.argc])
        total = E.slen(SLICE) if m != "fill" else A2
        bad = ""
        npieces = 0
        for o in outs:
            if o.kind == "panic":
                continue
            l = self.facts(o)
            if l.infeasible():
                continue
            idx, ps = self.pieces(o, l)
            why = ""
            if None in idx:
                why = "a chunk index is not an address shifted by the chunk size"
            done = c(64, 0)
            addrs = []
            for nm, d, s in ps:
                if m == "fill":
                    x, off, n = self.sl(d)
                    src, so = s, None
                elif m in ("write", "write_all"):
                    x, off, n = self.sl(d)
                    src, so, sn = self.sl(s)
                    if src is not SLICE or sn is not n:
                        why = "copies %s" % show(s)
                elif nm == "fill":
                    src, so, n = self.sl(d)
                    x, off = None, None
                    if not self.isbuf(src) or not (isc(s) and s.a[1] == 0):
                        why = "fills %s" % show(d)
                else:
                    src, so, n = self.sl(d)
                    x, off, sn = self.sl(s)
                    if not self.isbuf(src) or sn is not n:
                        why = "copies to %s" % show(d)
                P = op("add", 64, ADDR, done) if m != "fill" else None
                if m == "fill":
                    P = self.offset(off)
                    if P in (None, "zero") or src is not A3 and not (isc(src) and any(a is op("eq", 8, A3, src) and b is TRUE for a, b in conj(o))):
                        why = why or "fills %s with %s" % (show(d), show(s))
                        break
                else:
                    if so is not done:
                        why = why or "piece starts at %s of the buffer, not at %s" % (show(so), show(done))
                    if off is not None and self.offset(off) is not P:
                        why = why or "piece starts at %s of its chunk, not at (%s) & mask" % (show(off), show(P))
                    if P not in idx:
                        why = why or "piece at %s uses the chunk of another address" % show(P)
                addrs.append(P)
                if off is not None and not l.sum_le([off, n], self.csize):
                    why = why or "piece leaves its chunk: offset %s count %s" % (show(off), show(n))
                if not l.sum_le([P, n], self.L):
                    why = why or "piece leaves the memory: %s + %s" % (show(P), show(n))
                if m != "fill":
                    done = op("add", 64, done, n)
                npieces += 1
            if m == "fill" and not why:
                why = self.fill_cover(o, l, idx, ps)
            if not why and o.kind == "return":
                if m in ("write_all",) and self.success(o) and not l.le(total, done):
                    why = "returns before all bytes are written (%s of %s)" % (show(done), show(total))
                if m in ("read", "write"):
                    if o.value is not done:
                        why = "reports %s bytes after copying %s" % (show(o.value), show(done))
                    elif len(ps) > 1 or (isc(done) and not (l.le(self.L, ADDR) or l.le(total, c(64, 0)) or self.allocfail(o))):
                        why = "copies nothing although bytes remain"
            if why:
                bad = why + " where %s" % [(show(a), show(b)) for a, b in conj(o)][:12]
                break
        if not bad and not npieces:
            bad = "no piece is copied"
        self.chk.ob("content", "PagedMemory::" + m, not bad, self.where(f), bad[:1200])

    def fill_cover(self, o, l, idx, ps):
        end = op("add", 64, ADDR, A2)
        for a, b in conj(o):
            if b is FALSE and a.k == "op" and a.a[0] == "lt_u" and a.a[3].k == "len" and a.a[3].a[0] is self.chunks:
                x = a.a[2]
                if x.k == "op" and x.a[0] == "shr_u" and strip_(x.a[3]) is self.shift and l.lt(x.a[2], self.L):
                    return ""       # a chunk of an address inside the memory always has its slot
        if not idx and o.kind == "return" and self.success(o):
            return "" if l.le(A2, c(64, 0)) else "fills nothing"
        if idx and idx[0] is not ADDR:
            return "filling starts at %s" % show(idx[0])
        zero = l.le(zext(64, 8, A3), c(64, 0)) or any(a is op("eq", 8, A3, c(8, 0)) and b is TRUE for a, b in conj(o))
        byaddr = {}
        for nm, d, s in ps:
            x, off, n = self.sl(d)
            byaddr[self.offset(off)] = n
        tbl = o.st.mem.get(SELF, BASE)
        tbl = fld(tbl, None, self.chunks.a[-1] if False else self.chunks.a[2])
        cleared = []
        while tbl.k == "store":
            if tbl.a[2] is E.NONE or (tbl.a[2].k == "agg" and tbl.a[2].a[1] == 0):
                cleared.append(tbl.a[1].a[2])
            tbl = tbl.a[0]
        none = {a.a[0].a[1].a[2] for a, b in conj(o) if a.k == "discr" and a.a[0].k == "sel" and isc(b) and b.a[1] == 0 and a.a[0].a[1].k == "op"}
        for i, P in enumerate(idx):
            nxt = idx[i + 1] if i + 1 < len(idx) else (end if o.kind == "return" and self.success(o) else None)
            if nxt is None:
                continue
            if P in byaddr:
                if op("add", 64, P, byaddr[P]) is nxt or (l.sum_le([P, byaddr[P]], nxt) and l.le(nxt, op("add", 64, P, byaddr[P]))):
                    continue
                return "after filling %s bytes at %s it goes on at %s" % (show(byaddr[P]), show(P), show(nxt))
            if not zero:
                return "the chunk at %s is not filled" % show(P)
            n = op("add", 64, nxt, op("neg", 64, P))
            if P in cleared:
                off = op("and", 64, P, self.mask)
                if not l.le(off, c(64, 0)):
                    return "a chunk is dropped although bytes before %s are kept" % show(P)
                if not (l.le(self.csize, n) or l.le(self.L, nxt)):
                    return "a chunk is dropped although bytes after %s are kept" % show(nxt)
                if not l.sum_le([P, n], nxt):
                    return "a chunk is dropped beyond the range"
            elif P not in none:
                return "the chunk at %s is not filled" % show(P)
            if not (l.le(nxt, end) and l.sum_le([op("and", 64, P, self.mask), n], self.csize)):
                return "after the chunk at %s it goes on at %s" % (show(P), show(nxt))
        return ""

    def bytes1(self):
        """read_8 / write_8"""
        if self.m["read_8"].file.endswith("mod.rs"):
            return
        for m in ("read_8", "write_8"):
            f = self.m[m]
            bad = ""
            n = 0
            for o in self.eng().run(f, [SELF, ADDR, A2][:f.argc]):
                if o.kind != "return" or not self.success(o):
                    continue
                idx = self.indices(o)
                if idx and any(x is not ADDR for x in idx) or not idx:
                    bad = "the chunk is not the one of the address"
                n += 1
                if m == "read_8":
                    v = fld(o.value.a[2][0], None, 0) if o.value.a[2][0].k == "agg" else None
                    v = o.value.a[2][0].a[2][0]
                    absent = any(a.k == "discr" and b.a[1] == 0 for a, b in conj(o) if isc(b))
                    if absent:
                        if not (isc(v) and v.a[1] == 0):
                            bad = "a byte of an absent chunk reads as %s" % show(v)
                    elif not (v.k == "sel" and self.offset(v.a[1]) is ADDR and self.chunks in set(subterms(v.a[0]))):
                        bad = "reads %s" % show(v)
                else:
                    st = [v for r, v in o.st.mem.items() if r is not SELF and v.k == "store"]
                    if len(st) != 1 or self.offset(st[0].a[1]) is not ADDR or st[0].a[2] is not E.sel(SLICE, c(64, 0)):
                        bad = "writes %s" % [show(x) for x in st]
            self.chk.ob("content", "PagedMemory::" + m, not bad and n >= 2, self.where(f), bad[:900])

    def grow(self):
        f = self.m["grow_to"]
        bad = ""
        li = self.L.a[2]
        ci = self.chunks.a[2]
        for o in self.eng().run(f, [SELF, ADDR]):
            l = self.facts(o)
            if l.infeasible():
                continue
            mu = self.mutations(o)
            if o.kind == "panic":
                bad = "can panic: %s where %s" % (o.why, [(show(a), show(b)) for a, b in conj(o)])
            elif o.kind == "return" and self.success(o):
                new = o.st.mem.get(SELF, BASE)
                if not l.le(self.L, ADDR) or fld(new, None, li) is not ADDR:
                    bad = "the length becomes %s where %s" % (show(fld(new, None, li)), [(show(a), show(b)) for a, b in conj(o)])
                ch = fld(new, None, ci)
                want = mk("op", "div_ceil_u", 64, ADDR, self.csize)
                if ch.k not in ("rsz", "trc", "rszw") and ch is not self.chunks or (ch is not self.chunks and ch.a[0] is not self.chunks):
                    bad = "the chunk table becomes %s" % show(ch)
                elif ch.k in ("rsz", "rszw", "trc") and ch.a[1] is not want and not (isc(ch.a[1]) and l.le(ADDR, c(64, 0))):
                    bad = "the chunk table gets %s chunks" % show(ch.a[1])
            elif o.kind == "return":
                if mu or not (l.lt(ADDR, self.L) or self.allocfail(o)):
                    bad = "fails where %s, changing %s" % ([(show(a), show(b)) for a, b in conj(o)], mu)
        self.chk.ob("grow", self.name, not bad, self.where(f), bad[:900])


def strip_(t):
    while t.k == "op" and t.a[0] in ("zext", "trunc"):
        t = t.a[2]
    return t


class Lazy(Backend):
    def setup(self):
        inner = self.field(lambda t, n: t.get("def", "").endswith("Option"))
        if len(inner) != 1 or len(self.lens) != 2:
            raise Missing("wrapped memory of the lazy backend")
        self.inner = fld(BASE, None, inner[0])
        self.init = [v for cs, v in self.lens if v.k == "fld"][0]

    def absent(self, o):
        return any(a.k == "discr" and a.a[0] is self.inner and isc(b) and b.a[1] == 0 for a, b in conj(o))

    def content(self, m):
        """with the storage present every call is forwarded unchanged; without it reads give zeroes, writes create it first"""
        f = self.m[m]
        outs = self.eng(r"|LazyLinearMemory.*>::(read|write)$" if m in ("read_exact",) else "").run(f, [SELF, ADDR, A2, A3][:f.argc])
        bad = ""
        n = 0
        for o in outs:
            if o.kind == "panic":
                continue
            l = self.facts(o)
            if l.infeasible() or o.kind != "return":
                continue
            ev = [e for e in o.events if e.kind == "call" and "LinearMemory::" in str(e.name) and not str(e.name).endswith("::len")]
            if ev:
                n += 1
                e = ev[-1]
                if len(ev) != 1 or not str(e.name).endswith("::" + m) or any(x is not y for x, y in zip(e.args[1:], [ADDR, A2, A3])):
                    bad = "forwards %s(%s)" % (e.name, ", ".join(show(x) for x in e.args[1:]))
                if self.absent(o):
                    cr = [e2 for e2 in o.events if e2.kind == "call" and str(e2.name).endswith("MemoryBackend::create")]
                    if m == "read" or len(cr) != 1 or not any(x is self.init for x in cr[0].args):
                        bad = "storage is created as %s" % [[show(x) for x in e2.args] for e2 in cr]
                    new = fld(o.st.mem.get(SELF, BASE), None, self.inner.a[2])
                    if not (new.k == "agg" and new.a[1] == 1):
                        bad = "the created storage is not kept"
                elif self.mutations(o) and any(r is SELF for r, p, v in self.mutations(o)):
                    bad = "replaces the storage"
            else:
                # nothing forwarded: allowed when nothing has to change
                buf = o.st.mem.get(A2, SLICE) if m == "read" else None
                if self.mutations(o):
                    bad = "changes %s" % [(show(r), p) for r, p, v in self.mutations(o)]
                if m == "read":
                    if isc(o.value) and o.value.a[1] == 0 and buf is SLICE:
                        if not (any(l.le(L, ADDR) for L in self.length(conj(o))) or l.le(E.slen(SLICE), c(64, 0))):
                            bad = "reads nothing"
                    elif not self.absent(o) or not self.zeroes(buf, o.value) or not l.sum_le([ADDR, o.value], self.init) or not \
                            (l.le(E.slen(SLICE), o.value) or l.sum_gt([ADDR, o.value, c(64, 1)], self.init)):
                        bad = "reads %s bytes as %s" % (show(o.value), show(buf))
                elif m == "write":
                    if not (isc(o.value) and o.value.a[1] == 0) or not (any(l.le(L, ADDR) for L in self.length(conj(o))) or l.le(E.slen(SLICE), c(64, 0))):
                        bad = "writes nothing: %s" % [(show(a), show(b)) for a, b in conj(o)]
                elif self.success(o):
                    z = {"write_all": E.slen(SLICE), "fill": A2, "copy_within": A3}[m]
                    same = m == "copy_within" and (self.absent(o) or any(a is op("eq", 64, ADDR, A2) and b is TRUE for a, b in conj(o)))
                    zero = m == "fill" and self.absent(o) and any(a is op("eq", 8, A3, c(8, 0)) and b is TRUE for a, b in conj(o))
                    if not (l.le(z, c(64, 0)) or same or zero):
                        bad = "does nothing: %s" % [(show(a), show(b)) for a, b in conj(o)]
        if not bad and not n:
            bad = "never forwards"
        self.chk.ob("content", "LazyLinearMemory::" + m, not bad, self.where(f), bad[:900])

    def zeroes(self, buf, n):
        if buf.k == "seqrep":
            return isc(buf.a[0]) and buf.a[0].a[1] == 0
        return buf.k == "splice" and buf.a[0] is SLICE and isc(buf.a[1]) and buf.a[1].a[1] == 0 and buf.a[3].k == "seqrep" and isc(buf.a[3].a[0]) and buf.a[3].a[0].a[1] == 0 and buf.a[2] is n


def pieced_copy(chk, B):
    """copy_within by pieces through a buffer: contiguous, in the safe direction"""
    f = B.m["copy_within"]
    outs = B.eng(r"|(%s.*>|memory::LinearMemory)::(read_exact|write_all)$" % re.escape(B.name), concrete=3).run(f, [SELF, ADDR, A2, A3])
    dst, src, n = ADDR, A2, A3
    bad, cnt = "", 0
    for o in outs:
        if o.kind == "panic":
            continue
        l = B.facts(o)
        if l.infeasible():
            continue
        ev = [e for e in o.events if (e.kind == "call" and re.search(r"::(read_exact|write_all)$", str(e.name)))]
        one = [e for e in o.events if e.kind == "write" and str(e.name).endswith("copy_within")]
        ok_ = o.kind == "return" and B.success(o)
        if not ev and not one:
            if ok_ and not (l.le(n, c(64, 0)) or any(a is op("eq", 64, dst, src) and b is TRUE for a, b in conj(o))) and not unallocated(B, o):
                bad = "reports success without copying: %s" % [(show(a), show(b)) for a, b in conj(o)]
            continue
        if one:
            e = one[0]
            r = e.args[1]
            a, b = fld(r, None, 0), fld(r, None, 1)
            if B.offset(a) is not src or op("add", 64, a, n) is not b or B.offset(e.args[2]) is not dst:
                bad = "copies %s to %s inside a chunk" % (show(r), show(e.args[2]))
            if not (l.sum_le([a, n], B.csize) and l.sum_le([e.args[2], n], B.csize)):
                bad = "leaves the chunk"
            ix = B.indices(o)
            same = any(a_.k == "op" and a_.a[0] == "eq" and b_ is TRUE and {strip_(x.a[2]) if x.k == "op" and x.a[0] == "shr_u" else None for x in a_.a[2:]} == {src, dst} for a_, b_ in
                       [(x.a[2] if x.k == "op" and x.a[0] == "not" else x, (FALSE if y is TRUE else TRUE) if x.k == "op" and x.a[0] == "not" else y) for x, y in conj(o)])
            if not same:
                bad = "copies inside one chunk without knowing that both ranges lie in it"
            cnt += 1
            continue
        pos = None
        fwd = None
        for i in range(0, len(ev) - 1, 2):
            r, w = ev[i], ev[i + 1]
            if not str(r.name).endswith("read_exact") or not str(w.name).endswith("write_all"):
                bad = "order of reads and writes"
                break
            ra, wa = r.args[1], w.args[1]
            ro = op("add", 64, ra, op("neg", 64, src))
            wo = op("add", 64, wa, op("neg", 64, dst))
            rn, wn = blen(r.args[2]), blen(w.args[2])
            if ro is not wo or rn is not wn:
                bad = "reads %s bytes at %s, writes %s at %s" % (show(rn), show(ra), show(wn), show(wa))
                break
            if i == 0:
                fwd = isc(ro) and ro.a[1] == 0
                pos = c(64, 0) if fwd else n
            if fwd:
                if ro is not pos:
                    bad = "piece at %s, expected %s" % (show(ro), show(pos))
                    break
                pos = op("add", 64, pos, rn)
            else:
                q = op("add", 64, pos, op("neg", 64, rn))
                if ro is not q:
                    bad = "piece at %s, expected %s" % (show(ro), show(q))
                    break
                pos = q
            cnt += 1
        if bad:
            break
        if len(ev) >= 2:
            if blen(ev[0].args[2]) is n:
                continue    # one piece: everything is read before anything is written
            # a forward copy must not overwrite source bytes it still has to read
            if fwd and not (l.lt(dst, src) or l.sum_le([src, n], dst) or (l.le(dst, src))):
                bad = "copies forward although the destination may overlap the rest of the source"
            if not fwd and not (l.lt(src, dst) or l.sum_le([dst, n], src) or l.le(src, dst)):
                bad = "copies backward although the destination may overlap the rest of the source"
            if ok_ and len(ev) % 2 == 0 and not (l.le(n, pos) if fwd else l.le(pos, c(64, 0))):
                bad = "returns before everything is copied"
        if bad:
            bad += " where %s" % [(show(a), show(b)) for a, b in conj(o)][:10]
            break
    if not bad and not cnt:
        bad = "nothing is copied"
    chk.ob("content", "%s::copy_within" % B.name, not bad, B.where(f), bad[:900])


def unallocated(B, o):
    """the chunk both ranges lie in has no storage: all zeroes (or no slot, which the representation excludes)"""
    if any(a.k == "op" and a.a[0] == "lt_u" and a.a[3].k == "len" and a.a[3].a[0] is B.chunks and b is FALSE for a, b in conj(o)):
        return True
    return any(a.k == "discr" and isc(b) and b.a[1] == 0 and a.a[0].k == "sel" for a, b in conj(o))


def blen(t):
    if t.k == "at":
        return E.slen(t.a[0])
    return E.slen(mk("deref", t))


def run(chk):
    chk.rule("range", "on every trace of every access method of every backend: success and any change of the memory only after addr + len <= length is established without "
             "wrap-around (linear entailment from the trace's branch conditions), failure only when the range leaves the memory or storage cannot be allocated", floor=40)
    chk.rule("content", "the bytes copied, filled or read are those of the requested range: contiguous buffer: exact slice terms; chunked: every piece at (addr + done) of its own chunk, "
             "contiguous and complete; lazy: forwarded unchanged, zero before creation", floor=22)
    chk.rule("grow", "growing keeps the contents, appends zeroes, sets the length, and leaves the memory unchanged when it fails", floor=2)
    chk.assume = ["loops over chunks are peeled three iterations; the remaining iterations repeat the third",
                  "representation invariants of the chunk table (one slot per chunk, chunks of the chunk size), established by try_new/grow_to which are checked",
                  "memories supplied by the embedder (MemoryBackend::custom) honour the trait contract"]
    db = extract(("-p", "tinywasm"), CRATES)
    ctx = db.ctxs["tinywasm"]
    tys = sorted(t for t in {re.match(r"<(.*) as %s>" % re.escape(TRAIT), f.name).group(1) for f in ctx.fns.values() if re.match(r"<.* as %s>::" % re.escape(TRAIT), f.name)} if re.fullmatch(r"[\w:]+", t))
    cls = {"VecMemory": Vec, "PagedMemory": Paged, "LazyLinearMemory": Lazy}
    n = 0
    for ty in tys:
        nm = ty.split("::")[-1]
        if nm not in cls:
            chk.ob("range", nm, False, "", "a backend the rules do not know")
            continue
        B = cls[nm](chk, db, ty)
        if hasattr(B, "setup"):
            if chk.attempt("content", B.setup) is False:
                continue
        for m in METHODS:
            outs = chk.attempt("range", B.range_rule, m)
            if nm == "VecMemory" and outs:
                chk.attempt("content", B.content, m, outs)
        if nm == "VecMemory":
            chk.attempt("content", B.partial)
            chk.attempt("grow", B.grow)
        if nm == "PagedMemory":
            for m in ("write_all", "write", "read", "fill"):
                chk.attempt("content", B.content, m)
            chk.attempt("content", B.bytes1)
            chk.attempt("content", pieced_copy, chk, B)
            chk.attempt("grow", B.grow)
        if nm == "LazyLinearMemory":
            for m in ("read", "write", "write_all", "fill", "copy_within"):
                chk.attempt("content", B.content, m)
        n += B.n
    chk.extra.update({"backends": tys, "traces_examined": n})
