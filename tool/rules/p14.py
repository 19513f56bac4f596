"""Linking: an import is accepted exactly when the item found for it has the kind, type and store the module asks for."""
import re
from terms import *
from lib import extract, Missing
from api import Api, contradictory, implied
from rules.common import CRATES

LEVEL = "proof"
OPAQUE = r"ModuleInstance::export_addr$|ExternName as |Imports::take_defined$|LinkingError::|BTreeMap"
KINDS = {"Function": ("Func", "funcs"), "Table": ("Table", "tables"), "Memory": ("Memory", "memories"), "Global": ("Global", "globals")}


class Link:
    def __init__(self, chk, db):
        self.chk = chk
        self.A = Api(db, OPAQUE, outcomes=30000, steps=4000000)
        self.pos, self.enums = self.A.layout()
        self.n = 0
        self.at = None

    def idx(self, enum, name):
        for i, v in enumerate(self.enums[enum]["v"]):
            if v[0] == name:
                return i
        raise Missing("%s::%s" % (enum, name))

    def disc(self, enum, name):
        return int(self.enums[enum]["v"][self.idx(enum, name)][1])

    def F(self, t, ty, *names):
        for n in names:
            t = fld(t, None, self.pos[ty][n])
        return t

    def link(self):
        fs = self.A.fn(r"::Imports::link$")
        f = fs[0]
        ts, nx = self.A.loops(f)
        self.store = mk("deref", mk("v", "p2"))
        self.state = self.F(self.store, "Store", "state")
        self.sid = self.F(self.store, "Store", "id")
        mod = None
        oks = [t for t in ts if t.kind == "return" and t.ok]
        if not oks:
            raise Missing("a successful link")
        v = oks[0].value
        p = self.pos["ResolvedImports"]
        if any(t.value is not v for t in oks) or v.k != "agg":
            raise Missing("one result of link")
        outs = {n: v.a[2][i] for n, i in p.items()}
        for n, s in sorted(outs.items()):
            ok = s.k == "lp" and all(x.k == "agg" and x.a[0] == "vec" and not x.a[2] for x in self.A.entry.get(s, [mk("undef")]))
            self.chk.ob("result", n, ok, "%s:%s" % (f.file, f.line), "" if ok else "the %s handed on are not the ones collected (%s)" % (n, show(s)[:100]))
        self.outs = outs
        its = [t for t in nx if any(s in t.eff for s in outs.values())]
        other = [t for t in nx if t not in its and t.why == its[0].why and self.imp(t) is not None] if its else []
        errs = [t for t in ts if t.kind == "return" and t.ok is False]
        # the iterations cover every import, in order
        pos = {self.position(t) for t in its}
        bad = ""
        if len(pos) != 1 or None in pos:
            bad = "the loop over the imports is not understood"
        else:
            i, seq = self.at = pos.pop()
            if self.A.entry.get(i) != {c(64, 0)}:
                bad = "the first import is not looked at first"
            for t in oks:
                if not implied(t.conds, ult(i, mk("len", seq)), 0):
                    bad = "linking can end before the last import"
            for t in its:
                if t.eff.get(i) is not add(64, i, c(64, 1)):
                    bad = "an import is looked at twice or passed over"
            if not re.search(r"\.%d\b" % self.pos["ModuleInner"]["imports"], show(seq)):
                bad = "the imports linked are not the module's (%s)" % show(seq)[:80]
        self.chk.ob("order", "imports", not bad, "%s:%s" % (f.file, f.line), bad)
        seen = {}
        for t in its + other:
            r = self.accepted(t, errs)
            if r[0]:
                self.bad(seen, r)
            else:
                seen.setdefault(r[1], "")
        for t in errs:
            r = self.refused(t)
            if r and r[0]:
                self.bad(seen, r)
        for t in ts:
            if t.kind == "panic" and not self.excused(t):
                self.bad(seen, ("linking can panic: %s" % str(t.why)[:150], self.src(t)))
        for src in ("defined", "module"):
            for k in KINDS:
                key = "%s:%s" % (src, k)
                b = seen.get(key)
                self.chk.ob("match", key, b == "", "%s:%s" % (f.file, f.line), "an import of this kind is never accepted" if b is None else b)
        for key, b in sorted(seen.items()):
            if b and key.split(":")[-1] not in KINDS:
                self.chk.ob("match", key, False, "%s:%s" % (f.file, f.line), b)

    def bad(self, seen, r):
        if not seen.get(r[1]):
            seen[r[1]] = r[0]

    def position(self, t):
        x = self.imp(t)
        return (x.a[1], x.a[0]) if x is not None else None

    def imp(self, t):
        """the import an iteration looks at"""
        for a, b in t.conds:
            for x in subterms(a):
                if x.k == "sel" and x.a[1].k == "lp" and (x.a[1] in t.eff or (x.a[1], x.a[0]) == self.at):
                    return x
        return None

    def of(self, t, pred):
        for a, b in t.conds:
            v = b.a[1] if isc(b) else None
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if pred(a):
                return a, v
        return None

    def call(self, t, pat):
        for a, b in t.conds:
            for x in subterms(a):
                if x.k == "call" and re.search(pat, x.a[0]):
                    return x
        return None

    def kindof(self, t):
        I = self.imp(t)
        if I is None:
            return None
        k = fld(I, None, self.pos["Import"]["kind"])
        r = self.of(t, lambda a: a.k == "discr" and a.a[0] is k)
        if r is None or r[1] is None:
            return None
        for v in self.enums["ImportKind"]["v"]:
            if int(v[1]) == r[1]:
                return v[0]

    def src(self, t):
        d = self.call(t, "::take_defined$")
        r = self.of(t, lambda a: a.k == "discr" and a.a[0] is d) if d is not None else None
        if r is None:
            return "early"
        return "%s:%s" % ("defined" if r[1] else "module", self.kindof(t))

    def excused(self, t):
        """counting imports does not overflow; items of the store are in range"""
        w = str(t.why)
        return "assert:" in w or contradictory(t.conds) or self.range_panic(t)

    def range_panic(self, t):
        a, b = t.conds[-1]
        if not (a.k == "op" and a.a[0] == "lt_u" and b is FALSE and a.a[3].k == "len"):
            return False
        s = a.a[3].a[0]
        if s not in [self.F(self.state, "State", n) for n in ("funcs", "tables", "memories", "globals")]:
            return False
        # only what belongs to this store is looked up
        return self.store_ok(t)

    def found(self, t):
        """(kind of the item found, its address, store id of its owner) on this trace"""
        d = self.call(t, "::take_defined$")
        r = self.of(t, lambda a: a.k == "discr" and a.a[0] is d) if d is not None else None
        if r is None:
            return None
        if r[1]:
            e = fld(d, 1, 0)
            k = self.of(t, lambda a: a.k == "discr" and a.a[0] is e)
            if k is None or k[1] is None:
                return None
            for i, v in enumerate(self.enums["Extern"]["v"]):
                if int(v[1]) == k[1]:
                    h = fld(e, i, 0)
                    item = self.F(h, "Function", "item") if v[0] == "Function" else fld(h, None, 0)
                    addr = self.F(h, "Function", "addr") if v[0] == "Function" else self.F(item, "StoreItem", "addr")
                    return v[0], addr, self.F(item, "StoreItem", "store_id"), h
        x = self.call(t, "::export_addr$")
        if x is None:
            return None
        e = fld(x, 1, 0)
        k = self.of(t, lambda a: a.k == "discr" and a.a[0] is e)
        if k is None or k[1] is None:
            return None
        for i, v in enumerate(self.enums["ExternVal"]["v"]):
            if int(v[1]) == k[1]:
                return {"Func": "Function"}.get(v[0], v[0]), fld(e, i, 0), None, None

    def owner_ok(self, t):
        """the instance the item is taken from: of this store, of the imported module name"""
        g = self.call(t, "BTreeMap.*::get$")
        x = self.call(t, "::export_addr$")
        if g is None or x is None:
            return "an item is taken from something other than the module linked under that name"
        if not any(y is g for y in subterms(x.a[1][0])):
            return "the item is an export of another instance"
        inst = None
        for a, b in t.conds:
            y = a
            v = b.a[1] if isc(b) else None
            while y.k == "op" and y.a[0] == "not":
                y, v = y.a[2], 1 - v
            if y.k == "op" and y.a[0] == "eq" and self.sid in (y.a[2], y.a[3]) and v == 1:
                o = y.a[2] if y.a[3] is self.sid else y.a[3]
                if any(z is g for z in subterms(o)):
                    inst = o
        if inst is None:
            return "an item of another store is accepted"
        return ""

    def store_ok(self, t):
        fd = self.found(t)
        if fd is None:
            return self.owner_ok(t) == ""
        if fd[2] is None:
            return self.owner_ok(t) == ""
        return implied(t.conds, eq(fd[2], self.sid), 1)

    def preds(self, t, fd):
        """the conditions under which this import may be bound to the item found: [(name, term)]"""
        I = self.imp(t)
        K = fd[0]
        ty = fld(fld(I, None, self.pos["Import"]["kind"]), self.idx("ImportKind", K), 0)
        arr = KINDS[K][1]
        item = mk("sel", self.F(self.state, "State", arr), zext(64, 32, fd[1]))
        r = []
        D = lambda x, e: discr(x, tuple(int(v[1]) for v in self.enums[e]["v"]))
        if K == "Global":
            g = self.F(item, "GlobalInstance", "ty")
            r.append(("mutability", beq(self.F(g, "GlobalType", "mutable"), self.F(ty, "GlobalType", "mutable"))))
            r.append(("type", eq(D(self.F(g, "GlobalType", "ty"), "WasmType"), D(self.F(ty, "GlobalType", "ty"), "WasmType"))))
        elif K == "Table":
            k = self.F(item, "TableInstance", "kind")
            r.append(("address type", eq(D(self.F(k, "TableType", "arch"), "MemoryArch"), D(self.F(ty, "TableType", "arch"), "MemoryArch"))))
            r.append(("element type", eq(D(self.F(k, "TableType", "element_type"), "WasmType"), D(self.F(ty, "TableType", "element_type"), "WasmType"))))
            r.append(("current size", bnot(ult(mk("len", self.F(item, "TableInstance", "elements")), self.F(ty, "TableType", "size_initial")))))
            r += self.maxi(t, self.F(k, "TableType", "size_max"), self.F(ty, "TableType", "size_max"))
        elif K == "Memory":
            k = self.F(item, "MemoryInstance", "kind")
            r.append(("address type", eq(D(self.F(k, "MemoryType", "arch"), "MemoryArch"), D(self.F(ty, "MemoryType", "arch"), "MemoryArch"))))
            r.append(("current size", bnot(ult(self.F(item, "MemoryInstance", "page_count"), self.F(ty, "MemoryType", "page_count_initial")))))
            r.append(("page size", ("pagesize", self.F(k, "MemoryType", "page_size"), self.F(ty, "MemoryType", "page_size"))))
            r += self.maxi(t, self.F(k, "MemoryType", "page_count_max"), self.F(ty, "MemoryType", "page_count_max"))
        else:
            have = self.F(fd[3], "Function", "ty") if fd[3] is not None else None
            r.append(("type", ("func", item, have, ty)))
        return r

    def maxi(self, t, have, want):
        return [("maximum", ("max", have, want))]

    def holds(self, t, p):
        """1: implied, 0: refuted, None: neither"""
        if isinstance(p, tuple):
            return getattr(self, "h_" + p[0])(t, *p[1:])
        cs = t.conds + self.grown(p)
        return 1 if implied(cs, p, 1) else 0 if implied(cs, p, 0) else None

    def grown(self, p):
        """a memory is never smaller than its type says"""
        pc = self.pos["MemoryInstance"]["page_count"]
        for x in subterms(p):
            if x.k == "fld" and x.a[2] == pc and x.a[0].k == "sel" and x.a[0].a[0] is self.F(self.state, "State", "memories"):
                return [(ult(x, self.F(self.F(x.a[0], "MemoryInstance", "kind"), "MemoryType", "page_count_initial")), FALSE)]
        return []

    def opt(self, t, x):
        r = self.of(t, lambda a: a.k == "discr" and a.a[0] is x)
        return r[1] if r else None

    def h_max(self, t, have, want):
        w, h = self.opt(t, want), self.opt(t, have)
        if w == 0:
            return 1
        if w == 1 and h == 0:
            return 0
        if w == 1 and h == 1:
            p = ult(fld(want, 1, 0), fld(have, 1, 0))
            return 1 if implied(t.conds, p, 0) else 0 if implied(t.conds, p, 1) else None
        return None

    def h_pagesize(self, t, have, want):
        r = []
        for x in (have, want):
            d = self.opt(t, x)
            if d is None:
                return None
            r.append(fld(x, 1, 0) if d else c(64, 65536))
        p = eq(r[0], r[1])
        if isc(p):
            return p.a[1]
        return 1 if implied(t.conds, p, 1) else 0 if implied(t.conds, p, 0) else None

    def h_func(self, t, item, have, ty):
        """the item's function type equals the type of the module's type section the import names"""
        for a, b in t.conds:
            v = b.a[1] if isc(b) else None
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if a.k == "op" and a.a[0] == "deepeq":
                xs = a.a[2:4]
                for x, y in (xs, xs[::-1]):
                    if not (y.k == "sel" and y.a[1] is zext(64, 32, ty) and re.search(r"\.%d\b" % self.pos["ModuleInner"]["func_types"], show(y.a[0]))):
                        continue
                    s = [z for z in subterms(x)]
                    if (have is not None and x is have) or any(z is item for z in s):
                        return v
        # no such type
        for a, b in t.conds:
            if a.k == "op" and a.a[0] == "lt_u" and a.a[2] is zext(64, 32, ty) and b is FALSE:
                return 0
        return None

    def accepted(self, t, errs):
        key = self.src(t)
        if contradictory(t.conds):
            return "", key
        K = self.kindof(t)
        fd = self.found(t)
        ch = {s: v for s, v in t.eff.items() if s in self.outs.values()}
        if fd is None or K is None:
            return "an import is passed over or bound without looking at its kind", key
        self.n += 1
        if fd[0] != K:
            return "an import of a %s is bound to a %s" % (K, fd[0]), key
        s = self.outs[KINDS[K][1]]
        if ch != {s: ch.get(s)} or not (ch[s].k == "push" and ch[s].a[0] is s and ch[s].a[1] is fd[1]):
            return "the import is not bound to the item found (%s)" % [show(x)[:100] for x in ch.values()], key
        if not self.store_ok(t):
            return "an item of another store is accepted", key
        r = self.names(t)
        if r:
            return r, key
        for n, p in self.preds(t, fd):
            if self.holds(t, p) != 1:
                return "an item whose %s does not match is accepted" % n, key
        return "", key

    def names(self, t):
        """looked up under the import's own names"""
        I = self.imp(t)
        d = self.call(t, "::take_defined$")
        if d is None or d.a[1][0] is not mk("v", "p1") or not (d.a[1][1].k == "at" and d.a[1][1].a[0] is I):
            return "the definition of another import is used"
        if self.src(t).startswith("module"):
            x = self.call(t, "::export_addr$")
            if not any(y is self.F(I, "Import", "name") for y in subterms(x.a[1][1])):
                return "the export of another name is used (%s)" % show(x.a[1][1])[:100]
        return ""

    def refused(self, t):
        key = self.src(t)
        if contradictory(t.conds) or key == "early":
            return ("linking fails before looking at an import", key) if key == "early" and not contradictory(t.conds) else None
        fd = self.found(t)
        if fd is None:
            # nothing found for it
            g, x = self.call(t, "BTreeMap.*::get$"), self.call(t, "::export_addr$")
            if x is not None and self.of(t, lambda a: a.k == "discr" and a.a[0] is x and True) and self.of(t, lambda a: a.k == "discr" and a.a[0] is x)[1] == 0:
                return None
            if g is not None and self.of(t, lambda a: a.k == "discr" and a.a[0] is g) and self.of(t, lambda a: a.k == "discr" and a.a[0] is g)[1] == 0:
                return None
            if self.foreign(t):
                return None
            return ("an import is refused without looking for it", key)
        self.n += 1
        if self.foreign(t):
            return None
        K = self.kindof(t)
        if K is None:
            return None if self.wrong_kind(t, fd) else ("an import is refused without looking at its kind", key)
        if K != fd[0]:
            return None
        for n, p in self.preds(t, fd):
            if self.holds(t, p) == 0:
                return None
        return ("a matching import is refused (%s)" % [(show(a)[-90:], show(b)) for a, b in t.conds[-3:]], key)

    def wrong_kind(self, t, fd):
        k = fld(self.imp(t), None, self.pos["Import"]["kind"]) if self.imp(t) is not None else None
        return k is not None and any(a.k == "notin" and a.a[0].k == "discr" and a.a[0].a[0] is k and self.disc("ImportKind", fd[0]) in a.a[1] for a, b in t.conds)

    def foreign(self, t):
        """refused for belonging to another store"""
        for a, b in t.conds:
            v = b.a[1] if isc(b) else None
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if a.k == "op" and a.a[0] == "eq" and self.sid in (a.a[2], a.a[3]) and v == 0:
                return True
        return False


def beq(a, b):
    return op("eq", 1, a, b)


def eq(a, b):
    return op("eq", 64, a, b)


def ult(a, b):
    return op("lt_u", 64, a, b)


def bnot(a):
    return op("not", 1, a)


def add(w, a, b):
    return op("add", w, a, b)


def run(chk):
    chk.rule("match", "an import is bound, to the item defined or exported under its names, exactly if that item belongs to this store and has the kind, value or element type, mutability, address type, page size, "
             "current size and maximum, or function type the import asks for; otherwise linking fails", 8)
    chk.rule("order", "the module's imports are linked in order, each exactly once", 1)
    chk.rule("result", "what is handed on are the addresses collected, by kind", 4)
    db = extract(("-p", "tinywasm"), CRATES)
    l = Link(chk, db)
    chk.attempt("match", l.link)
    chk.extra.update({"traces": l.n})
    chk.assume = ["a store's items are found at the addresses its handles and instances carry", "BTreeMap looks up by the Ord of its keys", "a memory is at least as large as its type's initial size (P08)"]
