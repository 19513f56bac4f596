"""Handles: bound to the store that made them and to the item they were made for."""
import re
from terms import *
from lib import extract, Missing
from api import Api, implied, contradictory
from rules.common import STUB

LEVEL = "proof"
OPAQUE = (r"::InterpreterRuntime::|::collect_call_results$|::extend_from_wasmvalues$|::validate_call_params$|::ValueStack::enter_locals$|::LinearMemory(>)?::"
          r"|MemoryInstance::(grow|new\w*|copy\w*|fill|read\w*|write\w*|load\w*|store\w*)$|TableInstance::(grow\w*|new\w*|copy\w*|fill|load\w*|set|get\w*|init\w*)$"
          r"|::String::|::CString::|::FuncType::new$|wasm_types$|::export_addr$|::HostFunction::call$|::Imports::link$|::Store::init_\w+$|::core::str::|^alloc::str|^core::str|from_utf|::FuncExecution")
KINDS = {"Function": "funcs", "Table": "tables", "Memory": "memories", "Global": "globals"}
ADDRS = {"funcs": "func_addrs", "tables": "table_addrs", "memories": "mem_addrs", "globals": "global_addrs"}
EXT = {"funcs": "Func", "tables": "Table", "memories": "Memory", "globals": "Global"}
HANDLES = ("Function", "FunctionTyped", "Memory", "Table", "Global", "ModuleInstance")


class Handles:
    def __init__(self, chk, db):
        self.chk, self.db = chk, db
        self.A = Api(db, OPAQUE, outcomes=6000)
        self.pos, self.enums = self.A.layout()
        self.vis = db.ctxs["tinywasm"].vis
        self.cache = {}
        fs = {}
        for l in db.by_def.values():
            for f in l:
                fs[f.deff] = f
        for d, f in db.poly_def.items():
            fs.setdefault(d, f)
        self.fs = {d: f for d, f in fs.items() if f.crate == "tinywasm"}
        self.n = 0
        # the functions that store the id of a store as their own
        self.anchors()

    def anchors(self):
        for t, fields in (("StoreItem", ("store_id", "addr")), ("Function", ("item", "addr", "ty")), ("Store", ("id", "state")),
                          ("State", tuple(ADDRS)), ("ModuleInstanceInner", ("store_id",) + tuple(ADDRS.values()) + ("exports",))):
            for x in fields:
                if x not in self.pos.get(t, {}):
                    raise Missing("%s.%s" % (t, x))

    def F(self, t, ty, *names):
        for n in names:
            t = fld(t, None, self.pos[ty][n])
        return t

    def argtypes(self, f):
        r = []
        for i in range(1, f.argc + 1):
            t = f.ctx.types[f.locals[i]]
            byref = False
            while t["k"] == "ref":
                byref = True
                t = f.ctx.types[t["e"]]
            r.append((t.get("def", "").split("::")[-1] if t.get("def", "").startswith("tinywasm") else "", byref))
        return r

    def public(self, d):
        return bool(self.vis.get(d, [0])[0])

    def runs(self, f):
        if f.deff not in self.cache:
            try:
                self.cache[f.deff] = self.A.loops(f)
            except Missing as e:
                self.cache[f.deff] = e
        r = self.cache[f.deff]
        if isinstance(r, Missing):
            raise r
        return r[0], r[1]

    # ---- guard
    def arg(self, f, kinds):
        for i, (n, byref) in enumerate(self.argtypes(f)):
            if n in kinds:
                v = mk("v", "p%d" % (i + 1))
                return n, (mk("deref", v) if byref else v), v
        return None

    def store_of(self, f):
        a = self.arg(f, ("Store",))
        if a:
            return a[1]
        a = self.arg(f, ("FuncContext",))
        if a:
            return mk("deref", self.F(a[1], "FuncContext", "store"))
        return None

    def guard(self):
        for d in sorted(self.fs):
            f = self.fs[d]
            if not self.public(d) or f.argc < 1 or "{closure" in d:
                continue
            h, store = self.arg(f, HANDLES), self.store_of(f)
            if not h or store is None:
                continue
            self.chk.attempt("guard", self.guard1, f, h, store)
        if not self.n:
            raise Missing("public functions that take a handle and a store")

    def inner(self, H):
        """ModuleInstanceInner of a ModuleInstance"""
        return fld(mk("deref", fld(fld(H, None, 0), None, 0)), None, 2)

    def ids(self, kind, H):
        if kind == "FunctionTyped":
            H = self.F(H, "FunctionTyped", "func")
            kind = "Function"
        if kind == "Function":
            i = self.F(H, "Function", "item")
            return self.F(i, "StoreItem", "store_id"), [self.F(i, "StoreItem", "addr"), self.F(H, "Function", "addr")]
        if kind == "ModuleInstance":
            return None, None
        i = fld(H, None, 0)
        return self.F(i, "StoreItem", "store_id"), [self.F(i, "StoreItem", "addr")]

    def guard1(self, f, h, store):
        kind, H, hv = h
        state, sid = self.F(store, "Store", "state"), self.F(store, "Store", "id")
        hid, addrs = self.ids(kind, H)
        ts, nx = self.runs(f)
        bad, passed, refused = "", 0, 0
        for t in list(ts) + list(nx):
            self.n += 1
            own = self.hid_of(t, H) if hid is None else hid
            bound = own is not None and implied(t.conds, eq(own, sid), 1)
            if not bound:
                if t.kind == "return" and t.ok is False and not t.eff and not self.touches(t, state):
                    refused += 1
                    continue
                if t.kind == "return" and not t.eff and not self.touches(t, state) and self.delegates(t, f, H, hv):
                    refused += 1
                    passed += 1
                    continue
                if contradictory(t.conds) or self.toolong(t):
                    continue
                bad = "with a handle of another store this %s" % ("changes something" if t.eff else "panics" if t.kind == "panic" else "reads the store" if self.touches(t, state) else "succeeds")
                break
            passed += t.kind == "return"
            r = self.items(t, kind, H, hv, addrs, state)
            if r:
                bad = r
                break
        if not bad and not passed:
            bad = "no way to use a handle of the store itself"
        if not bad and not refused:
            bad = "no trace refuses a handle of another store"
        self.chk.ob("guard", f.deff.split("::", 1)[1], not bad, "%s:%s" % (f.file, f.line), bad)

    def toolong(self, t):
        """sizes of data in memory do not overflow"""
        return t.kind == "panic" and "assert:ovf" in str(t.why) and "::len" in str(t.why) + "".join(n for n, a, r in t.evs)

    def hid_of(self, t, H):
        """the store id field of the instance a ModuleInstance handle points to"""
        s = self.pos["ModuleInstanceInner"]["store_id"]
        for a, b in t.conds:
            for x in subterms(a):
                if x.k == "fld" and x.a[-1] == s and self.is_inner(x.a[0], H):
                    return x
        return None

    def is_inner(self, x, H):
        return x is self.inner(H)

    def touches(self, t, state):
        for a, b in t.conds:
            for x in subterms(a):
                if x is state:
                    return True
        for n, a, r in t.evs:
            if not re.match(r"core::fmt|alloc::fmt", n):
                for y in a:
                    if isinstance(y, T) and any(x is state for x in subterms(y)):
                        return True
        return False

    def delegates(self, t, f, H, hv):
        """everything is left to a checked function of the handle inside"""
        for n, a, r in t.evs:
            g = self.fs.get(n)
            if g is not None and self.public(n) and self.arg(g, HANDLES) and a and isinstance(a[0], T) and any(x is H or x is hv for x in subterms(a[0])):
                return True
        return False

    def items(self, t, kind, H, hv, addrs, state):
        """every item of the store looked up is the handle's"""
        want = {"FunctionTyped": "funcs", "Function": "funcs", "Memory": "memories", "Table": "tables", "Global": "globals"}.get(kind)
        arrs = {self.F(state, "State", n): n for n in ADDRS}
        seen = set()
        for v in [x for a, b in t.conds for x in (a,)] + [y for n, a, r in t.evs for y in a if isinstance(y, T)] + list(t.eff) + list(t.eff.values()) + ([t.value] if isinstance(t.value, T) else []):
            for x in subterms(v):
                if x.k == "sel" and x.a[0] in arrs and x not in seen:
                    seen.add(x)
                    n = arrs[x.a[0]]
                    i = x.a[1]
                    if want is not None:
                        # what the item itself refers to (the functions in a table) is not the handle's business
                        if any(y.k == "sel" and y.a[0] in arrs for y in subterms(i)):
                            continue
                        if n != want or i not in [zext(64, 32, a) for a in addrs]:
                            return "a handle of a %s looks up %s[%s]" % (kind, n, show(i)[:120])
                    elif not self.prov(i, n, H, hv):
                        return "an item that is not the instance's is looked up: %s[%s]" % (n, show(i)[:160])
        return ""

    def prov(self, i, n, H, hv):
        """index i into the store's array n is an address of the instance H"""
        for z in subterms(i):
            if z is i and z.k == "op" and z.a[0] == "zext":
                continue
            if self.addr_prov(z, n) is not None:
                return any(y is H or y is hv for y in subterms(z))
        return False

    def addr_prov(self, a, n):
        """the instance term an address of the array n was taken from"""
        v = self.enums["ExternVal"]["v"]
        if a.k == "fld" and a.a[0].k == "fld" and a.a[0].a[0].k == "call" and re.search(r"::export_addr$", a.a[0].a[0].a[0]):
            i = [k for k, x in enumerate(v) if x[0] == EXT[n]][0]
            if a is fld(fld(a.a[0].a[0], 1, 0), i, 0):
                x = a.a[0].a[0].a[1][0]
                return ("export", x)
            return None
        if a.k == "sel":
            b = a.a[0]
            for y in subterms(b):
                if y.k == "fld" and y.a[-1] == self.pos["ModuleInstanceInner"][ADDRS[n]] and shared(y.a[0]):
                    if b in (y, fld(y, None, 0), mk("deref", y), mk("deref", fld(y, None, 0))):
                        return ("index", y.a[0])
        return None

    # ---- made
    def builders(self):
        ctx = self.db.ctxs["tinywasm"]
        r = {}
        for d, f in self.fs.items():
            for b in f.blocks:
                for s in b[0]:
                    if len(s) > 3 and s[1] == "=" and isinstance(s[3], list) and s[3] and s[3][0] == "agg" and s[3][1] == "adt":
                        k = s[3][2]
                        nm = self.aggname(f, k)
                        if nm == "tinywasm::reference::StoreItem":
                            r[d] = f
        return r

    def aggname(self, f, k):
        for y in (k if isinstance(k, list) else [k]):
            if isinstance(y, str) and "::" in y:
                return y
            if isinstance(y, int) and not isinstance(y, bool) and 0 <= y < len(f.ctx.types) and f.ctx.types[y].get("def"):
                return f.ctx.types[y]["def"]
        return ""

    def reach(self, roots):
        """the functions from which one of roots is reached by calls"""
        rev = {}
        for d, f in self.fs.items():
            for b in f.blocks:
                t = b[1]
                if t[1] != "call" or t[2] is None:
                    continue
                names = [t[2][0]] + ([f.ctx.syms[t[2][1]]["def"]] if t[2][1] is not None else [])
                for n in names:
                    rev.setdefault(n, set()).add(d)
        seen, todo = set(roots), list(roots)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def made(self):
        b = self.builders()
        if not b:
            raise Missing("functions that make handles")
        derived = {d for d in b if " as core::" in d}
        R = self.reach([d for d in b if d not in derived])
        m = 0
        for d in sorted(R):
            f = self.fs[d]
            top = re.sub(r"(::\{closure#\d+\})+$", "", d)
            if d in b and not self.public(d) and "{closure" not in d:
                continue                    # seen inside its callers
            if not (self.public(top) or "{closure" in d):
                continue
            self.chk.attempt("made", self.made1, f)
            m += 1
        used = set(self.A.e.inlined) | set(self.cache)
        for d in sorted(b):
            if d not in derived:
                ok = d in used
                self.chk.ob("census", d.split("::", 1)[-1], ok, "%s:%s" % (b[d].file, b[d].line), "" if ok else "makes handles outside the functions checked")
        if not m:
            raise Missing("public functions that make handles")

    def made1(self, f):
        ts, nx = self.runs(f)
        store = self.store_of(f)
        bad, k = "", 0
        for t in list(ts) + list(nx):
            for v in ([t.value] if isinstance(t.value, T) else []) + list(t.eff.values()):
                for x in subterms(v):
                    if x.k == "agg" and x.a[0].startswith("tinywasm") and x.a[0].split("::")[-1] in KINDS and x.a[2]:
                        k += 1
                        bad = bad or self.handle(t, x, store)
                    elif x.k == "agg" and x.a[0].endswith("::StoreItem"):
                        k += 1
        if k:
            self.chk.ob("made", f.deff.split("::", 1)[1], not bad, "%s:%s" % (f.file, f.line), bad)

    def handle(self, t, x, store):
        kind = x.a[0].split("::")[-1]
        n = KINDS[kind]
        if kind == "Function":
            item, addr = self.F(x, "Function", "item"), self.F(x, "Function", "addr")
        else:
            item, addr = fld(x, None, 0), None
        sid, a = self.F(item, "StoreItem", "store_id"), self.F(item, "StoreItem", "addr")
        if addr is not None and addr is not a:
            return "a function handle with two addresses (%s, %s)" % (show(a)[:80], show(addr)[:80])
        p = self.addr_prov(a, n)
        if p is not None:
            if not (sid.k == "fld" and sid.a[-1] == self.pos["ModuleInstanceInner"]["store_id"] and shared(sid.a[0])):
                return "a handle made for the store %s" % show(sid)[:100]
            if p[0] == "index" and p[1] is not sid.a[0]:
                return "a handle with an address of one instance and the store of another"
            if p[0] == "export" and not self.same_instance(p[1], sid.a[0]):
                return "a handle with an address of one instance and the store of another"
            return self.functype(t, x, a, sid.a[0], store) if kind == "Function" else ""
        if store is None:
            return "a handle of a %s with the address %s" % (kind, show(a)[:120])
        if sid is not self.F(store, "Store", "id"):
            return "a handle made for the store %s" % show(sid)[:100]
        arr = self.F(self.F(store, "Store", "state"), "State", n)
        if a not in (trunc(32, mk("len", arr), 64),):
            return "a new %s gets the address %s" % (kind, show(a)[:120])
        new = t.eff.get(arr)
        if new is None or new.k != "push" or new.a[0] is not arr:
            return "a new %s is not added to the store" % kind
        if kind == "Function":
            ty = self.F(x, "Function", "ty")
            if not any(y is ty for y in self.inside(t, new.a[1])):
                return "a new host function has another type than its handle"
        return ""

    def inside(self, t, x, depth=0):
        """the parts of a value, also behind the allocations it owns"""
        for y in subterms(x):
            yield y
            if y.k == "ref" and y.a[0].k == "H" and y.a[0] in t.o.st.mem and depth < 6:
                yield from self.inside(t, t.o.st.mem[y.a[0]], depth + 1)

    def same_instance(self, ref, inner):
        """ref: the receiver of export_addr; inner: deref of the shared instance"""
        rs = {ref} | {y for y in subterms(ref)}
        return any(y in rs for y in subterms(inner))

    def functype(self, t, x, a, inner, store):
        ty = self.F(x, "Function", "ty")
        if store is not None:
            st = self.F(self.F(store, "Store", "state"), "State", "funcs")
            if any(y is mk("sel", st, zext(64, 32, a)) for y in subterms(ty)):
                return ""
        ti, tt = self.pos["ModuleInstanceInner"]["func_type_idxs"], self.pos["ModuleInstanceInner"]["types"]
        f1 = [y for y in subterms(ty) if y.k == "fld" and y.a[-1] == ti and y.a[0] is inner]
        f2 = [y for y in subterms(ty) if y.k == "fld" and y.a[-1] == tt and y.a[0] is inner]
        if not (f1 and f2):
            return "a function handle with the type %s" % show(ty)[:120]
        return ""

    # ---- export lookup
    def lookup(self):
        f = self.A.fn(r"::ModuleInstance::export_addr$")[0]
        A = Api(self.db, "", outcomes=3000)
        ts, nx = A.loops(f)
        ev = self.enums["ExternVal"]["v"]
        kd = self.enums["ExternalKind"]
        bad, found, none = "", set(), 0
        seq = None
        pos = [(k, v) for t in nx for k, v in t.eff.items() if v is add(64, k, c(64, 1)) or v is op("add", 64, k, c(64, 1))]
        if not pos or len({k for k, v in pos}) != 1:
            raise Missing("the search for an export")
        i = pos[0][0]
        if A.entry.get(i) != {c(64, 0)}:
            bad = "the first export is not looked at first"
        E = self.pos["Export"]
        for t in list(nx) + list(ts):
            m = self.name_eq(t, i)
            seq = seq or (m[1].a[0] if m else None)
        for t in nx:
            if contradictory(t.conds):
                continue
            m = self.name_eq(t, i)
            if m is None or m[0] != 0:
                bad = bad or "an export of the name asked for is passed over"
            if set(t.eff) - {i}:
                bad = bad or "the search changes something else"
        for t in ts:
            if contradictory(t.conds):
                continue
            if t.kind != "return":
                bad = bad or "can panic"
                continue
            m = self.name_eq(t, i)
            v = t.value if t.value is not None else t.o.value
            if v.k != "agg":
                bad = bad or "result %s" % show(v)[:80]
                continue
            if v.a[1] == 0:
                none += 1
                # nothing of that name, or an index without an address (never after validation)
                if m is None or m[0] == 0:
                    if seq is None or not implied(t.conds, op("lt_u", 64, i, mk("len", seq)), 0):
                        bad = bad or "the search ends before the last export"
                elif not any(a.k == "op" and implied([(a, b)], op("lt_u", 64, zext(64, 32, fld(m[1], None, E["index"])), y), 0)
                             for a, b in t.conds for y in subterms(a) if y.k == "len" and y.a[0] is not seq):
                    bad = bad or "an export of the name asked for is not returned"
                continue
            if m is None or m[0] != 1:
                bad = bad or "an export of another name is returned"
                continue
            e = m[1]
            w = v.a[2][0]
            if w.k != "agg":
                bad = bad or "result %s" % show(w)[:80]
                continue
            nm = ev[w.a[1]][0]
            arr = [n for n in EXT if EXT[n] == nm][0]
            kk = [int(x[1]) for x in kd["v"] if x[0] == nm]
            kt = fld(e, None, E["kind"])
            if not kk or not any(a.k == "discr" and a.a[0] is kt and isc(b) and b.a[1] == kk[0] for a, b in t.conds):
                bad = bad or "an export of another kind is returned as a %s" % nm
            p = self.addr_prov(w.a[2][0], arr)
            ix = zext(64, 32, fld(e, None, E["index"]))
            if p is None or w.a[2][0].a[1] is not ix:
                bad = bad or "the address of an exported %s is %s" % (nm, show(w.a[2][0])[:120])
            found.add(nm)
        for n in EXT.values():
            self.chk.ob("lookup", n, not bad and n in found, "%s:%s" % (f.file, f.line), bad or ("" if n in found else "no exported %s is ever found" % n))
        if not none:
            raise Missing("a search without result")

    def name_eq(self, t, i):
        """(truth, the export) of the comparison of the export's name with the name asked for"""
        nm = self.pos["Export"]["name"]
        p2 = mk("v", "p2")
        for a, b in t.conds:
            v = b.a[1] if isc(b) else None
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if a.k == "call" and re.search(r"PartialEq.*::(eq|ne)$", a.a[0]) and len(a.a[1]) == 2:
                l, r = a.a[1]
                if a.a[0].endswith("ne"):
                    v = None if v is None else 1 - v
            elif a.k == "deepeq":
                l, r = a.a[0], a.a[1]
            elif a.k == "op" and a.a[0] in ("eq", "peq", "deepeq"):
                l, r = a.a[2], a.a[3]
            else:
                continue
            for x, y in ((l, r), (r, l)):
                if strip(y) is p2:
                    x = strip(x)
                    while x.k == "fld" and not (x.a[-1] == nm and x.a[0].k == "sel" and x.a[0].a[1] is i):
                        x = strip(x.a[0])
                    if x.k == "fld":
                        return v, x.a[0]
        return None

    # ---- identities
    def ident(self):
        """every store gets its own id, and keeps it"""
        ty = "tinywasm::store::Store"
        made = wrote = 0
        sid = self.pos["Store"]["id"]
        for d, f in sorted(self.fs.items()):
            for b in f.blocks:
                for s in b[0]:
                    if len(s) > 3 and s[1] == "=":
                        if isinstance(s[3], list) and s[3] and s[3][0] == "agg" and s[3][1] == "adt" and self.aggname(f, s[3][2]) == ty:
                            made += 1
                            self.chk.attempt("ident", self.fresh, f)
                        if self.writes(f, s[2], ty, sid):
                            self.chk.ob("ident", d.split("::", 1)[1], False, "%s:%s" % (f.file, s[0]), "changes the id of a store")
        if not made:
            raise Missing("functions that make a store")

    def writes(self, f, place, ty, field):
        if not isinstance(place, list) or len(place) < 2:
            return False
        t = f.ctx.types[f.locals[place[0]]]
        for p in place[1:]:
            if p == "*":
                if t["k"] in ("ref", "ptr"):
                    t = f.ctx.types[t["e"]]
                    continue
                return False
            if isinstance(p, list) and p and p[0] == "f":
                if t.get("def") == ty and p[2] == field:
                    return True
                return False
            return False
        return False

    def fresh(self, f):
        ts = self.A.run(f)
        bad = ""
        k = 0
        for t in ts:
            if t.kind != "return" or t.o.value is None:
                continue
            for x in subterms(t.o.value):
                if x.k == "agg" and x.a[0] == "tinywasm::store::Store":
                    k += 1
                    v = self.F(x, "Store", "id")
                    if not (v.k == "call" and re.search(r"Atomic\w*(::<\w+>)?::fetch_add$", v.a[0]) and v.a[1][1] is c(64, 1)):
                        bad = "the id of a new store is %s" % show(v)[:120]
        self.chk.ob("ident", f.deff.split("::", 1)[1], k > 0 and not bad, "%s:%s" % (f.file, f.line), bad or "" if k else "a store is not seen being made")


def shared(x):
    """what a reference-counted pointer points to"""
    return x.k == "fld" and x.a[-1] == 2 and x.a[0].k == "deref"


def strip(x):
    while x.k in ("at", "deref"):
        x = x.a[0]
    return x


def eq(a, b):
    return op("eq", 64, a, b)


def add(w, a, b):
    return op("add", w, a, b)


def run(chk):
    chk.rule("guard", "every public function that takes a handle and a store: on every path that does not imply that the handle's store id is the store's, an error is returned and nothing of the store is read or changed; on the others every item looked up is the handle's", 30)
    chk.rule("made", "every handle a public function makes carries the id of the store, or of the instance's store, and an address of the right kind that this instance, or this addition to the store, has", 10)
    chk.rule("census", "every function that makes handles is covered by the rule above", 1)
    chk.rule("lookup", "an export is found under its own name as the first of that name, with its own kind and the address at its index", 4)
    chk.rule("ident", "a store's id is drawn from one counter when it is made and never changes", 1)
    db = extract(("stub",), STUB)
    H = Handles(chk, db)
    chk.attempt("guard", H.guard)
    chk.attempt("made", H.made)
    chk.attempt("lookup", H.lookup)
    chk.attempt("ident", H.ident)
    chk.extra["paths"] = H.n
    chk.extra["functions analysed"] = sorted(H.cache)
    chk.trusted.append("Vec, slices, Rc, atomics and string comparison of the standard library do what they document; a store makes fewer than 2^64 ids and 2^32 items")
