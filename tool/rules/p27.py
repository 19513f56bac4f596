"""Values that cross the host boundary have the declared type: globals, tables, calls, typed conversions."""
import re
from terms import *
from lib import extract, Missing
from api import Api, contradictory as contra
from rules.common import STUB

LEVEL = "proof"
NAMES = ("I32", "I64", "F32", "F64", "V128", "RefExtern", "RefFunc")
CLASS = {"I32": "32", "F32": "32", "RefExtern": "32", "RefFunc": "32", "I64": "64", "F64": "64", "V128": "128"}
CALLEES = (r"::InterpreterRuntime::|::extend_from_wasmvalues$|::collect_call_results$|::ValueStack::enter_locals$|::HostFunction::call$"
           r"|Store::(enter|exit)_execution$|::FuncExecution")
RUST = {"i32": "I32", "i64": "I64", "f32": "F32", "f64": "F64", "ExternRef": "RefExtern", "FuncRef": "RefFunc", "[u8; 16]": "V128"}


TRUE = c(1, 1)


def eq(a, b):
    w = b.a[0] if isc(b) else a.a[0] if isc(a) else 64
    return op("eq", w, a, b)


def known(conds):
    """the conditions, with the tags they fix written in"""
    m = {a: c(64, b.a[1]) for a, b in conds if a.k == "discr" and isc(b)}
    r = []
    for a, b in conds:
        if a in m:
            if isc(b) and m[a].a[1] != b.a[1]:
                return None
        else:
            r.append((subst(a, m) if m else a, b))
    return r, m


def contradictory(conds):
    r = known(conds)
    if r is None:
        return True
    r, m = r
    for a, b in r:
        if isc(a) and isc(b) and a.a[1] != b.a[1]:
            return True
        if a.k == "notin" and isc(a.a[0]) and b is TRUE and a.a[0].a[1] in [getattr(x, "a", (0, x))[1] for x in a.a[1]]:
            return True
    return contra(r)


def implied(conds, pred, val=1):
    if isc(pred):
        return pred.a[1] == val
    r = known(conds)
    if r is None:
        return True
    pred = subst(pred, r[1])
    if isc(pred):
        return pred.a[1] == val
    return contradictory(conds + [(pred, c(1, 1 - val))])


def raw(t):
    """the bits a value stands for: single-field wrappers and bit casts stripped"""
    while True:
        if t.k == "agg" and t.a[1] is None and len(t.a[2]) == 1:
            t = t.a[2][0]
        elif t.k == "op" and t.a[0] in ("bits", "frombits"):
            t = t.a[2]
        else:
            return t


def whole(x):
    """a struct rebuilt from all the fields of one is that one"""
    if x.k == "agg" and x.a[1] is None and x.a[2] and all(f.k == "fld" and f.a[1] is None and f.a[2] == i and f.a[0] is x.a[2][0].a[0] for i, f in enumerate(x.a[2])):
        return x.a[2][0].a[0]
    return x


class Typed:
    def __init__(self, chk, db):
        self.chk, self.db = chk, db
        self.A = Api(db, CALLEES, outcomes=20000)
        self.pos, self.enums = self.A.layout()
        for e in ("WasmValue", "WasmType", "TinyWasmValue", "TableElement"):
            if e not in self.enums:
                raise Missing("enum " + e)
        self.wv = {v[0]: i for i, v in enumerate(self.enums["WasmValue"]["v"])}
        self.wt = {v[0]: self.disc("WasmType", i) for i, v in enumerate(self.enums["WasmType"]["v"])}
        self.tv = {v[0]: i for i, v in enumerate(self.enums["TinyWasmValue"]["v"])}
        if set(self.wv) != set(NAMES) or set(self.wt) != set(NAMES):
            raise Missing("the value types %s %s" % (sorted(self.wv), sorted(self.wt)))
        self.kind = {self.wv[n]: n for n in NAMES}
        self.n = 0

    def disc(self, e, i):
        v = self.enums[e]["v"][i]
        return v[1] if isinstance(v[1], int) else i

    def F(self, t, ty, *names):
        for n in names:
            if n not in self.pos.get(ty, {}):
                raise Missing("%s.%s" % (ty, n))
            t = fld(t, None, self.pos[ty][n])
        return t

    def one(self, pat):
        l = self.A.fn(pat)
        if len({f.deff for f in l}) != 1:
            raise Missing("one function " + pat)
        return l[0]

    def value_kind(self, conds, x):
        """which of the seven kinds the value x is on this path"""
        for k, n in self.kind.items():
            if x.k == "agg" and x.a[0].endswith("WasmValue"):
                return self.kind[x.a[1]] if isinstance(x.a[1], int) else None
            if implied(conds, eq(self.D(x, "WasmValue"), c(64, k))):
                return n
        return None

    def is_type(self, conds, x, n):
        return implied(conds, eq(self.dt(x), c(64, self.wt[n])))

    def D(self, x, e):
        return discr(x, tuple(int(v[1]) for v in self.enums[e]["v"]))

    def dt(self, x):
        if x.k == "agg" and x.a[0].endswith("WasmType"):
            return c(64, self.wt[self.enums["WasmType"]["v"][x.a[1]][0]])
        return self.D(x, "WasmType")

    def payload(self, x, n):
        """the bits in the value x of kind n"""
        p = fld(x, self.wv[n], 0)
        if n.startswith("Ref"):
            p = fld(p, None, 0)
            p = fld(p, None, 0) if p.k == "agg" and len(p.a[2]) == 1 else p
        return raw(p)

    def same(self, conds, got, want):
        g, w = raw(got), raw(want)
        if g is w:
            return True
        # references: a one-word newtype read by name or whole
        for a in (w, fld(w, None, 0), fld(fld(w, None, 0), None, 0)):
            for b in (g, fld(g, None, 0), fld(fld(g, None, 0), None, 0)):
                if a is b:
                    return True
        if isc(g) and implied(conds, eq(w, g)):
            return True
        if isc(g) and implied(conds, eq(fld(w, None, 0), g)):
            return True
        return False

    def live(self, ts):
        return [t for t in ts if not contradictory(t.conds)]

    # ------------------------------------------------------------------ globals
    def globals_(self):
        st = lambda p: self.F(mk("deref", mk("v", p)), "Store", "state")
        for name, pat in (("new", r"reference::Global::new$"), ("set", r"reference::Global::set$")):
            f = self.one(pat)
            ts = self.live(self.A.run(f))
            done, bad = set(), ""
            store = mk("deref", mk("v", "p1" if name == "new" else "p2"))
            gl = self.F(self.F(store, "Store", "state"), "State", "globals")
            val = mk("v", "p3")
            for t in ts:
                self.n += 1
                if t.kind == "panic":
                    continue
                acts = bool(t.eff)
                if t.ok is not True:
                    if acts:
                        bad = "a refused value changes %s" % show(next(iter(t.eff)))[:80]
                    else:
                        bad = bad or self.refusal(t, name, val, gl)
                    continue
                k = self.value_kind(t.conds, val)
                if k is None:
                    bad = "a value whose kind was not looked at is accepted"
                    continue
                new = t.eff.get(gl)
                if new is None or len(t.eff) != 1:
                    bad = "an accepted value is not stored in the globals (%s)" % [show(x)[:60] for x in t.eff]
                    continue
                if name == "new":
                    gty = mk("v", "p2")
                    if new.k != "push" or new.a[0] is not gl:
                        bad = "the globals are not extended by one"
                        continue
                    g = new.a[1]
                    if self.F(g, "GlobalInstance", "ty") is not gty:
                        bad = "the global does not get the requested type"
                        continue
                else:
                    H = mk("deref", mk("v", "p1"))
                    if new.k != "store" or new.a[0] is not gl:
                        bad = "not one global is replaced"
                        continue
                    old, g = mk("sel", gl, new.a[1]), new.a[2]
                    gty = self.F(old, "GlobalInstance", "ty")
                    if self.F(g, "GlobalInstance", "ty") is not gty:
                        bad = "the type of the global changes"
                        continue
                    if not implied(t.conds, self.F(gty, "GlobalType", "mutable")):
                        bad = "a value is stored in a global that was not seen to be mutable"
                        continue
                if not self.is_type(t.conds, self.F(gty, "GlobalType", "ty"), k):
                    bad = "a value of type %s is accepted whatever the type of the global" % k
                    continue
                v = self.F(g, "GlobalInstance", "value")
                want = {"I32": "Value32", "F32": "Value32", "I64": "Value64", "F64": "Value64", "V128": "Value128"}.get(k, "ValueRef")
                if v.k != "agg" or v.a[1] != self.tv[want] or not self.same(t.conds, v.a[2][0], self.payload(val, k)):
                    bad = "the stored value is not the %s that was passed: %s" % (k, show(v)[:100])
                    continue
                done.add(k)
            if not bad and done != set(NAMES):
                bad = "values of type %s are never accepted" % sorted(set(NAMES) - done)
            self.chk.ob("globals", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)
        f = self.one(r"reference::Global::get$")
        bad, done = "", set()
        gl = self.F(self.F(mk("deref", mk("v", "p2")), "Store", "state"), "State", "globals")
        for t in self.live(self.A.run(f)):
            self.n += 1
            if t.kind == "panic":
                bad = bad or self.mismatch(t, gl)
                continue
            if t.ok is not True:
                continue
            k = self.value_kind(t.conds, t.value)
            if k is None:
                bad = "the result has no kind"
                continue
            cell = [x for a, b in t.conds for x in subterms(a) if x.k == "sel" and x.a[0] is gl]
            g = cell[0] if cell else None
            if g is None or not self.is_type(t.conds, self.F(self.F(g, "GlobalInstance", "ty"), "GlobalType", "ty"), k):
                bad = "a %s is returned for a global of another type" % k
                continue
            want = {"I32": "Value32", "F32": "Value32", "I64": "Value64", "F64": "Value64", "V128": "Value128"}.get(k, "ValueRef")
            if not self.same(t.conds, self.payload(t.value, k), fld(self.F(g, "GlobalInstance", "value"), self.tv[want], 0)):
                bad = "the %s returned is not the stored value: %s" % (k, show(t.value)[:80])
                continue
            done.add(k)
        if not bad and done != set(NAMES):
            bad = "globals of type %s cannot be read" % sorted(set(NAMES) - done)
        self.chk.ob("globals", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)

    def mismatch(self, t, gl):
        """a panic of Global::get is only for a value of another class than the declared type"""
        cell = [x for a, b in t.conds for x in subterms(a) if x.k == "sel" and x.a[0] is gl]
        if not cell:
            return ""
        g = cell[0]
        ty, v = self.F(self.F(g, "GlobalInstance", "ty"), "GlobalType", "ty"), self.F(g, "GlobalInstance", "value")
        for n in NAMES:
            want = {"I32": "Value32", "F32": "Value32", "I64": "Value64", "F64": "Value64", "V128": "Value128"}.get(n, "ValueRef")
            if not contradictory(t.conds + [(eq(self.dt(ty), c(64, self.wt[n])), TRUE), (eq(self.D(v, "TinyWasmValue"), c(64, self.tv[want])), TRUE)]):
                return "reading a global of type %s panics" % n
        return ""

    def refusal(self, t, name, val, gl):
        """a refused value has another type (or the global is immutable, or the handle is of another store)"""
        conds = list(t.conds)
        k = self.value_kind(conds, val)
        cell = [x for a, b in conds for x in subterms(a) if x.k == "sel" and x.a[0] is gl]
        if name == "new":
            gty = mk("v", "p2")
        elif cell:
            gty = self.F(cell[0], "GlobalInstance", "ty")
            if implied(conds, self.F(gty, "GlobalType", "mutable"), 0):
                return ""
        else:
            return ""       # another store
        if k is None:
            return ""
        if contradictory(conds + [(eq(self.dt(self.F(gty, "GlobalType", "ty")), c(64, self.wt[k])), TRUE)]):
            return ""
        return "a %s is refused by a global of its type" % k

    # ------------------------------------------------------------------ tables
    def elem_ok(self, conds, e, val, k):
        """the table element e stands for the reference in val"""
        if e.k != "agg":
            return False
        name = self.enums["TableElement"]["v"][e.a[1]][0]
        p = self.payload(val, k)
        if name == "Uninitialized":
            return any(implied(conds, eq(x, c(32, -1))) for x in (p, fld(p, None, 0)))
        return name == "Initialized" and self.same(conds, e.a[2][0], p)

    def tables(self):
        refs = ("RefFunc", "RefExtern")
        for name, pat in (("new", r"reference::Table::new$"), ("set", r"reference::Table::set$"), ("grow", r"reference::Table::grow$")):
            f = self.one(pat)
            store = mk("deref", mk("v", "p1" if name == "new" else "p2"))
            tb = self.F(self.F(store, "Store", "state"), "State", "tables")
            val = mk("v", "p3" if name == "new" else "p4")
            bad, done = "", set()
            for t in self.live(self.A.run(f)):
                self.n += 1
                if t.kind == "panic":
                    continue
                if t.ok is not True:
                    if t.eff:
                        bad = "a refused call changes %s" % show(next(iter(t.eff)))[:80]
                    continue
                k = self.value_kind(t.conds, val)
                if k not in refs:
                    bad = "a value that is not seen to be a reference is accepted"
                    continue
                new = t.eff.get(tb)
                if name == "grow" and new is None and not t.eff:
                    new = mk("none")
                if new is None:
                    bad = "the tables do not change"
                    continue
                if name == "new":
                    ety = self.F(mk("v", "p2"), "TableType", "element_type")
                    e = new.a[1] if new.k == "push" and new.a[0] is tb else None
                    ev = self.F(e, "TableInstance", "elements") if e is not None else None
                    if ev is None or self.F(e, "TableInstance", "kind") is not mk("v", "p2"):
                        bad = "no table of the requested type is added"
                        continue
                    vals = [ev.a[2]] if ev.k == "rsz" else list(ev.a[2]) if ev.k == "agg" else None
                else:
                    cell = [x for a, b in t.conds for x in subterms(a) if x.k == "sel" and x.a[0] is tb]
                    if not cell:
                        bad = "a table that was not looked at changes"
                        continue
                    old = cell[0]
                    ety = self.F(self.F(old, "TableInstance", "kind"), "TableType", "element_type")
                    if new.k == "none":
                        vals = []
                    else:
                        if new.k != "store" or new.a[0] is not tb or mk("sel", tb, new.a[1]) is not old:
                            bad = "not one table is replaced"
                            continue
                        ev, od = self.F(new.a[2], "TableInstance", "elements"), self.F(old, "TableInstance", "elements")
                        vals = [ev.a[2]] if ev.k in ("rsz", "store") and ev.a[0] is od else [] if ev is od else None
                if vals is None:
                    bad = "the elements do not come from the value: %s" % show(ev)[:100]
                    continue
                if not self.is_type(t.conds, ety, k):
                    bad = "a %s is accepted whatever the element type" % k
                    continue
                if not all(self.elem_ok(t.conds, e, val, k) for e in vals):
                    bad = "the element is not the reference that was passed: %s" % [show(e)[:60] for e in vals]
                    continue
                done.add(k)
            if not bad and done != set(refs):
                bad = "references of type %s are never accepted" % sorted(set(refs) - done)
            self.chk.ob("tables", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)
        for pat, loop in ((r"reference::Table::get$", False), (r"reference::Table::load$", True)):
            f = self.one(pat)
            tb = self.F(self.F(mk("deref", mk("v", "p2")), "Store", "state"), "State", "tables")
            ts, nx = self.A.loops(f)
            bad, done = "", set()
            made = []
            for t in self.live(ts + nx):
                self.n += 1
                vs = [x for v in list(t.eff.values()) + ([t.value] if t.ok and not loop else []) for x in subterms(v) if x.k == "agg" and x.a[0].endswith("::WasmValue")]
                if t.kind == "return" and t.ok and not loop and not vs:
                    bad = "the result is not a value"
                for x in vs:
                    k = self.kind[x.a[1]]
                    cell = [y for a, b in t.conds for y in subterms(a) if y.k == "sel" and y.a[0] is tb]
                    if k not in refs or not cell or not self.is_type(t.conds, self.F(self.F(cell[0], "TableInstance", "kind"), "TableType", "element_type"), k):
                        bad = "a %s is returned for a table of another element type" % k
                        continue
                    els = self.F(cell[0], "TableInstance", "elements")
                    e = [y for a, b in t.conds for y in subterms(a) if y.k == "sel" and y.a[0] is els]
                    p = self.payload(x, k)
                    init = [v[0] for v in self.enums["TableElement"]["v"]]
                    if not e or len(set(e)) != 1:
                        bad = "the element read is not known"
                    elif implied(t.conds, eq(self.D(e[0], "TableElement"), c(64, init.index("Uninitialized")))):
                        if not (isc(p) and (p.a[1] & 0xffffffff) == 0xffffffff):
                            bad = "an empty element is not returned as a null reference: %s" % show(x)[:80]
                    elif not self.same(t.conds, p, fld(e[0], init.index("Initialized"), 0)):
                        bad = "the reference returned is not the element: %s" % show(x)[:80]
                    if loop and not self.moves(t, e[0], els):
                        bad = bad or "the elements are not read in order from the offset"
                    if not loop and raw(e[0].a[1]) is not op("zext", 64, mk("v", "p3"), 32) and e[0].a[1] is not mk("v", "p3") and show(e[0].a[1]) != "zext64(p3,32)":
                        bad = "not the element at the index is read"
                    done.add(k)
            if not bad and done != set(refs):
                bad = "references of type %s are never returned" % sorted(set(refs) - done)
            self.chk.ob("tables", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)

    def moves(self, t, e, els):
        """the element read in an iteration is at the offset (parameter 3) plus the iteration's number"""
        for s, v in t.eff.items():
            if s.k == "lp" and v is op("add", 64, s, c(64, 1)) and self.A.entry.get(s) == {c(64, 0)} and e.a[1] is op("add", 64, s, mk("v", "p3")):
                return True
        # the last iteration, which leaves the loop
        return any(x.k == "lp" and e.a[1] is op("add", 64, x, mk("v", "p3")) for x in subterms(e.a[1])) if t.kind != "next" else False

    # ------------------------------------------------------------------ lists of values against lists of types
    def listed(self, f, ts, nx, vals, ty, part, acts, every=True):
        """on every path that acts, vals has exactly as many values as ty has params (results), each of its type"""
        data = mk("deref", fld(self.F(ty, "FuncType", "data"), None, 0))
        pc = mk("op", "zext", 64, self.F(ty, "FuncType", "param_count"), 16)
        n = pc if part == "params" else op("sub", 64, mk("len", data), pc)
        off = c(64, 0) if part == "params" else pc
        pre = [(op("lt_u", 64, mk("len", data), pc), c(1, 0))]
        lv = mk("len", vals)
        # the loop that compares
        idx, kinds = None, set()
        for t in self.live(nx):
            for s, v in t.eff.items():
                if s.k != "lp" or v is not op("add", 64, s, c(64, 1)) or self.A.entry.get(s) != {c(64, 0)}:
                    continue
                x, y = mk("sel", vals, s), mk("sel", data, op("add", 64, s, off))
                k = self.value_kind(t.conds, x)
                if k is None or not any(z is x for a, b in t.conds for z in subterms(a)):
                    continue
                idx = s
                if not self.is_type(t.conds, y, k):
                    return "the loop goes on past a %s that is not of the declared type" % k
                kinds.add(k)
        if idx is None:
            return "no loop compares each value with the declared type at its position"
        if kinds != set(NAMES):
            return "values of type %s never match" % sorted(set(NAMES) - kinds)
        for t in self.live(ts):
            if not acts(t):
                continue
            if not implied(t.conds + pre, eq(lv, n)):
                return "a wrong number of values is accepted (%s)" % (t.kind,)
            if not implied(t.conds + pre + [(eq(lv, n), TRUE)], op("lt_u", 64, idx, lv), 0):
                return "values are accepted before all of them are compared"
        return ""

    def calls(self):
        for pat, ctx in ((r"func::Function::call$", False), (r"func::Function::call_resumable$", False), (r"func::FuncContext::<'_>::call_untyped$", True)):
            l = self.A.fn(pat)
            f = l[0]
            H = mk("deref", mk("v", "p2" if ctx else "p1"))
            ty = fld(mk("deref", fld(self.F(H, "Function", "ty"), None, 0)), None, 2)
            vals = mk("deref", mk("v", "p3"))
            ts, nx = self.A.loops(f)
            self.n += len(ts) + len(nx)
            rx = re.compile(CALLEES)
            acts = lambda t: bool(t.eff) or t.kind == "return" and t.ok is True or any(rx.search(n) for n, a, r in t.evs)
            if not any(acts(t) for t in ts):
                raise Missing("a call that does something in " + f.deff)
            bad = self.listed(f, ts, nx, vals, ty, "params", acts)
            # what is passed on is what was given
            for t in self.live(ts):
                for n, a, r in t.evs:
                    if n.endswith("::extend_from_wasmvalues") or n.endswith("::HostFunction::call"):
                        x = a[-1]
                        if x is not mk("v", "p3") and not (x.k == "at" and x.a[0] is vals):
                            bad = bad or "other values than the arguments are passed on: %s" % show(x)[:80]
            self.chk.ob("calls", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)
        f = self.one(r"func::HostFunction::from_untyped::\{closure#0\}$")
        ts, nx = self.A.loops(f)
        self.n += len(ts) + len(nx)
        bad = ""
        oks = [t for t in self.live(ts) if t.kind == "return" and t.ok]
        if not oks:
            raise Missing("an accepted host result")
        tys = {x for t in oks for a, b in t.conds for x in subterms(a) if x.k == "fld" and x.a[0].k == "deref" and x.a[1] is None and x.a[2] == 2}
        res = {t.value for t in oks}
        if len(res) != 1 or len(tys) != 1:
            bad = "the results are not one list compared with one type"
        else:
            v, ty = next(iter(res)), next(iter(tys))
            if v.k != "fld" or v.a[0].k != "call" or not any(x is mk("v", "p1") for x in subterms(ty)):
                bad = "what is returned is not what the host function returned"
            bad = bad or self.listed(f, ts, nx, v, ty, "results", lambda t: t.kind == "return" and t.ok is True)
        self.chk.ob("calls", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)
        # the type it checks against is the type it is registered with
        f = self.one(r"func::HostFunction::from_untyped$")
        bad, seen = "", 0
        for t in self.live(self.A.run(f)):
            if t.kind != "return":
                continue
            seen += 1
            fty = self.F(t.value, "Function", "ty")
            vals = list(t.eff.values()) + [x for x in t.o.st.mem.values() if isinstance(x, T)]
            hf = list({x for v in vals for x in subterms(v) if x.k == "agg" and x.a[0].endswith("func::HostFunction")})
            cl = list({x for v in vals for x in subterms(v) if x.k == "agg" and "closure" in x.a[0]})
            if len(hf) != 1 or self.F(hf[0], "HostFunction", "ty") is not fty:
                bad = "the registered function has another type than the handle"
            elif not cl or not any(fty in x.a[2] for x in cl):
                bad = "the results are compared with another type than the registered one"
            elif not any(whole(x) is mk("deref", mk("v", "p2")) for v in list(t.o.st.mem.values()) + [fty] if isinstance(v, T) for x in subterms(v)
                         if x.k != "agg" or x.a[0].endswith("FuncType")):
                bad = "the type is not the one that was passed"
        if not seen:
            raise Missing("a registered host function")
        self.chk.ob("calls", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)

    # ------------------------------------------------------------------ the operand stacks
    def stack(self, vs, cls):
        return fld(self.F(vs, "ValueStack", "stack_" + cls), None, 0)

    def stacks(self):
        f = self.one(r"ValueStack::extend_from_wasmvalues$")
        ts, nx = self.A.loops(f)
        self.n += len(ts) + len(nx)
        vs, vals = mk("deref", mk("v", "p1")), mk("deref", mk("v", "p2"))
        bad, done = "", set()
        idx = None
        for t in self.live(nx):
            s = [s for s, v in t.eff.items() if s.k == "lp" and v is op("add", 64, s, c(64, 1)) and self.A.entry.get(s) == {c(64, 0)}]
            x = mk("sel", vals, s[0]) if len(s) == 1 else None
            k = self.value_kind(t.conds, x) if x is not None else None
            if k is None:
                bad = "an iteration that does not look at the value at its position"
                continue
            idx = s[0]
            want = self.payload(x, k)
            got = {}
            for root, v in t.eff.items():
                if root is idx:
                    continue
                for cls in ("32", "64", "128"):
                    a, b = self.grown(root, v, vs, cls)
                    if b is not None:
                        got.setdefault(cls, []).append(b)
            if list(got) != [CLASS[k]] or len(got[CLASS[k]]) != 1:
                bad = "a %s is pushed on the stacks %s" % (k, sorted(got))
            elif not self.same(t.conds, got[CLASS[k]][0], want):
                bad = "what is pushed for a %s is %s" % (k, show(got[CLASS[k]][0])[:80])
            done.add(k)
        for t in self.live(ts):
            if t.kind == "return" and t.ok is True and (idx is None or not implied(t.conds, op("lt_u", 64, idx, mk("len", vals)), 0)):
                bad = bad or "it ends before every value is pushed"
        if not bad and done != set(NAMES):
            bad = "values of type %s are never pushed" % sorted(set(NAMES) - done)
        self.chk.ob("stack", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)
        self.results()

    def grown(self, root, v, vs, cls):
        """the value this effect pushes on the stack of the class"""
        for x in subterms(v):
            if x.k == "push" and self.is_stack(x.a[0], vs, cls):
                return x.a[0], x.a[1]
        return None, None

    def is_stack(self, x, vs, cls):
        """the stack of the class, at the start or in a loop that changes it"""
        if x is self.stack(vs, cls) or self.entry_is(x, self.stack(vs, cls)):
            return True
        return any(self.entry_is(y, vs) and x is self.stack(y, cls) for y in subterms(x) if y.k == "lp")

    def entry_is(self, s, old):
        e = self.A.entry.get(s)
        return e == {old}

    def popping(self, A, nx, vs, data, n, off):
        """the loop that takes n values from the stacks, last to first, each from the stack of its declared type data[off + i]"""
        bad, done = "", set()
        down = None
        for t in self.live(nx):
            tys = {x for a, b in t.conds for x in subterms(a) if x.k == "sel" and x.a[0] is data}
            ss = [s for s, v in t.eff.items() if s.k == "lp" and v is op("add", 64, s, c(64, -1)) and A.entry.get(s) == {n}]
            if len(tys) != 1 or len(ss) != 1:
                bad = "an iteration that does not look at one declared type, last to first"
                continue
            y, down = next(iter(tys)), ss[0]
            if op("sub", 64, y.a[1], op("add", 64, op("add", 64, down, off), c(64, -1))) is not c(64, 0):
                bad = "the types are not the declared ones, last to first: %s" % show(y.a[1])[:80]
                continue
            k = [m for m in NAMES if self.is_type(t.conds, y, m)]
            vals = [x for v in t.eff.values() for x in subterms(v) if x.k == "agg" and x.a[0].endswith("::WasmValue")]
            if len(k) != 1 or len(set(vals)) != 1 or self.kind[vals[0].a[1]] != k[0]:
                bad = "a value of type %s is returned as %s" % (k, [show(x)[:60] for x in vals])
                continue
            k, cls = k[0], CLASS[k[0]]
            got = self.payload(vals[0], k)
            pops = {}
            tops = set()
            for root, v in t.eff.items():
                for x in subterms(v):
                    if x.k == "pop":
                        for cl in ("32", "64", "128"):
                            if self.is_stack(x.a[0], vs, cl):
                                pops.setdefault(cl, set()).add(x)
                                tops.add(mk("last", x.a[0]))
            if list(pops) != [cls] or len(pops[cls]) != 1:
                bad = "a %s is popped from the stacks %s" % (k, sorted(pops))
            elif not self.same(t.conds, got, next(iter(tops))):
                bad = "the %s returned is not the popped value: %s" % (k, show(got)[:80])
            done.add(k)
        return bad, done, down

    def host(self):
        """a call of a host function from a running function: the arguments are popped, the results pushed"""
        A = Api(self.db, r"::extend_from_wasmvalues$|slice::<impl \[T\]>::reverse$|::HostFunction::call$", outcomes=20000)
        HC = re.compile(r"::HostFunction::call$")
        l = [f for f in A.callers(r"::HostFunction::call$") if "::interpreter::" in f]
        if not l:
            raise Missing("a call of a host function in the interpreter")
        for f in [self.db.by_def[name][0] for name in sorted(set(l))]:
            ts, nx = A.loops(f)
            self.A.entry = A.entry
            self.n += len(ts) + len(nx)
            ex = mk("deref", mk("v", "p1"))
            store = self.F(ex, "Executor", "store")
            vs = self.F(mk("deref", store), "Store", "value_stack")
            cell = mk("deref", fld(fld(self.F(ex, "Executor", "module"), None, 0), None, 0))
            idx = self.F(fld(cell, None, 2), "ModuleInstanceInner", "idx")
            bad, done, down, oks = "", set(), None, 0
            for t in self.live(ts):
                ev = [(n, a) for n, a, r in t.evs if HC.search(n)]
                if not ev:
                    if t.kind == "return":
                        bad = bad or "the host function is not called"
                    continue
                if len(ev) != 1:
                    bad = bad or "the host function is called %d times" % len(ev)
                    continue
                call = mk("call", ev[0][0], tuple(ev[0][1]))
                h, cx, args = ev[0][1]
                un = lambda x: x.a[0] if x.k == "at" else mk("deref", x)
                ty = fld(mk("deref", fld(self.F(un(h), "HostFunction", "ty"), None, 0)), None, 2)
                data = mk("deref", fld(self.F(ty, "FuncType", "data"), None, 0))
                pc = mk("op", "zext", 64, self.F(ty, "FuncType", "param_count"), 16)
                if down is None:
                    bad, done, down = self.popping(A, nx, vs, data, pc, c(64, 0))
                    if bad:
                        break
                    if done != set(NAMES):
                        bad = "arguments of type %s are never popped" % sorted(set(NAMES) - done)
                        break
                if not implied(t.conds, eq(down, c(64, 0))):
                    bad = "the host function is called before every argument is popped"
                    break
                ls = [x for x in subterms(un(args)) if x.k == "lp"]
                rev = un(args)
                if rev.k != "after" or not rev.a[0].endswith("::reverse") or len(ls) != 1 or un(rev.a[2][0]) is not ls[0] or A.entry.get(ls[0]) != {mk("agg", "vec", None, ())}:
                    bad = "the arguments, popped last to first, are not put in order: %s" % show(args)[:100]
                    break
                if not any(v.k == "push" and v.a[0] is ls[0] for u in self.live(nx) for s, v in u.eff.items() if s is ls[0]):
                    bad = "the popped values are not the arguments"
                    break
                if self.F(cx, "FuncContext", "store") is not store or self.F(cx, "FuncContext", "module_addr") is not idx:
                    bad = "the host function does not get the store and the calling module: %s" % show(cx)[:100]
                    break
                r = discr(call, (0, 1))
                stack = t.eff.get(vs)
                push = [(n, a) for n, a, r_ in t.evs if n.endswith("::extend_from_wasmvalues")]
                if t.kind == "return" and implied(t.conds, eq(r, c(64, 1))):
                    err = fld(call, 1, 0)
                    e = t.value
                    got = [x for x in t.o.st.mem.values() if isinstance(x, T) and any(y is err for y in subterms(x))] + ([e] if any(y is err for y in subterms(e)) else [])
                    if t.ok is not False or push or not got or e.k != "agg" or self.enums["Trap"]["v"][e.a[1]][0] != "HostFunction":
                        bad = bad or "the error of the host function is not the trap: %s" % show(e)[:100]
                    continue
                if not implied(t.conds, eq(r, c(64, 0))):
                    bad = bad or "the outcome of the host function is not looked at"
                    continue
                if len(push) != 1 or un(push[0][1][1]) is not fld(call, 0, 0):
                    bad = bad or "its results are not pushed once"
                    continue
                pushed = mk("call", push[0][0], tuple(push[0][1]))
                base = un(push[0][1][0])
                if not all(self.stack(base, cl).k == "lp" and self.is_stack(self.stack(base, cl), vs, cl) for cl in ("32", "64", "128")) or stack is None or stack.k != "after" or tuple(stack.a[2]) != tuple(push[0][1]):
                    bad = bad or "the results are not pushed on the stacks the arguments were popped from"
                    continue
                if t.kind != "return":
                    continue
                if implied(t.conds, eq(discr(pushed, (0, 1)), c(64, 1))):
                    if t.ok is not False and t.value is not pushed:
                        bad = bad or "results that do not fit are no error"
                    continue
                oks += 1
                for x, v in t.eff.items():
                    if x is not vs and v is not op("add", 64, x, c(64, 1)):
                        bad = bad or "it changes %s" % show(x)[:80]
            if not oks and not bad:
                bad = "it never succeeds"
            self.chk.ob("host", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)

    def results(self):
        A = Api(self.db, CALLEES.replace("|::collect_call_results$", "") + r"|slice::<impl \[T\]>::reverse$", outcomes=20000)
        l = A.fn(r"func::collect_call_results$")
        f = l[0]
        ts, nx = A.loops(f)
        self.A.entry = A.entry
        self.n += len(ts) + len(nx)
        vs = mk("deref", mk("v", "p1"))
        ty = mk("deref", mk("v", "p2"))
        data = mk("deref", fld(self.F(ty, "FuncType", "data"), None, 0))
        pc = mk("op", "zext", 64, self.F(ty, "FuncType", "param_count"), 16)
        n = op("sub", 64, mk("len", data), pc)
        pre = [(op("lt_u", 64, mk("len", data), pc), c(1, 0))]
        bad, done, down = self.popping(A, nx, vs, data, n, pc)
        for t in self.live(ts):
            if t.kind != "return" or t.ok is not True:
                continue
            if down is None or not implied(t.conds + pre, eq(down, c(64, 0))):
                bad = bad or "it ends before every result is popped"
            if t.value.k != "after" or not t.value.a[0].endswith("::reverse"):
                bad = bad or "the results, popped last to first, are not put in order: %s" % show(t.value)[:80]
        if not bad and done != set(NAMES):
            bad = "results of type %s are never popped" % sorted(set(NAMES) - done)
        self.chk.ob("stack", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)

    # ------------------------------------------------------------------ typed functions
    WANT = {"func": ("I32 I64", "F64"), "func_by_index": ("I32 I64", "F64"), "func_tuple": ("I32 F64 RefFunc I64 F32 RefExtern", "I32 F64 I64 F32"),
            "func_chain": ("I32 F64 I64 F32", "I32 F64 RefFunc I64 F32 RefExtern")}

    def typed(self):
        A = Api(self.db, r"::require_export$|::export_addr$|::func_by_index$|::get_func$|::instance::ModuleInstance::\w*export\w*$", 12, outcomes=20000)
        for name, (ps, rs) in self.WANT.items():
            f = A.fn(r"^twstub::%s$" % name)[0]
            ps, rs = ps.split(), rs.split()
            bad, seen = "", 0
            for t in self.live(A.run(f)):
                self.n += 1
                if t.kind != "return" or t.ok is not True:
                    continue
                seen += 1
                fn = self.F(t.value, "FunctionTyped", "func")
                ty = fld(mk("deref", fld(self.F(fn, "Function", "ty"), None, 0)), None, 2)
                data = mk("deref", fld(self.F(ty, "FuncType", "data"), None, 0))
                pc = self.F(ty, "FuncType", "param_count")
                if not implied(t.conds, eq(pc, c(16, len(ps)))):
                    bad = "a function with another number of parameters is returned"
                    continue
                cs = [(subst(a, {pc: c(16, len(ps))}), b) for a, b in t.conds]
                if not implied(cs, eq(mk("len", data), c(64, len(ps) + len(rs)))):
                    bad = "a function with another number of results is returned"
                    continue
                for i, n in enumerate(ps + rs):
                    if not self.is_type(cs, mk("sel", data, c(64, i)), n):
                        bad = "the type of %s %d is not compared" % ("parameter" if i < len(ps) else "result", i if i < len(ps) else i - len(ps))
            if not seen and not bad:
                bad = "no function is ever returned"
            self.chk.ob("typed", "%s as (%s) -> (%s)" % (name, " ".join(ps), " ".join(rs)), not bad, "crates/tinywasm/src/instance.rs", bad)

    # ------------------------------------------------------------------ typed wrappers
    HOST = {"host_typed": ("I32 I64", "F32 F64"), "host_chain": ("I32 F64 I64 F32", "I32 F64 RefFunc I64 F32 RefExtern"), "host_tuple": ("I32 F64 RefFunc I64 F32 RefExtern", "I32 F64 I64 F32")}

    def wrappers(self):
        CALL = r"func::Function::call$|func::Function::call_resumable$|FuncContext::<'_>::call_untyped$|FuncExecution(::<'store>)?::resume_\w+$"
        A = Api(self.db, CALL + r"|::(into|from)_wasm_values$", outcomes=4000)
        call, into, frm = re.compile(CALL), re.compile(r"::into_wasm_values$"), re.compile(r"::from_wasm_values$")
        un = lambda x: x.a[0] if x.k == "at" else x
        named = lambda x, rx: x.k == "call" and rx.search(x.a[0])

        def passed(x):
            """a call with the handle, the store and the converted arguments"""
            a = x.a[1] if isinstance(x.a[1], tuple) else x.a[1:]
            v = un(a[-1])
            inner = [un(z) for z in a[:-1]]
            return (len(a) == 3 and v.k == "call" and into.search(v.a[0]) and tuple(v.a[1]) == (mk("v", "p3"),)
                    and any(z in (mk("v", "p1"), mk("v", "p2"), mk("deref", mk("v", "p1")), mk("deref", mk("v", "p2"))) for z in inner)
                    and any(z.k == "fld" and z.a[0] in (mk("deref", mk("v", "p1")), mk("deref", mk("v", "p2"))) for z in inner))

        def ok_of(x):
            return x.a[0] if x.k == "fld" and x.a[1] == 0 and x.a[2] == 0 else None

        n = 0
        for pat in (r"FunctionTyped::<P, R>::call$", r"FuncContext::<'_>::call$", r"FunctionTyped::<P, R>::call_resumable$"):
            fs = A.fn(pat)
            bad = ""
            for f in fs:
                for t in self.live(A.run(f)):
                    self.n += 1
                    if t.kind != "return":
                        continue
                    ev = [mk("call", nm, tuple(a)) for nm, a, r in t.evs if call.search(nm)]
                    if len(ev) != 1:
                        bad = "the function is not called exactly once"
                        continue
                    if t.ok is False:
                        # the error is the call's, or the conversion of its results failed
                        if not (t.value.a and any(z is ev[0] for z in subterms(t.value))):
                            bad = bad or "an error that the call did not give: %s" % show(t.value)[:100]
                        continue
                    v = t.value
                    if pat.endswith("call_resumable$"):
                        inner = [ok_of(z) for z in v.a[2]] if v.k == "agg" else []
                        r = next((z for z in inner if z is not None), None)
                    else:
                        w = v
                        if ok_of(w) is not None and named(ok_of(w), frm):
                            w = ok_of(w)
                        elif w.k == "agg" and w.a[2] and ok_of(w.a[2][0]) is not None:
                            w = ok_of(w.a[2][0])
                        r = ok_of(un(w.a[1][0])) if named(w, frm) else None
                    if r is None or not named(r, call):
                        bad = bad or "the result is not the one of the call: %s" % show(v)[:120]
                    elif not passed(r):
                        bad = bad or "the call does not get the handle, the store and the converted arguments: %s" % show(r)[:160]
                    n += 1
            self.chk.ob("wrapped", fs[0].deff, not bad, "%s:%d" % (fs[0].file, fs[0].line), bad)
        for pat in (r"FuncExecutionTyped::<'store, R>::resume_with_fuel$", r"FuncExecutionTyped::<'store, R>::resume_with_time_budget$"):
            fs = A.fn(pat)
            bad, done = "", 0
            for f in fs:
                names = [v[0] for v in self.enums["ExecProgress"]["v"]]
                for t in self.live(A.run(f)):
                    self.n += 1
                    if t.kind != "return" or not t.ok:
                        continue
                    ev = [mk("call", nm, tuple(a)) for nm, a, r in t.evs if call.search(nm)]
                    p = fld(ev[0], 0, 0) if len(ev) == 1 else None
                    if p is None or not implied(t.conds, eq(discr(p, tuple(int(v[1]) for v in self.enums["ExecProgress"]["v"])), c(64, t.value.a[1]))):
                        bad = bad or "%s is returned for another outcome" % show(t.value)[:80]
                    elif names[t.value.a[1]] == "Completed":
                        w = ok_of(t.value.a[2][0])
                        if w is None or not named(w, frm) or un(w.a[1][0]) is not fld(p, t.value.a[1], 0):
                            bad = bad or "the results are not those of the call: %s" % show(t.value)[:120]
                        done += 1
                    a = ev[0].a[1] if ev else ()
                    if bad == "" and (len(a) != 2 or a[1] is not mk("v", "p2") or not f.deff.endswith(ev[0].a[0].split("::")[-1])):
                        bad = "the budget is not passed on"
            if not done and not bad:
                bad = "it never completes"
            self.chk.ob("wrapped", fs[0].deff, not bad, "%s:%d" % (fs[0].file, fs[0].line), bad)
        # typed host functions: the closure converts the arguments, calls the function, converts its result
        fs = A.fn(r"func::HostFunction::from::\{closure#0\}$")
        bad, done = "", 0
        for f in fs:
            for t in self.live(A.run(f)):
                self.n += 1
                if t.kind != "return" or not t.ok:
                    continue
                done += 1
                v = t.value
                if v.k == "agg" and len(v.a[2]) == 1:
                    v = v.a[2][0]
                h = ok_of(un(v.a[1][0])) if named(v, into) else None
                a = h.a[1] if h is not None and h.k == "call" else ()
                g = ok_of(a[-1]) if a else None
                if h is None or g is None or not named(g, frm) or tuple(map(un, g.a[1])) not in ((mk("v", "p3"),), (mk("deref", mk("v", "p3")),)) or a[0] is not fld(mk("deref", mk("v", "p1")), None, 0):
                    bad = bad or "what is returned is not the converted result of the function for the converted arguments: %s" % show(t.value)[:160]
        if not done and not bad:
            bad = "it never succeeds"
        self.chk.ob("wrapped", fs[0].deff, not bad, "%s:%d" % (fs[0].file, fs[0].line), bad)
        B = Api(self.db, "", 12, outcomes=4000)
        for name, (ps, rs) in self.HOST.items():
            f = B.fn(r"^twstub::%s$" % name)[0]
            ps, rs = ps.split(), rs.split()
            bad, seen = "", 0
            for t in self.live(B.run(f)):
                self.n += 1
                if t.kind != "return":
                    continue
                seen += 1
                vals = [x for x in list(t.eff.values()) + list(t.o.st.mem.values()) if isinstance(x, T)]
                tys = {x for v in vals for x in subterms(v) if x.k == "agg" and x.a[0].endswith("::FuncType")}
                hf = {self.F(x, "HostFunction", "ty") for v in vals for x in subterms(v) if x.k == "agg" and x.a[0].endswith("func::HostFunction")}
                if len(tys) != 1 or hf != {self.F(t.value, "Function", "ty")}:
                    bad = "the handle and the registered function do not have one type"
                    continue
                ty = next(iter(tys))
                data = next((x for x in subterms(self.F(ty, "FuncType", "data")) if x.k == "agg" and x.a[0] in ("vec", "[]")), None)
                if data is None or self.F(ty, "FuncType", "param_count") is not c(16, len(ps)) or len(data.a[2]) != len(ps) + len(rs):
                    bad = "another number of parameters or results: %s" % show(ty)[:120]
                    continue
                for i, k in enumerate(ps + rs):
                    if self.dt(data.a[2][i]) is not c(64, self.wt[k]):
                        bad = "type %d is %s" % (i, show(data.a[2][i])[:60])
            if not seen and not bad:
                bad = "it never returns"
            self.chk.ob("wrapped", "%s as (%s) -> (%s)" % (name, " ".join(ps), " ".join(rs)), not bad, "crates/tinywasm/src/func.rs", bad)

    def conversions(self):
        A = Api(self.db, "")
        fs = [f for n, l in self.db.by_def.items() if n.endswith("WasmValues>::into_wasm_values") or n.endswith("WasmValues>::from_wasm_values") for f in l]
        seen = set()
        for f in fs:
            into = f.deff.endswith("into_wasm_values")
            ctx = f.ctx
            if into:
                src = ctx.types[f.locals[1]]
            else:
                r = ctx.types[f.locals[0]]
                src = ctx.types[r["a"][0]]
            leaves = []
            if not self.leaves(ctx, src, (), leaves):
                self.chk.ob("convert", f.deff, False, "%s:%d" % (f.file, f.line), "a value of an unknown type is converted: %s" % str(src)[:100])
                continue
            key = "%s of (%s)" % ("values" if into else "arguments", " ".join(n for p, n in leaves))
            if (key, f.deff) in seen:
                continue
            seen.add((key, f.deff))
            ts = self.live(A.loops(f)[0])
            self.n += len(ts)
            bad, oks = "", 0
            for t in ts:
                if t.kind != "return":
                    continue
                if into:
                    oks += 1
                    v = t.value
                    if v.k != "agg" or v.a[0] != "vec" or len(v.a[2]) != len(leaves):
                        bad = "not one value per field: %s" % show(v)[:100]
                        continue
                    for x, (path, n) in zip(v.a[2], leaves):
                        y = mk("v", "p1")
                        for i in path:
                            y = fld(y, None, i)
                        if x.k != "agg" or self.kind.get(x.a[1]) != n or not self.same(t.conds, self.payload(x, n), y):
                            bad = "field %s becomes %s" % (".".join(map(str, path)) or "0", show(x)[:60])
                elif t.ok is True:
                    oks += 1
                    vals = mk("deref", mk("v", "p1"))
                    for j, (path, n) in enumerate(leaves):
                        x = mk("sel", vals, c(64, j))
                        if not self.present(t.conds, vals, j, len(leaves)):
                            bad = "value %d is read though it may be missing" % j
                        elif self.value_kind(t.conds, x) != n:
                            bad = "value %d is not seen to be a %s" % (j, n)
                        else:
                            y = t.value
                            for i in path:
                                y = fld(y, None, i)
                            if not self.same(t.conds, y, self.payload(x, n)):
                                bad = "field %s is %s" % (".".join(map(str, path)) or "0", show(y)[:60])
                elif t.ok is False:
                    # refused only when a value is missing or of another type
                    vals = mk("deref", mk("v", "p1"))
                    fit = [(eq(mk("len", vals), c(64, len(leaves))), TRUE)] + [(eq(self.D(mk("sel", vals, c(64, j)), "WasmValue"), c(64, self.wv[n])), TRUE) for j, (path, n) in enumerate(leaves)]
                    m = {mk("len", vals): c(64, len(leaves))}
                    m.update({self.D(mk("sel", vals, c(64, j)), "WasmValue"): c(64, self.wv[n]) for j, (path, n) in enumerate(leaves)})
                    if not contradictory([(subst(a, m), b) for a, b in t.conds] + fit) and not self.notin(t.conds, m):
                        bad = bad or "a list of values of the right types is refused"
            if not oks and not bad:
                bad = "it never succeeds"
            self.chk.ob("convert", "%s %s" % (f.deff, key), not bad, "%s:%d" % (f.file, f.line), bad)

    def notin(self, conds, m):
        for a, b in conds:
            a = subst(a, m)
            if a.k == "notin" and isc(a.a[0]) and b is TRUE and a.a[0].a[1] in [getattr(x, "a", (0, x))[1] for x in a.a[1]]:
                return True
            if isc(a) and isc(b) and a.a[1] != b.a[1]:
                return True
        return False

    def present(self, conds, vals, j, n):
        """the list is seen to have more than j values"""
        ln = mk("len", vals)
        cs = list(conds)
        if implied(cs, op("lt_u", 64, c(64, j), ln)):
            return True
        # taken element by element: none of the shorter lengths is possible
        return all(contradictory([(subst(a, {ln: c(64, i)}), b) for a, b in cs]) or
                   any(isc(subst(a, {ln: c(64, i)})) and isc(b) and subst(a, {ln: c(64, i)}).a[1] != b.a[1] for a, b in cs) for i in range(j + 1))

    def leaves(self, ctx, t, path, out):
        k = t["k"]
        if k == "tuple":
            return all(self.leaves(ctx, ctx.types[e], path + (i,), out) for i, e in enumerate(t["f"]))
        if k == "struct" and t["def"].endswith("WasmTupleChain"):
            return all(self.leaves(ctx, ctx.types[x[1]], path + (i,), out) for i, x in enumerate(t["v"][0][2]))
        n = RUST.get(t.get("s") or "") or RUST.get(t.get("def", "").split("::")[-1])
        if n is None:
            return False
        out.append((path, n))
        return True


def run(chk):
    db = extract(("stub",), STUB)
    chk.rule("globals", "a global takes exactly the values of its type (set: only when mutable), keeps them bit for bit, and a refused value changes nothing; reading returns the stored bits as the declared type", 3)
    chk.rule("tables", "a table takes exactly references of its element type and keeps them; elements are returned as references of the element type, empty ones as null", 5)
    chk.rule("calls", "a call does nothing until as many arguments as parameters, each of its declared type, were seen; an untyped host function's results likewise", 5)
    chk.rule("stack", "arguments are pushed in order on the stack of their type, bit for bit; results are popped last to first from the stack of their declared type and returned in order", 2)
    chk.rule("host", "a running function's call of a host function takes the arguments from the stacks of their declared types, passes them in order with the calling module, pushes the results, and traps with its error", 1)
    chk.rule("typed", "a typed function is returned only when its parameters and results equal the requested ones", 4)
    chk.rule("convert", "typed arguments and results are converted field by field, in order, bit for bit, and refused when missing or of another type", 12)
    chk.rule("wrapped", "typed calls, resumptions and host functions pass the converted arguments to the untyped ones and give back their converted results; a typed host function is registered with exactly its types", 9)
    X = None
    try:
        X = Typed(chk, db)
    except Missing as e:
        chk.ob("globals", "anchors", False, "", str(e))
        return
    chk.attempt("globals", X.globals_)
    chk.attempt("tables", X.tables)
    chk.attempt("calls", X.calls)
    chk.attempt("stack", X.stacks)
    chk.attempt("host", X.host)
    chk.attempt("typed", X.typed)
    chk.attempt("convert", X.conversions)
    chk.attempt("wrapped", X.wrappers)
    chk.extra["traces"] = X.n
