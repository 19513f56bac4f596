"""The stacks are bounded: no stack grows past its configured maximum, a refusal is a trap, and the host's stack is not used."""
import re
from terms import *
from lib import extract, Missing
from api import Api, implied, contradictory
from engine import ok, err, slen, spush, agg, UNIT
from rules.common import CRATES
from summ import ExecModel, trapname
import models as M

LEVEL = "proof"
V = "alloc::vec::Vec::<T, A>::"
TRUE, FALSE = c(1, 1), c(1, 0)
STACKS = r"^tinywasm::interpreter::stack::\w+::\w+::(<.*>::)?\w+$"
OVER = ("ValueStackOverflow", "CallStackOverflow")


def cap_term(t):
    return t.k == "cap"


def noted(name):
    def m(C):
        x = C.load(C.args[0])
        C.st.n += 1
        cnd = mk("v", "alloc_ok", C.st.n)
        C.event("call", name, None)
        a = C.args[1]
        C.st.ev.args = (x, a, cnd)

        def yes(st):
            return C.setret(st, ok(UNIT))
        return C.fork(cnd, yes, lambda st: C.setret(st, err(mk("v", "TryReserveError", 0))))
    return m


def infallible(C):
    C.event("call", "reserve!", None)
    return C.ret(UNIT)


def with_capacity(C):
    C.event("call", "with_capacity", None)
    C.st.ev.args = (C.args[0],)
    return C.ret(agg("vec", None, ()))


OWN = {V + "try_reserve": noted("try_reserve"), V + "try_reserve_exact": noted("try_reserve_exact"), V + "reserve": infallible, V + "reserve_exact": infallible,
       "alloc::vec::Vec::<T>::with_capacity": with_capacity, V + "with_capacity_in": with_capacity}


def room(C):
    """the buffer of this list is large enough for anything, or nothing fits and it cannot be enlarged"""
    r = C.args[0]
    cap = mk("cap", r if r.k != "ref" else mk("at", show(r)))
    C.e.tyinfo[cap] = 64
    return C.fork(mk("v", "room", show(r)), lambda st: C.setret(st, cap), lambda st: C.setret(st, c(64, 0)))


def no_memory(C):
    return C.ret(err(mk("v", "TryReserveError", 0)))


FULL = {V + "capacity": room, V + "try_reserve": no_memory, V + "try_reserve_exact": no_memory}


class Bounds:
    def __init__(self, chk, db):
        self.chk, self.db = chk, db
        self.A = Api(db, "", outcomes=6000, models=OWN)
        self.A.e.assume_capacity = False
        self.pos, self.enums = self.A.layout()
        for t, fs in (("Stack", ("data", "max_size", "dynamic")), ("CallStack", ("stack", "max_size", "dynamic")), ("StackConfig", ("initial_size", "max_size", "dynamic")),
                      ("ValueStack", ("stack_32", "stack_64", "stack_128")), ("Config", ("value_stack_32", "value_stack_64", "value_stack_128", "call_stack"))):
            for x in fs:
                if x not in self.pos.get(t, {}):
                    raise Missing("%s.%s" % (t, x))
        self.n = 0

    def F(self, t, ty, n):
        return fld(t, None, self.pos[ty][n])

    def trap(self, v):
        if v is None:
            return None
        for t in [v] + list(subterms(v)):
            if t.k == "agg" and t.a[0].endswith("::Trap"):
                return self.enums["Trap"]["v"][t.a[1]][0]
        return None

    # ------------------------------------------------------------------ growth of one stack
    def grow(self):
        n = 0
        for ty, lst in (("Stack", "data"), ("CallStack", "stack")):
            fs = [f for d, l in self.db.by_def.items() if re.search(r"::interpreter::stack::\w+::%s::(<.*>::)?\w+$" % ty, d) for f in l]
            if not fs:
                raise Missing("the methods of " + ty)
            names = {}
            for f in fs:
                names.setdefault(f.deff, []).append(f)
            for d, l in sorted(names.items()):
                if d.endswith("::new"):
                    continue
                bad, grows = "", False
                for f in l:
                    b, g = self.method(f, ty, lst)
                    bad, grows = bad or b, grows or g
                n += grows
                self.chk.ob("grow", d, not bad, "%s:%d" % (l[0].file, l[0].line), bad)
        self.chk.ob("grow", "stacks that can grow", n >= 3, "", "" if n >= 3 else "only %d methods add elements" % n)

    def method(self, f, ty, lst):
        H = mk("deref", mk("v", "p1"))
        old = self.F(H, ty, lst)
        mx, dyn = self.F(H, ty, "max_size"), self.F(H, ty, "dynamic")
        ol = mk("len", old)
        grows = False
        for t in self.A.run(f):
            self.n += 1
            if contradictory(t.conds):
                continue
            caps = {x for a, b in t.conds for x in subterms(a) if cap_term(x)} | {x for e in t.evs for a in e[1] if isinstance(a, T) for x in subterms(a) if cap_term(x)}
            if len(caps) > 1:
                return "more than one capacity is looked at", True
            cap = next(iter(caps), mk("cap", mk("at", "?")))
            # what holds of every stack: it is no longer than its buffer, its buffer no longer than the maximum, no number overflows
            pre = list(t.conds) + [(op("lt_u", 64, cap, ol), FALSE), (op("lt_u", 64, mx, cap), FALSE), (op("lt_u", 64, c(64, 1 << 48), cap), FALSE)]
            if self.impossible(pre, cap, ol, mx):
                continue
            if t.kind != "return":
                continue
            for n, a, r in t.evs:
                if n == "reserve!":
                    return "memory is reserved without a way to refuse", True
            for root, v in t.eff.items():
                if root is not old and not any(x is old for x in subterms(root)) and (root is mx or root is dyn):
                    return "the limit changes", grows
            new = t.eff.get(old)
            res = [(n, a) for n, a, r in t.evs if n in ("try_reserve", "try_reserve_exact")]
            failed = [a for n, a in res if implied(pre, a[2], 0)]
            if failed or self.refuses(t):
                # a refusal: nothing is added, and there is no room
                if new is not None:
                    return "a refused call changes the stack", True
                if not self.refuses(t):
                    if t.ok is None and t.value is not None and t.value is FALSE:
                        continue        # a helper's "no"
                    return "a failed reservation is no error", True
                if not failed and not self.no_room(pre, t, f, ty, cap, mx, dyn, ol):
                    return "it refuses although there is room", True
                if t.ok is False and self.trap(t.value) != ("ValueStackOverflow" if ty == "Stack" else "CallStackOverflow"):
                    return "the refusal is %s" % self.trap(t.value), True
                continue
            # memory taken
            for n, a in res:
                if n != "try_reserve_exact":
                    return "%s may take more than was asked for, so more than the maximum" % n, True
                if a[0] is not old:
                    return "something else is reserved", True
                if not self.le(pre, op("add", 64, ol, a[1]), mx, cap, ol):
                    return "more than the maximum may be reserved: %s" % show(a[1])[:80], True
                if not implied(pre, dyn):
                    return "a stack that is not dynamic takes more memory", True
            if new is None:
                if res:
                    grows = True
                continue
            nl = slen(new)
            if self.le(pre, nl, ol, cap, ol):
                continue
            grows = True
            room = cap if not res else op("add", 64, ol, res[-1][1][1])
            if self.le(pre, nl, room, cap, ol):
                continue
            return "it adds elements with no room seen for them: %s elements" % show(nl)[:80], True
        return "", grows

    def refuses(self, t):
        return t.ok is False

    def impossible(self, pre, cap, ol, mx):
        """the conditions exclude each other, by the order of length, capacity and maximum"""
        return contradictory(pre)

    def no_room(self, pre, t, f, ty, cap, mx, dyn, ol):
        """a refusal needs more than the buffer holds, and more than the maximum or a stack that may not grow"""
        needs = [a.a[3] for a, b in self.flat(t.conds) if a.k == "op" and a.a[0] == "lt_u" and a.a[2] is cap and b is TRUE]
        for n in needs:
            # at least the elements the method would add
            if implied(pre, dyn, 0) or self.lt(pre, mx, n, cap, ol):
                return True
        return False

    def flat(self, conds):
        for a, b in conds:
            while a.k == "op" and a.a[0] == "not":
                a, b = a.a[2], FALSE if b is TRUE else TRUE
            yield a, b

    def lt(self, pre, a, b, cap, ol):
        return implied(pre, op("lt_u", 64, a, b))

    def le(self, pre, a, b, cap, ol):
        """a <= b: directly, or through a term both are compared with"""
        if a is b or implied(pre, op("lt_u", 64, b, a), 0):
            return True
        facts = []
        for x, v in self.flat(pre):
            if x.k == "op" and x.a[0] == "lt_u":
                p, q = x.a[2], x.a[3]
                facts.append((p, q, -1) if v is TRUE else (q, p, 0))
            elif x.k == "op" and x.a[0] == "eq" and v is TRUE:
                facts += [(x.a[2], x.a[3], 0), (x.a[3], x.a[2], 0)]
        return closes(facts, a, b)


    # ------------------------------------------------------------------ construction
    def built(self):
        cfg = {"stack_32": "value_stack_32", "stack_64": "value_stack_64", "stack_128": "value_stack_128"}
        f = self.A.fn(r"store::Store::new$")[0]
        bad, n = "", 0
        for t in self.A.run(f):
            self.n += 1
            if t.kind != "return":
                continue
            n += 1
            vs, cs = self.F(t.value, "Store", "value_stack"), self.F(t.value, "Store", "call_stack")
            for st, ty, lst, field in [(self.F(vs, "ValueStack", a), "Stack", "data", b) for a, b in cfg.items()] + [(cs, "CallStack", "stack", "call_stack")]:
                m = self.F(st, ty, "max_size")
                root = m.a[0].a[0] if m.k == "fld" and m.a[0].k == "fld" else None
                if root is None or not any(x is mk("v", "p1") for x in subterms(root)):
                    bad = bad or "the maximum of the %s is %s" % (field, show(m)[:80])
                    continue
                want = self.F(root, "Config", field)
                if m is not self.F(want, "StackConfig", "max_size") or self.F(st, ty, "dynamic") is not self.F(want, "StackConfig", "dynamic"):
                    bad = bad or "the limits of the %s are not those of the configuration: %s" % (field, show(m)[:80])
                ls = self.F(st, ty, lst)
                if ls.k != "agg" or ls.a[2]:
                    bad = bad or "the %s does not start empty" % field
                if not any(e[0] == "with_capacity" and e[1][0] is self.F(want, "StackConfig", "initial_size") for e in t.evs):
                    bad = bad or "the %s does not start with the configured capacity" % field
            if sum(e[0] == "with_capacity" for e in t.evs) != 4:
                bad = bad or "more than the stacks are given a capacity"
        if not n:
            raise Missing("a new store")
        self.chk.ob("built", f.deff, not bad, "%s:%d" % (f.file, f.line), bad)
        for name, dyn in (("fixed", FALSE), ("dynamic", TRUE)):
            f = self.A.fn(r"engine::StackConfig::%s$" % name)[0]
            bad, n = "", 0
            for t in self.A.run(f):
                self.n += 1
                if t.kind != "return":
                    continue
                n += 1
                i, m, d = (self.F(t.value, "StackConfig", x) for x in ("initial_size", "max_size", "dynamic"))
                w = mk("v", "p1" if f.argc == 1 else "p2")
                if i is not mk("v", "p1") or m is not w or d is not dyn:
                    bad = "it gives %s" % show(t.value)[:80]
                elif not (i is m or implied(t.conds, op("lt_u", 64, m, i), 0)):
                    bad = "the initial size may be more than the maximum"
            self.chk.ob("built", f.deff, n > 0 and not bad, "%s:%d" % (f.file, f.line), bad)
        for name, fields in (("with_value_stack_32", ("value_stack_32",)), ("with_value_stack_64", ("value_stack_64",)), ("with_value_stack_128", ("value_stack_128",)),
                             ("with_value_stack", ("value_stack_32", "value_stack_64", "value_stack_128")), ("with_call_stack", ("call_stack",))):
            f = self.A.fn(r"engine::Config::%s$" % name)[0]
            bad, n = "", 0
            for t in self.A.run(f):
                self.n += 1
                if t.kind != "return":
                    continue
                n += 1
                for x in self.pos["Config"]:
                    want = mk("v", "p2") if x in fields else self.F(mk("v", "p1"), "Config", x)
                    if self.F(t.value, "Config", x) is not want:
                        bad = "%s becomes %s" % (x, show(self.F(t.value, "Config", x))[:80])
            self.chk.ob("built", f.deff, n > 0 and not bad, "%s:%d" % (f.file, f.line), bad)

    # ------------------------------------------------------------------ a refusal is the outcome
    def refused(self):
        X = ExecModel(self.db, False, only=[], models=FULL, outcomes=60000)
        X.eng.max_steps = 4000000
        n, seen = 0, 0
        for name in sorted(X.pend):
            X.summarise(name, X.pend[name])
            if name in X.limits:
                self.chk.ob("refused", name, False, "", "not analysed: " + X.limits[name])
                continue
            bad, hit = "", False
            for o in X.res[name]:
                self.n += 1
                full = [a for a, b, s in o.conds if a.k == "v" and a.a[0] == "room" and b is FALSE]
                if not full or o.kind == "panic" or self.nothing([(a, b) for a, b, s in o.conds]):
                    continue
                hit = True
                tr = trapname(X.ctx, o.trap)
                if o.kind != "err" or tr not in OVER:
                    bad = bad or "it goes on (%s %s) though the stack has no room" % (o.kind, tr or "")
            if name == "_" or not X.res[name]:
                continue
            n += 1
            seen += hit
            where = "%s:%d" % (X.f.file, X.f.line)
            self.chk.ob("refused", name, not bad, where, bad)
        self.chk.ob("refused", "instructions that may need room", seen >= 100, "", "" if seen >= 100 else "only %d" % seen)
        # calls from the host
        P = r"::InterpreterRuntime::|::collect_call_results$|::validate_call_params$|::extend_from_wasmvalues$|::ValueStack::enter_locals$|::HostFunction::call$|::Store::(enter|exit)_execution$"
        A = Api(self.db, P, outcomes=20000)
        rx = re.compile(r"::extend_from_wasmvalues$|::ValueStack::enter_locals$")
        names = [d for d in A.callers(rx.pattern) if "::interpreter::" not in d and d.startswith("tinywasm::")]
        if not names:
            raise Missing("a call from the host")
        for d in sorted(names):
            l = self.db.by_def.get(d) or []
            if not l:
                continue
            bad, hits = "", 0
            for t in A.loops(l[0])[0]:
                self.n += 1
                if contradictory(t.conds) or t.kind != "return":
                    continue
                for nme, a, r in t.evs:
                    if not rx.search(nme):
                        continue
                    hits += 1
                    call = mk("call", nme, tuple(a))
                    dd = discr(call, (0, 1))
                    if t.value is call or any(x is dd and isc(b) and b.a[1] == 0 for x, b in t.conds):
                        continue
                    if t.ok is not False and not (t.value.k == "agg" and any(x is call or self.trap(t.value) in OVER for x in subterms(t.value)) and t.ok is False):
                        bad = "it goes on whether or not %s found room" % nme.split("::")[-1]
            if not hits:
                bad = "what it pushes was not found"
            self.chk.ob("refused", d, not bad, "%s:%d" % (l[0].file, l[0].line), bad)

    def nothing(self, conds):
        """no element is needed: the new length is compared with no room, and is zero"""
        for a, b in self.flat(conds):
            if a.k == "op" and a.a[0] == "eq" and b is TRUE and any(isc(x) for x in a.a[2:]) and any(x.k == "len" or x.k == "op" and x.a[0] in ("add", "zext") for x in a.a[2:]):
                return True
            if a.k == "op" and a.a[0] == "lt_u" and b is FALSE and isc(a.a[2]) and a.a[2].a[1] == 0:
                return True
        return False

    # ------------------------------------------------------------------ the host's stack
    def native(self):
        own = re.compile(r"^<?(&?(mut )?)?tinywasm")
        g, where = {}, {}
        for f in [f for l in self.db.by_def.values() for f in l] + list(self.db.poly_def.values()):
            if not re.match(r"^<?[&' a-z]*tinywasm(_types|_parser)?::", f.deff):
                continue
            e = g.setdefault(f.deff, set())
            where[f.deff] = "%s:%d" % (f.file, f.line)
            for b in f.blocks:
                t = b[1]
                if t[1] == "call" and t[2] is not None:
                    e.add(f.ctx.syms[t[2][1]]["def"] if t[2][1] is not None else t[2][0])
        for n in list(g):
            m = re.match(r"(.*)::\{closure#\d+\}$", n)
            if m and m.group(1) in g:
                g[m.group(1)].add(n)
        g = {n: {w for w in e if w in g} for n, e in g.items()}
        for what, pat in (("running a function", r"^tinywasm::interpreter::executor::Executor(::)?<.*>::run\w*$"), ("reading a module", r"^tinywasm_parser::Parser::parse\w*$")):
            roots = [n for n in g if re.search(pat, n)]
            if not roots:
                raise Missing(what)
            seen, todo = set(roots), list(roots)
            while todo:
                for w in g[todo.pop()]:
                    if w not in seen:
                        seen.add(w)
                        todo.append(w)
            bad = ""
            for n in sorted(seen):
                r, todo = set(), [n]
                while todo:
                    for w in g[todo.pop()]:
                        if w not in r:
                            r.add(w)
                            todo.append(w)
                if n in r:
                    bad = bad or "%s calls itself (%s)" % (n, where[n])
            self.n += len(seen)
            self.chk.ob("native", what, not bad and len(seen) >= 20, where[sorted(roots)[0]], bad or ("" if len(seen) >= 20 else "only %d functions found" % len(seen)))


def lin(t):
    """a sum as {atom: coefficient} and a constant"""
    if isc(t):
        v = t.a[1] & (2**64 - 1)
        return {}, v - 2**64 if v >> 63 else v
    if t.k == "op" and t.a[0] == "add":
        m, k = {}, 0
        for x in t.a[2:]:
            n, j = lin(x)
            k += j
            for a, q in n.items():
                m[a] = m.get(a, 0) + q
        return {a: q for a, q in m.items() if q}, k
    if t.k == "op" and t.a[0] == "neg":
        m, k = lin(t.a[2])
        return {a: -q for a, q in m.items()}, -k
    if t.k == "op" and t.a[0] == "mul" and len(t.a) == 4 and isc(t.a[3]):
        m, k = lin(t.a[2])
        return {a: q * t.a[3].a[1] for a, q in m.items()}, k * t.a[3].a[1]
    return {t: 1}, 0


def closes(facts, a, b, depth=4):
    """a <= b follows by adding up at most depth of the facts (p, q, d): p <= q + d"""
    def key(m, k):
        return (tuple(sorted(((id(x), q) for x, q in m.items()))), k)

    ma, ka = lin(a)
    mb, kb = lin(b)
    goal = {x: mb.get(x, 0) - ma.get(x, 0) for x in set(ma) | set(mb)}
    goal = {x: q for x, q in goal.items() if q}
    gk = kb - ka
    fs = []
    for p, q, d in facts:
        mp, kp = lin(p)
        mq, kq = lin(q)
        m = {x: mq.get(x, 0) - mp.get(x, 0) for x in set(mp) | set(mq)}
        fs.append(({x: v for x, v in m.items() if v}, kq - kp + d))       # m + k >= 0
    # lengths are not negative
    seen = set()

    def go(m, k, left):
        # is m + k >= 0 a sum of facts
        if not m:
            return k >= 0
        if all(q > 0 for q in m.values()) and k >= 0:
            return True
        if left == 0:
            return False
        kk = (key(m, k), left)
        if kk in seen:
            return False
        seen.add(kk)
        for fm, fk in fs:
            if not any((q > 0) == (m.get(x, 0) > 0) and m.get(x, 0) for x, q in fm.items()):
                continue
            n = dict(m)
            for x, q in fm.items():
                n[x] = n.get(x, 0) - q
            n = {x: q for x, q in n.items() if q}
            if len(n) <= len(m) + 1 and go(n, k - fk, left - 1):
                return True
        return False
    return go(goal, gk, depth)


def run(chk):
    db = extract(("-p", "tinywasm", "-p", "tinywasm-cli"), CRATES)
    chk.rule("grow", "every method that adds elements to a stack has room for them in a buffer no larger than the maximum, grows it only when dynamic, and refuses with the overflow trap, changing nothing, only when there is no room", 10)
    X = Bounds(chk, db)
    chk.attempt("grow", X.grow)
    chk.rule("built", "a store's stacks start empty with the capacity, maximum and growth of their own configuration, which is set as given and has an initial size no larger than the maximum", 8)
    chk.rule("refused", "an instruction, or a call from the host, that finds no room ends with the overflow trap", 300)
    chk.rule("native", "no function reached from running or reading a module reaches itself: the depth of the host's stack does not depend on the module", 2)
    chk.attempt("built", X.built)
    chk.attempt("refused", X.refused)
    chk.attempt("native", X.native)
    chk.extra["traces"] = X.n
    chk.trusted = ["Vec::with_capacity and Vec::try_reserve_exact take no more than what is asked for", "the engine's models of Vec, slice and Option methods"]
    chk.assume = ["a StackConfig written out field by field has an initial size no larger than its maximum, as its constructors ensure"]
