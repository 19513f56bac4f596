"""Calls: which function a call operator calls, with whose code, module instance and frame, and how it returns."""
import engine as E
from terms import *
from lin import facts
from seqval import SeqVal, Unsettled, lsum
from compose import S32, S64, S128, IP
from rules.bulk import Bulk, last, STACKS

LEVEL = "proof"
OVER = ("ValueStackOverflow", "StackOverflow", "CallStackOverflow")
NAMES = ["call", "call_indirect", "return_call", "return_call_indirect"]
CL = ((S32, "32", 0), (S64, "64", 1), (S128, "128", 2))
ZERO = {S32: c(32, 0), S64: c(64, 0)}
FIRST = {"call_indirect": "a1", "return_call_indirect": "a1"}


class Calls(Bulk):
    def __init__(self, chk, names, budgeted=False, extra=(), aspect="callee", **kw):
        self.aspect = aspect
        super().__init__(chk, names, budgeted, extra=extra, **kw)
        from summ import find_path
        ctx = self.M.ctx
        self.VF = self.O.vecs.get("FunctionInstance")
        p = self.pos
        ex = p["Executor"]
        sv = mk("deref", self.M.self_)
        self.CF, self.FN, self.MI = fld(sv, None, ex["cf"]), fld(sv, None, ex["func"]), fld(sv, None, ex["module"])
        self.sto = mk("deref", fld(sv, None, ex["store"]))
        self.CS = fld(fld(self.sto, None, p["Store"]["call_stack"]), None, p["CallStack"]["stack"])
        self.cfp = p["CallFrame"]
        self.memo, self.lins, self.abt = {}, {}, {}

    # ---- pieces of a function
    def body(self, arc):
        return fld(mk("deref", fld(arc, None, 0)), None, 2)

    def count(self, arc, what, i):
        b = self.body(arc)
        return zext(64, 16, fld(fld(b, None, self.pos["WasmFunction"][what]), None, i))

    def fentry(self, A):
        return mk("sel", self.VF, zext(64, 32, A))

    def kind(self, o, fi):
        d = self.discr(o, fi)
        if d is None:
            return None
        for v in self.enums["FunctionInstance"]["v"]:
            if int(v[1]) == d:
                return v[0]
        return None

    def wasm(self, fi):
        w = fld(fi, self.variant("FunctionInstance", "Wasm")[0], 0)
        p = self.pos["WasmFunctionInstance"]
        return fld(w, None, p["func"]), fld(w, None, p["owner"])

    def host(self, fi):
        return fld(fi, self.variant("FunctionInstance", "Host")[0], 0)

    def base(self, i):
        return self.M.norm(fld(fld(self.CF, None, self.cfp["locals_base"]), None, i))

    # ---- facts validation gives about the operand stacks
    def flin(self, o, i, S, S0, arc):
        """facts about one class of operands: at least the parameters are on the stack, and parameters are locals"""
        key = tuple((a, b) for a, b in o.conds if a.k == "op" and self.about(a, S, i))
        k = (key, S0, arc)
        if k not in self.lins:
            l = facts(key, None)
            L, _ = l.lin(mk("len", S))
            l.cons.append((dict(L), -(1 << 32) + 1))
            p, lc, b, n = self.forms(i, S0, arc)
            if arc is not None:
                l.cons.append(lsum(p(l), lc(l), -1))
                l.cons.append(lsum(lsum(b(l), p(l)), n(l), -1))
            self.lins[k] = l, l.infeasible()
        return self.lins[k] + (k,)

    def about(self, a, S, i):
        k = (a, S)
        r = self.abt.get(k)
        if r is None:
            r = self.abt[k] = any(x is S or x is self.base(i) for x in subterms(a))
        return r

    def forms(self, i, S0, arc):
        """parameters, locals, start of the current locals, operands: linear forms"""
        p, lc = (self.lf(self.count(arc, "params", i)), self.lf(self.count(arc, "locals", i))) if arc is not None else (None, None)
        b = self.lf(zext(64, 32, self.base(i)))
        n = self.lf(mk("len", S0)) if S0.k != "pop" else self.sub(self.lf(mk("len", S0.a[0])), lambda l: ({}, 1))
        return p, lc, b, n

    def seq_is(self, l, key, S, new, want_len, pieces, tag):
        """the final stack has the given length and is made of pieces [(length, ("src", start) | "zero")]; forms are functions of the domain"""
        k = (new, key, tag)
        if k not in self.memo:
            self.memo[k] = self._seq_is(l, S, new, want_len, pieces)
        return self.memo[k]

    def _seq_is(self, l, S, new, want_len, pieces):
        sv = SeqVal(l)
        try:
            d = lsum(sv.length(new), want_len(l), -1)
            if not sv.zero(d):
                return "%s ends up with the wrong number of slots" % show(S)
            at = ({}, 0)
            for n, what in pieces:
                n = n(l)
                x = mk("v", "slot")
                p, _ = l.lin(x)
                pos = lsum((dict(p), 0), at)
                f = sv.fork(lsum((dict(p), 1), n, -1), ({y: -v for y, v in p.items()}, 0))
                if f is not None:
                    for g, got in f.cases(new, pos):
                        if what == "zero":
                            ok = got is not None and got[0] == "val" and self.iszero(S, got[1])
                        else:
                            src = lsum((dict(p), 0), what[1](l))
                            ok = g.same(got, ("el", S, src))
                        if not ok:
                            return "a slot of %s holds the wrong value (%s)" % (show(S), "not zero" if what == "zero" else "not the operand that belongs there")
                at = lsum(at, n)
        except Unsettled as ex:
            return "%s: %s not settled" % (show(S), ex)
        return ""

    def iszero(self, S, v):
        if S in ZERO:
            return v is ZERO[S]
        return all(x.a[1] == 0 for x in subterms(v) if isc(x)) and any(isc(x) for x in subterms(v)) and not any(x.k in ("v", "sel", "fld", "last") for x in subterms(v))

    def lf(self, t):
        return lambda l: l.lin(t)

    def sub(self, a, b):
        return lambda l: lsum(a(l), b(l), -1)

    def add(self, a, b):
        return lambda l: lsum(a(l), b(l))

    # ---- entering a wasm function
    def enter(self, o, start, arc, owner, A, tail, same_owner=False):
        """the state after entering the function; start: operand stacks at that point"""
        L, CF = o.loc, self.CF
        if self.aspect == "callee":
            new = L.get(CF)
            if new is None:
                return "no new frame"
            if fld(new, None, self.cfp["func_addr"]) is not A:
                return "the frame names function %s" % show(fld(new, None, self.cfp["func_addr"]))
            return self.func_is(o, arc) or self.module_is(o, owner)
        for S, nm, i in CL:
            S0 = start[S]
            B = S0.a[0] if S0.k == "pop" else S
            l, no, key = self.flin(o, i, B, S0, arc)
            if no:
                continue
            p, lc, b, n = self.forms(i, S0, arc)
            src0 = self.sub(n, p)
            lo = b if tail else src0
            r = self.seq_is(l, key, B, self.unpop(L.get(S, S), S0), self.add(lo, lc),
                            [(lo, ("src", lambda l: ({}, 0))), (p, ("src", src0)), (self.sub(lc, p), "zero")], tail)
            if r:
                return r
        new = L.get(CF)
        if new is None:
            return "no new frame"
        g = lambda t, f: fld(t, None, self.cfp[f])
        if g(new, "instr_ptr") is not c(64, 0):
            return "the callee starts at instruction %s" % show(g(new, "instr_ptr"))
        if g(new, "stack_offset") is not fld(self.body(arc), None, self.pos["WasmFunction"]["locals"]):
            return "the frame's locals are counted as %s" % show(g(new, "stack_offset"))
        for S, nm, i in CL:
            S0 = start[S]
            l, no, key = self.flin(o, i, S0.a[0] if S0.k == "pop" else S, S0, arc)
            got = fld(g(new, "locals_base"), None, i)
            if no:
                continue
            k = (key, got, tail, "base")
            if k not in self.memo:
                p, lc, b, n = self.forms(i, S0, arc)
                self.memo[k] = SeqVal(l).zero(lsum(l.lin(self.widen(got)), (b if tail else self.sub(n, p))(l), -1))
            if not self.memo[k]:
                return "the locals of class %s start at %s" % (nm, show(got))
        cs = L.get(self.CS, self.CS)
        if tail:
            if cs is not self.CS:
                return "a tail call changes the call stack"
        else:
            if cs.k != "push" or cs.a[0] is not self.CS:
                return "the caller's frame is not pushed once"
            if not self.frame_eq(cs.a[1], upd_ip(CF, self.cfp["instr_ptr"])):
                return "the caller resumes in the frame %s" % show(cs.a[1])[:200]
        return ""

    def frame_eq(self, a, b):
        if a is b:
            return True
        a, b = self.M.norm(a), self.M.norm(b)
        return all(self.M.norm(fld(a, None, i)) is self.M.norm(fld(b, None, i)) or fld(a, None, i) is fld(b, None, i) or (i == self.cfp["locals_base"] and all(fld(fld(a, None, i), None, j) is fld(fld(b, None, i), None, j) for j in range(3)))
                   or (i == self.cfp["stack_offset"] and all(fld(fld(a, None, i), None, j) is fld(fld(b, None, i), None, j) for j in range(3)))
                   for i in self.cfp.values())

    def unpop(self, t, S0):
        """the stack in terms of the one the operand was popped from"""
        if S0.k != "pop":
            return t
        return subst_(t, S0, mk("trc", S0.a[0], op("add", 64, mk("len", S0.a[0]), c(64, -1 & (1 << 64) - 1))))

    def widen(self, t):
        """the 64-bit value of a truncated 32-bit sum (stacks have fewer than 2^32 slots)"""
        if t.k == "op" and t.a[0] == "add":
            return op("add", 64, *[self.widen(x) for x in t.a[2:]])
        if t.k == "op" and t.a[0] == "neg":
            return op("neg", 64, self.widen(t.a[2]))
        if t.k == "op" and t.a[0] == "zext":
            return zext(64, t.a[3], t.a[2])
        if t.k == "op" and t.a[0] == "trunc":
            return t.a[2]
        if isc(t):
            v = t.a[1]
            return c(64, (v - (1 << 32) if v >> 31 else v) & (1 << 64) - 1)
        return zext(64, 32, t)

    def known(self, o, pred):
        """the value of a comparison among the conditions"""
        for a, b in o.conds:
            v = b.a[1] if isc(b) else None
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if pred(a):
                return bool(v)
        return None

    def func_is(self, o, arc):
        got = o.loc.get(self.FN, self.FN)
        if got is arc:
            return ""
        if got is self.FN and self.known(o, lambda a: a.k == "op" and a.a[0] == "ptreq" and set(a.a[2:]) == {self.FN, arc}):
            return ""
        return "the callee runs the code %s" % show(got)[:160]

    def modules(self, o):
        return [a for a, b in o.conds]

    def module_is(self, o, owner):
        got = o.loc.get(self.MI, self.MI)
        cur = self.idx(self.MI)
        if got is self.MI:
            if self.known(o, lambda a: a.k == "op" and a.a[0] == "eq" and set(a.a[2:]) == {cur, owner}):
                return ""
            return "the callee runs in the caller's module instance without it being its own"
        ok = [x for x in subterms(got) if x.k == "sel" and x.a[0] is self.VM_]
        if len(ok) == 1 and ok[0].a[1] is zext(64, 32, owner) and self.wraps(got, ok[0]):
            return ""
        return "the callee runs in the module instance %s" % show(got)[:160]

    def wraps(self, got, x):
        """got is (a clone of) element x: aggregates and projections only"""
        while got is not x:
            if got.k == "agg" and len(got.a[2]) == 1:
                got = got.a[2][0]
            elif got.k == "fld":
                got = got.a[0]
                if got is not x and got.k != "fld":
                    return False
            elif x.k == "sel" and got.k == "deref":
                return False
            else:
                return False
        return True

    @property
    def VM_(self):
        return fld(self.sto, None, self.pos["Store"]["module_instances"])

    def idx(self, mi):
        b = fld(mk("deref", fld(fld(mi, None, 0), None, 0)), None, 2)
        return fld(b, None, self.pos["ModuleInstanceInner"]["idx"])

    def types(self, mi):
        b = fld(mk("deref", fld(fld(mi, None, 0), None, 0)), None, 2)
        return b

    # ---- one operator
    def run(self, names, rule="call"):
        for n in names:
            self.chk.attempt(rule, self.one, n, rule)
        self.chk.extra.update({"operators": len(names), "traces": self.traces})

    def one(self, n, rule):
        O = self.O
        seqs, why = O.seqs(n)
        where = O.where(n)
        if seqs is None:
            return self.chk.ob(rule, n, False, where, why)
        for seq in seqs:
            self.decide(rule, n, seq, where)

    def decide(self, rule, n, seq, where):
        bad, seen = "", set()
        for o in self.C.run(seq):
            if o.kind == "cut" or (o.kind in ("panic", "err") and self.skip(o)):
                continue
            self.traces += 1
            try:
                r = self.trace(n, o)
            except E.Unsupported as ex:
                r = "not analysable: %s" % ex
            if r and r[0] != "+":
                bad = r + ": " + self.O.desc(o)
                break
            seen.add(r)
        if not bad:
            miss = self.wanted(n) - seen
            if miss:
                bad = "no trace for: %s" % ", ".join(sorted(miss))
        self.chk.ob(rule, n, not bad, where, bad)

    def wanted(self, n):
        w = {"+wasm", "+host"}
        if n in FIRST:
            w |= {"+undef", "+null", "+mismatch"}
        return w

    def skip(self, o):
        if o.kind == "err" and o.trap is not None and self.C.trap(o) in OVER:
            return True
        return self.excluded(o)

    def callee(self, n, o):
        """(callee address, operand stacks after the operands) or a report"""
        mi = self.types(self.MI)
        if n not in FIRST:
            tab = [x for t in self.terms(o) for x in subterms(t) if x.k == "sel" and x.a[0] is self.VF]
            A = None
            for y in tab:
                i = y.a[1]
                if i.k == "op" and i.a[0] == "zext" and i.a[2].k == "sel" and i.a[2].a[1] is zext(64, 32, mk("v", "a1")):
                    A = i.a[2]
            if A is None:
                return "does not call the function its index names"
            if not self.is_field(A.a[0], "func_addrs"):
                return "the callee's address comes from %s" % show(A.a[0])
            return A, {S: S for S in STACKS}
        e = self.entity(o, self.VT, mk("v", "a2"))
        if e is None:
            return "does not use the table it names"
        tab = e[0]
        if not self.is_field(e[1], "table_addrs"):
            return "the table's address comes from %s" % show(e[1])
        a64 = self.is64(o, tab, "table")
        if a64 is None:
            return "does not depend on the table's address type"
        (i,), st = self.operands([64 if a64 else 32])
        i = self.wide(i, a64)
        T = fld(tab, None, self.pos["TableInstance"]["elements"])
        el = mk("sel", T, i)
        inb = self.known(o, lambda a: a.k == "op" and a.a[0] == "lt_u" and a.a[2] is i and a.a[3] is mk("len", T))
        if inb is None:
            l = self.lin(o)
            d = l.diff(i, mk("len", T))
            inb = True if l.lt(i, mk("len", T)) else (False if l.le(mk("len", T), i) else None)
        return tab, i, T, el, inb, st

    def is_field(self, t, name):
        """t is the running module's array of that name"""
        want = fld(self.types(self.MI), None, self.pos["ModuleInstanceInner"][name])
        while t is not want:
            if t.k in ("deref", "fld"):
                t = t.a[0]
            else:
                return False
        return True

    def trace(self, n, o):
        tail = n.startswith("return")
        r = self.callee(n, o)
        if isinstance(r, str):
            return r
        if n in FIRST:
            tab, i, T, el, inb, st = r
            trap = self.C.trap(o) if o.kind == "err" and o.trap is not None else None
            if inb is None:
                return "the table index is not checked"
            calls = self.calls(o)
            if not inb:
                return "+undef" if trap == "UndefinedElement" and not calls and self.still(o, st) else "an index outside the table must trap as undefined element"
            d = self.discr(o, el)
            iu = self.variant("TableElement", "Uninitialized")[1]
            if d is None:
                return "the element is not tested for null"
            if d == iu:
                return "+null" if trap == "UninitializedElement" and not calls and self.still(o, st) else "a null element must trap as uninitialized element"
            A = fld(el, self.variant("TableElement", "Initialized")[0], 0)
            fi = self.fentry(A)
            k = self.kind(o, fi)
            if k is None:
                return "calls something other than the function the element refers to"
            ok = self.type_ok(o, fi, k)
            if ok is None:
                return "the callee's type is not compared with the type the operator names"
            if not ok:
                return "+mismatch" if trap == "IndirectCallTypeMismatch" and not calls and self.still(o, st) else "a type mismatch must trap"
            if trap in ("UndefinedElement", "UninitializedElement", "IndirectCallTypeMismatch"):
                return "traps although element and type are fine"
        else:
            A, st = r
            fi = self.fentry(A)
            k = self.kind(o, fi)
            if k is None:
                return "calls something other than the function its index names"
        if k == "Wasm":
            if o.kind == "panic":
                return self.dead(o, fi, st, tail)
            if o.kind != "ok":
                return "calling a function of the module must enter it"
            arc, owner = self.wasm(fi)
            if self.calls(o):
                return "a host function is called"
            extra = [k for k in o.loc if k not in STACKS and k not in (IP, self.CF, self.FN, self.MI, self.CS) and o.loc[k] is not k and not self.fuelish(k)]
            if extra:
                return "changes %s" % [show(x)[:80] for x in extra]
            return self.enter(o, st, arc, owner, A, tail) or "+wasm"
        return self.hostcall(n, o, fi, st, tail)

    def fuelish(self, k):
        p = self.pos["Store"]
        return k is fld(self.sto, None, p["execution_fuel"])

    def dead(self, o, fi, st, tail):
        """a panic while entering: impossible for validated code"""
        arc, owner = self.wasm(fi)
        for S, nm, i in CL:
            S0 = st[S]
            if self.flin(o, i, S0.a[0] if S0.k == "pop" else S, S0, arc)[1]:
                return "+dead"
        return "the host panics"

    def still(self, o, st):
        return not self.stacks(o, st) and not [k for k, v in o.loc.items() if k not in STACKS and k is not IP and v is not k and not self.fuelish(k)]

    def calls(self, o):
        """host calls: (host function, event)"""
        r = []
        for n, a in o.evs:
            if n.startswith("dyn ") and "Fn" in n.split("::")[-2] and n.endswith("::call"):
                r.append((n, a))
            elif n.startswith("tinywasm::") and any(isinstance(x, T) and x.k == "fld" and x.a[0].k == "sel" and x.a[0].a[0] is self.VF for x in a):
                r.append((n, a))
        return r

    def type_ok(self, o, fi, k):
        """whole-type equality of the callee's type and the type the operator names in the running module"""
        if k == "Wasm":
            have = fld(self.body(self.wasm(fi)[0]), None, self.pos["WasmFunction"]["ty"])
        else:
            have = fld(self.body(self.host(fi)), None, self.pos["HostFunction"]["ty"])

        def isty(t):
            return t.k == "sel" and t.a[1] is zext(64, 32, mk("v", "a1")) and self.is_field(t.a[0], "types")

        def eq(a):
            x = a.a[2:] if a.k == "op" and a.a[0] == "deepeq" else a.a if a.k == "deepeq" else ()
            return len(x) == 2 and have in x and any(isty(y) for y in x if isinstance(y, T))
        return self.known(o, eq)

    def hostcall(self, n, o, fi, st, tail):
        ev = self.calls(o)
        h = self.host(fi)
        if len(ev) > 1:
            return "a host function is called more than once"
        if not ev:
            return "+unwound" if o.kind in ("panic",) else "the host function is not called"
        nm, a = ev[0]
        if not any(h is x or h in set(subterms(x)) for x in a if isinstance(x, T)):
            return "another host function is called"
        if o.kind == "ok" and not tail:
            for k in (self.CF, self.FN, self.MI, self.CS):
                if o.loc.get(k, k) is not k and k in o.loc and not self.after(o.loc[k]):
                    return "a host call changes %s" % show(k)
        if tail and o.kind == "ok" and not self.returned(o):
            return "a tail call of a host function goes on in the caller's frame"
        return "+host"

    def after(self, t):
        return False

    def returned(self, o):
        """the frame was popped after the call"""
        return self.CF in o.loc or any(k.k == "deref" for k in o.loc if k is mk("deref", self.M.self_)) or any(x.k == "pop" for x in [o.loc.get(self.CS, self.CS)])


def upd_ip(cf, i):
    return mk("upd", cf, (((None, i), op("add", 64, IP, c(64, 1))),))


def subst_(t, a, b):
    return subst(t, {a: b}, {})


def run(chk):
    chk.rule("call", "every trace of a call operator calls exactly the function it names (or traps as the element or type demands), in a fresh frame with that function's code and module instance", 4)
    for b in (False, True):
        Calls(chk, NAMES, b, outcomes=30000).run(NAMES, "call")
