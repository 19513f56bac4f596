"""Invocations: begin clean, run only while marked active, and leave the store usable whatever happens."""
import re
from terms import *
from lib import extract, Missing
from api import Api
from rules.common import CRATES

LEVEL = "proof"
RUN = "::InterpreterRuntime::"
OPAQUE = r"::InterpreterRuntime::|::collect_call_results$|::validate_call_params$|::extend_from_wasmvalues$|::ValueStack::enter_locals$"
EMPTY = "vec"


class Session:
    def __init__(self, chk, db):
        self.chk = chk
        self.A = Api(db, OPAQUE)
        self.pos, self.enums = self.A.layout()
        self.n = 0
        self.roots = set()

    def one(self, path, store, kind):
        fs = self.A.fn(path)
        if len(fs) != 1:
            raise Missing("%s: %d functions" % (path, len(fs)))
        f = fs[0]
        self.roots.add(f.deff)
        bad, seen = "", set()
        for t in self.A.run(f):
            if t.kind == "panic":
                if not self.impossible(t):
                    bad = "can panic: %s" % str(t.why)[:150]
                    break
                continue
            if t.kind != "return":
                bad = "a loop that is not understood"
                break
            self.n += 1
            r = kind(f, t, store)
            if r and r[0] == "+":
                seen.add(r)
            elif r:
                bad = r + " (where %s)" % [(show(a)[:90], show(b)) for a, b in t.conds][-4:]
                break
        if not bad:
            miss = self.want[kind.__name__] - seen
            if miss:
                bad = "no trace for: %s" % ", ".join(sorted(miss))
        self.chk.ob("session", f.deff.split("::")[-1], not bad, "%s:%s" % (f.file, f.line), bad)

    def census(self):
        known = self.roots | set(self.A.e.inlined)
        n = 0
        for g, (file, line) in sorted(self.A.callers(r"::InterpreterRuntime::").items()):
            if "InterpreterRuntime::" in g:
                continue
            n += 1
            ok = re.sub(r"(::\{closure#\d+\})+$", "", g) in known
            self.chk.ob("census", g.split("::", 1)[-1], ok, "%s:%s" % (file, line), "" if ok else "starts or continues execution outside the entry points checked")
        if not n:
            raise Missing("callers of the interpreter")

    want = {"call": {"+active", "+ran", "+failed", "+host"}, "start": {"+active", "+ready", "+host"},
            "resume": {"+active", "+trap", "+suspended", "+completed", "+taken", "+over"}, "nested": {"+inactive", "+ran", "+failed", "+host"}}

    def impossible(self, t):
        """handles of this store are in range, and stay what they were; a running execution stays one"""
        for a, b in t.conds[-2:]:
            if a.k == "op" and a.a[0] == "lt_u" and b is FALSE and a.a[3].k == "len":
                return True
        return self.contradiction(t)

    def contradiction(self, t):
        from lin import facts
        return facts(t.conds).infeasible()

    # ---- the state of the store
    def get(self, t, store, *names):
        """final value of a field of the store"""
        term = store
        val = t.eff.get(store, store)
        for n, i in names:
            term = fld(term, None, i)
            val = fld(val, None, i)
            if term in t.eff:
                val = t.eff[term]
        for k, v in t.eff.items():
            # deeper updates
            path, x = [], k
            while x.k == "fld" and x is not term:
                path.append((x.a[1], x.a[2]))
                x = x.a[0]
            if x is term and path:
                val = self.put(val, list(reversed(path)), v)
        return val

    def put(self, val, path, v):
        if not path:
            return v
        (var, i), rest = path[0], path[1:]
        return setfld(val, var, i, self.put(fld(val, var, i), rest, v))

    def F(self, n):
        return ("Store", self.pos["Store"][n])

    def stacks(self, vs):
        """the three operand stacks of a value stack"""
        p = self.pos["ValueStack"]
        return [fld(fld(vs, None, p[n]), None, self.pos["Stack"]["data"]) for n in sorted(p)]

    def cond(self, t, pred):
        for a, b in t.conds:
            v = b.a[1] if isc(b) else None
            while a.k == "op" and a.a[0] == "not":
                a, v = a.a[2], 1 - v
            if pred(a):
                return v
        return None

    def was_active(self, t, store):
        a = fld(store, None, self.pos["Store"]["execution_active"])
        return self.cond(t, lambda x: x is a)

    def active(self, t, store):
        return self.get(t, store, self.F("execution_active"))

    def evs(self, t, pat):
        return [(n, a, r) for n, a, r in t.evs if re.search(pat, n)]

    def hostcalls(self, t):
        return [e for e in t.evs if e[0].startswith("dyn ") and e[0].endswith("::call")]

    def result_of(self, t, call):
        """0: the call returned Ok, 1: Err"""
        for a, b in t.conds:
            if a.k == "discr" and a.a[0].k == "call" and a.a[0].a[0] == call[0]:
                return b.a[1]
        return None

    def snapshot(self, x):
        """the value behind a reference argument"""
        return x.a[0] if x.k == "at" else mk("deref", x)

    # ---- handles
    def nothing(self, t, but=()):
        return not [k for k, v in t.eff.items() if v is not k and k not in but]

    def begun(self, t, store, f):
        """rules common to everything that starts or continues an invocation; a report, or None"""
        was = self.was_active(t, store)
        runs = self.evs(t, RUN) + self.hostcalls(t)
        if runs and was is None:
            return "code runs without testing for another active invocation"
        if was and (runs or t.ok is not False or not self.nothing(t)):
            return "an invocation goes ahead while another one is active"
        if was is not None and not was:
            if self.active(t, store) is not FALSE and not isz(self.active(t, store)):
                return "the store stays marked as executing (%s)" % show(self.active(t, store))[:80]
        for n, a, r in self.evs(t, RUN):
            s = self.snapshot(a[0])
            if not ist(fld(s, None, self.pos["Store"]["execution_active"])):
                return "code runs while the store is not marked as executing"
        return None

    def clean(self, t, store, what):
        """arguments are pushed onto empty stacks"""
        e = self.evs(t, "::extend_from_wasmvalues$")
        if len(e) != 1:
            return "the arguments are not pushed exactly once"
        vs = self.snapshot(e[0][1][0])
        for s in self.stacks(vs):
            if not empty(s):
                return "the arguments are pushed onto what an earlier invocation left (%s)" % show(s)[:80]
        if e[0][1][1] is not mk("v", "p3"):
            return "pushes other values than the arguments"
        return None

    def frame(self, t, frame, addr, fi, vs):
        """the first frame: the function named, from its first instruction, over the arguments"""
        p = self.pos["CallFrame"]
        e = self.evs(t, "::enter_locals$")
        x = self.evs(t, "::extend_from_wasmvalues$")
        if len(e) != 1 or len(x) != 1:
            return "the locals are not set up exactly once"
        inp = self.snapshot(e[0][1][0])
        if not (inp.k == "after" and inp.a[0] == x[0][0]):
            return "the locals are set up before the arguments are pushed"
        fn = fld(mk("deref", fld(fld(fld(fi, self.variant("FunctionInstance", "Wasm"), 0), None, self.pos["WasmFunctionInstance"]["func"]), None, 0)), None, 2)
        q = self.pos["WasmFunction"]
        if self.snapshot(e[0][1][1]) is not fld(fn, None, q["params"]) or self.snapshot(e[0][1][2]) is not fld(fn, None, q["locals"]):
            return "the locals are laid out for another function"
        if fld(frame, None, p["instr_ptr"]) is not c(64, 0) or fld(frame, None, p["func_addr"]) is not addr:
            return "the invocation starts at %s" % show(frame)[:120]
        if fld(frame, None, p["stack_offset"]) is not fld(fn, None, q["locals"]):
            return "the frame's locals are counted as %s" % show(fld(frame, None, p["stack_offset"]))[:100]
        b = fld(frame, None, p["locals_base"])
        if not (b.k == "fld" and b.a[0].k == "call" and b.a[0].a[0] == e[0][0]):
            return "the locals start at %s" % show(b)[:100]
        return None

    def variant(self, enum, name):
        for i, v in enumerate(self.enums[enum]["v"]):
            if v[0] == name:
                return i
        raise Missing("%s::%s" % (enum, name))

    def fentry(self, store, addr):
        return mk("sel", fld(fld(store, None, self.pos["Store"]["state"]), None, self.pos["State"]["funcs"]), zext(64, 32, addr))

    def handle(self, h):
        p = self.pos["Function"]
        return fld(h, None, p["addr"])

    # ---- one rule per kind of entry point
    def call(self, f, t, store):
        r = self.begun(t, store, f)
        if r:
            return r
        was = self.was_active(t, store)
        if was is None:
            return "" if t.ok is False and self.nothing(t) else "returns without an invocation"
        if was:
            return "+active"
        if self.hostcalls(t):
            return "+host"
        runs = self.evs(t, RUN)
        if not runs:
            return "+failed" if t.ok is False else "completes without running the function"
        if len(runs) != 1:
            return "runs more than once"
        n, a, _ = runs[0]
        addr = self.handle(mk("deref", mk("v", "p1")))
        r = self.clean(t, store, f) or self.frame(t, a[1], addr, self.fentry(store, addr), None)
        if r:
            return r
        cs = fld(fld(self.snapshot(a[0]), None, self.pos["Store"]["call_stack"]), None, self.pos["CallStack"]["stack"])
        if not empty(cs) or a[2] is not c(32, 0):
            return "runs on top of the frames of an earlier invocation"
        ok = self.result_of(t, runs[0])
        if ok == 1:
            return "+failed" if t.ok is False else "completes although execution trapped"
        return self.results(t, runs[0], mk("deref", mk("v", "p1")), addr) or "+ran"

    def results(self, t, run, handle, addr):
        e = self.evs(t, "::collect_call_results$")
        if len(e) != 1:
            return "the results are not taken off the stack exactly once"
        vs = self.snapshot(e[0][1][0])
        if not any(y.k == "after" and y.a[0] == run[0] for y in subterms(vs)):
            return "the results are not those of the execution"
        ty = e[0][1][1]
        sel = [y for y in subterms(ty) if y.k == "sel" and not any(y in subterms(z) for z in subterms(ty) if z.k in ("after", "call"))]
        h = fld(handle, None, self.pos["Function"]["ty"]) if handle is not None else None
        if not (h is not None and any(y is h for y in subterms(ty))) and not (sel and all(y.a[1] is zext(64, 32, addr) for y in sel)):
            return "the results are taken by the type of another function (%s)" % show(ty)[:100]
        mine = lambda x: x.k == "call" and x.a[0] == e[0][0]
        v = t.value
        while isinstance(v, T) and v.k == "agg" and len(v.a[2]) == 1:
            v = v.a[2][0]
        if t.ok is not False and not (isinstance(v, T) and (mine(v) or v.k == "fld" and mine(v.a[0]))):
            return "returns %s" % (show(v)[:100] if isinstance(v, T) else v)
        return None

    def start(self, f, t, store):
        r = self.begun(t, store, f)
        if r:
            return r
        was = self.was_active(t, store)
        if was is None:
            return "" if t.ok is False and self.nothing(t) else "returns without an invocation"
        if was:
            return "+active"
        if self.hostcalls(t):
            return "+host"
        if t.ok is False:
            return "+failed"
        v = t.value
        p = self.pos["FuncExecution"]
        st = fld(v, None, p["state"])
        i = self.variant("FuncExecutionState", "Running")
        if st.k != "agg" or st.a[1] != i:
            return "a function of a module is not ready to run"
        fr = fld(fld(st, i, 0), None, self.pos["ExecutionState"]["callframe"])
        addr = self.handle(mk("deref", mk("v", "p1")))
        r = self.clean(t, store, f) or self.frame(t, fr, addr, self.fentry(store, addr), None)
        if r:
            return r
        cs = self.get(t, store, self.F("call_stack"), ("CallStack", self.pos["CallStack"]["stack"]))
        if not empty(cs):
            return "runs on top of the frames of an earlier invocation"
        if fld(st, i, 1) is not addr:
            return "the results are taken by the type of another function"
        return "+ready"

    def resume(self, f, t, store):
        p = self.pos["FuncExecution"]
        ex = mk("deref", mk("v", "p1"))
        S0 = fld(ex, None, p["state"])
        run_, comp = self.variant("FuncExecutionState", "Running"), self.variant("FuncExecutionState", "Completed")
        st = self.getx(t, ex, p["state"])
        d = self.cond(t, lambda a: a.k == "discr" and a.a[0] is S0)
        if d is None:
            return "does not look at the state of the execution"
        none = lambda x: x.k == "agg" and x.a[0].endswith("Option") and x.a[1] == 0
        if d == self.disc("FuncExecutionState", "Completed"):
            if self.evs(t, RUN) or self.active(t, store) is not fld(store, None, self.pos["Store"]["execution_active"]):
                return "a completed execution runs again"
            have = self.cond(t, lambda a: a.k == "discr" and a.a[0] is fld(S0, comp, 0))
            left = fld(st, comp, 0)
            if have == 1:
                if t.ok is True and t.value.k == "agg" and t.value.a[1] == self.variant("ExecProgress", "Completed") and t.value.a[2][0] is fld(fld(S0, comp, 0), 1, 0) and none(left):
                    return "+taken"
                return "the result of a completed execution is not handed out exactly once"
            return "+over" if t.ok is False and (none(left) or left is fld(S0, comp, 0)) else "an execution that is over must be refused"
        r = self.begun(t, store, f)
        if r:
            return r
        if self.was_active(t, store):
            return "+active"
        runs = self.evs(t, RUN)
        if len(runs) != 1:
            return "does not run exactly once"
        n, a, _ = runs[0]
        if a[1] is not fld(fld(S0, run_, 0), None, self.pos["ExecutionState"]["callframe"]):
            return "continues at %s" % show(a[1])[:100]
        over = st.k == "agg" and st.a[1] == comp and none(st.a[2][0])
        ok = self.result_of(t, runs[0])
        if ok == 1:
            return "+trap" if t.ok is False and over else "an execution that trapped can be continued"
        k = self.cond(t, lambda x: x.k == "discr" and x.a[0].k == "fld" and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0] == n)
        if k is None:
            return "does not tell completed from suspended"
        if k == self.disc("ExecState", "Suspended"):
            fr = fld(fld(st, run_, 0), None, self.pos["ExecutionState"]["callframe"])
            if t.ok is True and t.value.k == "agg" and t.value.a[1] == self.variant("ExecProgress", "Suspended") and fr.k == "fld" and any(y.k == "call" and y.a[0] == n for y in subterms(fr)) \
                    and fld(st, run_, 1) is fld(S0, run_, 1):
                return "+suspended"
            return "a suspended execution does not continue where it stopped"
        if not over:
            return "a completed execution can be continued"
        r = self.results(t, runs[0], None, fld(S0, run_, 1))
        return r or "+completed"

    def getx(self, t, root, i):
        """final value of a field outside the store"""
        term = fld(root, None, i)
        val = t.eff.get(term, fld(t.eff.get(root, root), None, i))
        for k, v in t.eff.items():
            path, x = [], k
            while x.k == "fld" and x is not term:
                path.append((x.a[1], x.a[2]))
                x = x.a[0]
            if x is term and path:
                val = self.put(val, list(reversed(path)), v)
        return val

    def disc(self, enum, name):
        for v in self.enums[enum]["v"]:
            if v[0] == name:
                return int(v[1])

    def nested(self, f, t, store):
        was = self.was_active(t, store)
        runs = self.evs(t, RUN)
        if (runs or self.hostcalls(t)) and not was:
            return "code runs outside an invocation"
        if was is not None and not was:
            return "+inactive" if t.ok is False and self.nothing(t) else "goes ahead outside an invocation"
        if self.hostcalls(t):
            return "+host"
        if not self.evs(t, "::extend_from_wasmvalues$"):
            return "" if t.ok is False and self.nothing(t) else "completes without running the function"
        vs0 = fld(store, None, self.pos["Store"]["value_stack"])
        cs0 = fld(fld(store, None, self.pos["Store"]["call_stack"]), None, self.pos["CallStack"]["stack"])
        x = self.evs(t, "::extend_from_wasmvalues$")[0]
        if self.snapshot(x[1][0]) is not vs0:
            return "the arguments are not pushed onto the caller's operands"
        if x[1][1] is not mk("v", "p3"):
            return "pushes other values than the arguments"
        if t.ok is False or (t.ok is None and not self.evs(t, "::collect_call_results$")):
            r = self.restored(t, store, vs0, cs0, bool(runs))
            return r or ("+failed" if runs else "")
        if len(runs) != 1:
            return "does not run exactly once"
        n, a, _ = runs[0]
        addr = self.handle(mk("deref", mk("v", "p2")))
        r = self.frame(t, a[1], addr, self.fentry(store, addr), None)
        if r:
            return r
        L = trunc(32, mk("len", cs0), 64)
        if a[2] is not L:
            return "the nested invocation ends at frame %s" % show(a[2])
        if fld(fld(self.snapshot(a[0]), None, self.pos["Store"]["call_stack"]), None, self.pos["CallStack"]["stack"]) is not cs0:
            return "the frames of the caller are changed"
        return self.results(t, runs[0], mk("deref", mk("v", "p2")), addr) or "+ran"

    def restored(self, t, store, vs0, cs0, ran):
        """after a failure no operands or frames of the nested invocation are left"""
        vs = self.get(t, store, self.F("value_stack"))
        for s, s0 in list(zip(self.stacks(vs), self.stacks(vs0))) + [(self.get(t, store, self.F("call_stack"), ("CallStack", self.pos["CallStack"]["stack"])), cs0)]:
            if s is s0:
                continue
            want = mk("len", s0)
            if s.k == "trc" and self.wide(s.a[1]) is want:
                continue
            # already short enough
            v = self.cond(t, lambda a: a.k == "op" and a.a[0] == "lt_u" and self.wide(a.a[2]) is want and a.a[3] is mk("len", s))
            if v == 0:
                continue
            if s0 is cs0 and not ran:
                continue
            return "operands or frames of a failed nested invocation are left (%s)" % show(s)[:100]
        return None

    def wide(self, t):
        while t.k == "op" and t.a[0] in ("zext", "trunc"):
            t = t.a[2]
        return t


def empty(s):
    """a vector without elements"""
    return (s.k == "agg" and s.a[0] == "vec" and not s.a[2]) or (s.k == "trc" and isz(s.a[1]))


def isz(t):
    return isc(t) and t.a[1] == 0


def ist(t):
    return isc(t) and t.a[1] == 1


def run(chk):
    chk.rule("session", "an invocation starts only if no other one is active, on empty stacks, at the named function's first instruction over the given arguments; code runs only while the store is marked as "
             "executing; every way out clears the mark; a resumable execution continues exactly where it stopped and never after it completed or trapped; a failed nested call leaves no operands or frames behind", 5)
    chk.rule("census", "the interpreter is started and continued only by the entry points of rule session", 3)
    db = extract(("-p", "tinywasm"), CRATES)
    s = Session(chk, db)
    p1, p2 = mk("v", "p1"), mk("v", "p2")
    ex = fld(mk("deref", p1), None, s.pos["FuncExecution"]["store"])
    cx = fld(mk("deref", p1), None, s.pos["FuncContext"]["store"])
    chk.attempt("session", s.one, r"::func::Function::call$", mk("deref", p2), s.call)
    chk.attempt("session", s.one, r"::func::Function::call_resumable$", mk("deref", p2), s.start)
    chk.attempt("session", s.one, r"::FuncExecution(::)?<'?\w*>::resume_with_fuel$", mk("deref", ex), s.resume)
    chk.attempt("session", s.one, r"::FuncExecution(::)?<'?\w*>::resume_with_time_budget$", mk("deref", ex), s.resume)
    chk.attempt("session", s.one, r"::FuncContext(::)?<'?\w*>::call_untyped$", mk("deref", cx), s.nested)
    chk.attempt("census", s.census)
    chk.extra.update({"traces": s.n})
    chk.assume = ["a handle's address is in range of the store it was created for", "host functions do not unwind"]
    chk.trusted = ["the engine's models of Vec, slice and Option methods"]
