"""Budgets: they decide when execution pauses, and nothing else."""
import re
from collections import Counter
from terms import *
from lib import extract, Missing
from api import Api, implied, contradictory
from rules.common import CRATES
from summ import ExecModel

LEVEL = "proof"
EXEC = r"executor::Executor(::)?<.*>::exec$"
RUNNERS = r"executor::Executor(::)?<.*>::run_\w+$"
TRUE = c(1, 1)
CALLS = ("Call", "CallSelf", "CallIndirect", "ReturnCall", "ReturnCallSelf", "ReturnCallIndirect")
ROOT = r"::InterpreterRuntime::|::collect_call_results$|::validate_call_params$|::extend_from_wasmvalues$|::ValueStack::enter_locals$|::HostFunction::call$"


class Budget:
    def __init__(self, chk, db):
        self.chk, self.db = chk, db
        self.A = Api(db, EXEC + r"|Instant::(now|elapsed)$", outcomes=4000)
        self.pos, self.enums = self.A.layout()
        for t, fs in (("Executor", ("cf", "store", "func", "module", "call_stack_base")), ("Store", ("execution_fuel", "execution_active", "engine", "state")), ("CallFrame", ("func_addr",))):
            for x in fs:
                if x not in self.pos.get(t, {}):
                    raise Missing("%s.%s" % (t, x))
        self.fi = self.pos["Store"]["execution_fuel"]
        self.es = [v[0] for v in self.enums.get("ExecState", {"v": ()})["v"]]
        if set(self.es) != {"Completed", "Suspended"}:
            raise Missing("ExecState")
        self.n = 0

    def F(self, t, ty, name):
        return fld(t, None, self.pos[ty][name])

    def fuel(self, t, x):
        """the fuel after the trace in the store of executor state x"""
        st = mk("deref", self.F(x, "Executor", "store"))
        f = fld(st, None, self.fi)
        for s, v in self.A.entry.items():
            if v == {f} and s in t.eff:
                return t.eff[s]
        if f in t.eff:
            return t.eff[f]
        if st in t.eff:
            return fld(t.eff[st], None, self.fi)
        return f

    # ------------------------------------------------------------------ the loops that run instructions
    def runner(self, pat, mode):
        fs = self.A.fn(pat)
        if len(fs) != 1:
            raise Missing(pat)
        f = fs[0]
        ts, nx = self.A.loops(f)
        self.n += len(ts) + len(nx)
        ent = self.A.entry
        self_ = mk("deref", mk("v", "p1"))
        rx = re.compile(EXEC)

        def state(x, d=0):
            """x is the executor at some point of the run: changed only by the step function"""
            if x is self_:
                return True
            if x.k == "lp":
                return d < 6 and bool(ent.get(x)) and all(y is x or state(y, d + 1) for y in ent[x])
            if x.k == "after" and rx.search(x.a[0]) and x.a[1] == 0:
                a = x.a[2][0]
                return state(a.a[0] if a.k == "at" else mk("deref", a), d)
            return False

        syms = {x for x in ent if state(x)}
        bad = []
        live = [t for t in ts + nx if not contradictory(t.conds)]
        # the number of instructions since the last charge
        cnt = None
        if mode == "fuel":
            for s, e in ent.items():
                if s in syms or len(e) != 1 or not isc(next(iter(e))):
                    continue
                ok = True
                for t in live:
                    steps = sum(1 for n, a, r in t.evs if rx.search(n))
                    if t.kind == "next" and s in t.eff:
                        v = t.eff[s]
                        w = v.a[1] if v.k == "op" else 0
                        if steps != 1 or not (isinstance(w, int) and op("sub", w, v, s) in (c(w, 1), c(w, -1))):
                            ok = False
                if ok and any(s in t.eff for t in nx):
                    cnt = s
        seen = set()
        for t in live:
            if t.kind == "panic":
                bad.append("can panic: %s" % str(t.why)[:100])
                continue
            steps = [mk("call", n, tuple(a)) for n, a, r in t.evs if rx.search(n)]
            roots = {r: v for r, v in t.eff.items() if r is self_ or r in syms}
            if any(not state(v) for v in roots.values()):
                bad.append("the executor is changed outside the step function")
            if len(steps) > 1:
                bad.append("several steps in one turn")
                continue
            other = [r for r in t.eff if r is not self_ and r not in syms and r.k != "lp" and not self.is_fuel(r, state)]
            if other:
                bad.append("something else is changed: %s" % show(other[0])[:80])
            if steps:
                r = steps[0]
                a = r.a[1][0]
                if not state(a.a[0] if a.k == "at" else mk("deref", a)):
                    bad.append("another executor is stepped")
                err = implied(t.conds, op("eq", 64, discr(r, (0, 1)), c(64, 1))) or self.known(t, discr(r, (0, 1)), 1)
                some = not err and (implied(t.conds, op("eq", 64, discr(fld(r, 0, 0), (0, 1)), c(64, 1))) or self.known(t, discr(fld(r, 0, 0), (0, 1)), 1))
                none = not err and not some and (implied(t.conds, op("eq", 64, discr(fld(r, 0, 0), (0, 1)), c(64, 1)), 0) or self.known(t, discr(fld(r, 0, 0), (0, 1)), 0))
                if err:
                    seen.add("trap")
                    if t.kind != "return" or t.ok is not False or t.value is not fld(r, 1, 0):
                        bad.append("a trap is not returned as it is")
                elif some:
                    seen.add("done")
                    if t.kind != "return" or t.ok is not True or mode != "plain" and self.es[t.value.a[1]] != "Completed":
                        bad.append("completion is not reported")
                elif none:
                    seen.add("step")
                    if t.kind != "next":
                        bad.append("execution ends after a step that did not complete it")
                else:
                    bad.append("the outcome of a step is not looked at")
                continue
            if mode == "plain":
                if t.kind == "return":
                    bad.append("it returns without a step")
                continue
            first = self_ in [v for v in roots.values()] or not any(x in syms for a, b in t.conds for x in subterms(a)) and not any(x in syms for x in subterms(t.value or self_)) and t.kind == "return"
            cur = roots.get(self_, self_) if t.kind == "return" else None
            if t.kind == "return" and t.ok is True:
                if self.es[t.value.a[1]] != "Suspended":
                    bad.append("completion is reported for a run that did not complete")
                    continue
                if t.value.a[2][0] is not self.F(cur, "Executor", "cf"):
                    bad.append("the frame handed back is not the current one: %s" % show(t.value)[:100])
            elif t.kind == "return":
                bad.append("an error that no step gave")
                continue
            if mode == "fuel":
                b = mk("v", "p2")
                if t.kind == "return" and cur is self_:
                    seen.add("zero")
                    if not implied(t.conds, op("eq", 32, b, c(32, 0))):
                        bad.append("it pauses before the first step though there is fuel")
                    continue
                x = cur if cur is not None else next((v for v in roots.values() if v is not self_), None)
                if x is None:
                    bad.append("a turn without a step that is not understood")
                    continue
                old = fld(mk("deref", self.F(x, "Executor", "store")), None, self.fi)
                old = next((s for s, v in self.A.entry.items() if v == {old}), old)
                new = self.fuel(t, x)
                seen.add("charge")
                n = self.count(t, cnt, live, nx, rx)
                if n is None:
                    bad.append("the steps since the last charge are not counted")
                    continue
                lt, over = op("lt_u", 32, old, c(32, n)), op("lt_u", 32, c(32, n), old)
                if not (implied(t.conds, over, 0) and self.eqv(t, new, c(32, 0)) or implied(t.conds, over) and self.eqv(t, new, op("sub", 32, old, c(32, n))) or implied(t.conds, lt) and self.eqv(t, new, c(32, 0)) or implied(t.conds, lt, 0) and self.eqv(t, new, op("sub", 32, old, c(32, n))) or self.sat(new, old, n)):
                    bad.append("not one unit is charged for each of the %d steps: %s" % (n, show(new)[:80]))
                if t.kind == "return" and not implied(t.conds, op("eq", 32, new, c(32, 0))) or t.kind == "next" and not implied(t.conds, op("eq", 32, new, c(32, 0)), 0):
                    bad.append("it %s" % ("pauses while fuel is left" if t.kind == "return" else "continues without fuel"))
                seen.add("pause" if t.kind == "return" else "go on")
            else:
                if t.kind == "return" and cur is self_:
                    seen.add("zero")
                    if not any(x is mk("v", "p2") for a, b in t.conds for x in subterms(a)):
                        bad.append("it pauses before the first step whatever the budget")
                    continue
                seen.add("pause" if t.kind == "return" else "go on")
                cs = [(a, b) for a, b in t.conds if any(x.k == "call" and x.a[0].endswith("::elapsed") for x in subterms(a)) and any(x is mk("v", "p2") for x in subterms(a))]
                if t.kind == "return" and not cs:
                    bad.append("it pauses without comparing the elapsed time with the budget")
                for a, b in cs:
                    for x in subterms(a):
                        if x.k == "call" and x.a[0].endswith("::partial_cmp") and t.kind == "return":
                            args = [y.a[0] if y.k == "at" else y for y in x.a[1]]
                            d = discr(fld(x, 1, 0), (-1, 0, 1))
                            ds = [y for a2, b2 in t.conds for y in subterms(a2) if y.k == "discr" and y.a[0] is fld(x, 1, 0)]
                            swap = args[0] is mk("v", "p2")
                            ok = not ds or all(implied(t.conds, op("lt_s", 8, c(8, 0), y) if swap else op("lt_s", 8, y, c(8, 0)), 0) for y in ds)
                            if not ok:
                                bad.append("it pauses before the time is up")
        want = {"plain": {"trap", "done", "step"}, "fuel": {"trap", "done", "step", "zero", "charge", "pause", "go on"}, "time": {"trap", "done", "step", "zero", "pause", "go on"}}[mode]
        if not bad and want - seen:
            bad.append("no path for: %s" % ", ".join(sorted(want - seen)))
        if mode == "fuel" and not bad:
            # the budget is what the run starts with
            for t in live:
                if self.fuel_start(t, self_) is not mk("v", "p2"):
                    bad.append("the run does not start with the given fuel")
                    break
        self.chk.ob("runner", f.deff.split("::")[-1], not bad, "%s:%d" % (f.file, f.line), bad[0] if bad else "")

    def is_fuel(self, r, state):
        """the fuel (or the store with nothing but the fuel changed) of an executor state"""
        if r.k == "fld" and r.a[2] == self.fi:
            r = r.a[0]
        return r.k == "deref" and r.a[0].k == "fld" and r.a[0].a[2] == self.pos["Executor"]["store"] and state(r.a[0].a[0])

    def fuel_start(self, t, self_):
        st = mk("deref", self.F(self_, "Executor", "store"))
        f = fld(st, None, self.fi)
        if t.kind == "next":
            return mk("v", "p2")
        return t.eff.get(f, fld(t.eff.get(st, st), None, self.fi))

    def known(self, t, x, v):
        return any(a is x and isc(b) and b.a[1] == v for a, b in t.conds)

    def eqv(self, t, a, b):
        return a is b or implied(t.conds, op("eq", 32, a, b))

    def sat(self, new, old, n):
        return new.k == "op" and new.a[0] == "sat_sub_u" and new.a[2] is old and new.a[3] is c(32, n)

    def count(self, t, cnt, live, nx, rx):
        """the number of steps since the last charge, when the trace ends a chunk: a constant"""
        if cnt is None:
            return None
        e = next(iter(self.A.entry[cnt]))
        w = e.a[0]
        m = 1 << (w - 1)
        sg = lambda x: x - 2 * m if x >= m else x
        e = sg(e.a[1])

        def within(conds, lo, hi):
            """the values the counter can have: an interval of non-negative numbers"""
            for a, b in conds:
                v = b.a[1] if isc(b) else None
                while a.k == "op" and a.a[0] == "not":
                    a, v = a.a[2], None if v is None else 1 - v
                if a is cnt and v is not None:
                    lo, hi = max(lo, sg(v)), min(hi, sg(v))
                    continue
                if v is None or a.k != "op" or a.a[0] not in ("lt_s", "lt_u", "eq") or cnt not in a.a[2:]:
                    continue
                x, y = a.a[2], a.a[3]
                k = y if x is cnt else x
                if not isc(k):
                    continue
                k = sg(k.a[1])
                if a.a[0] == "eq":
                    if v:
                        lo, hi = max(lo, k), min(hi, k)
                    elif k == lo:
                        lo += 1
                    elif k == hi:
                        hi -= 1
                elif x is cnt:
                    lo, hi = (lo, min(hi, k - 1)) if v else (max(lo, k), hi)
                else:
                    lo, hi = (max(lo, k + 1), hi) if v else (lo, min(hi, k))
            return lo, hi

        # the values at the loop head: grown step by step from the first, over jumps to the bounds the code tests
        tests = sorted({sg(b.a[1]) for tt in live for a, _ in tt.conds for b in subterms(a) if isc(b) and b.a[0] == w} | {e, 0})
        lo, hi = e, e
        for _ in range(50):
            a, z = lo, hi
            for tt in nx:
                if cnt not in tt.eff or contradictory(tt.conds):
                    continue
                l, h = within(tt.conds, lo, hi)
                if l > h:
                    continue
                d = 1 if op("sub", w, tt.eff[cnt], cnt) is c(w, 1) else -1
                a, z = min(a, l + d), max(z, h + d)
            if (a, z) == (lo, hi):
                break
            z = hi if z <= hi else next((x for x in tests if x >= z), None)
            a = lo if a >= lo else next((x for x in reversed(tests) if x <= a), None)
            if z is None or a is None or a < 0 or z >= m:
                return None
            lo, hi = a, z
        else:
            return None
        l, h = within(t.conds, lo, hi)
        return abs(l - e) if l == h else None

    # ------------------------------------------------------------------ what the runners are started on
    def starts(self):
        A = Api(self.db, RUNNERS, outcomes=2000)
        for pat, run, base in ((r"InterpreterRuntime::exec$", "run_to_completion", "p3"), (r"InterpreterRuntime::exec_with_fuel$", "run_with_fuel", 0), (r"InterpreterRuntime::exec_with_time_budget$", "run_with_time_budget", 0)):
            fs = A.fn(pat)
            f = fs[0]
            bad = ""
            seen = 0
            for t in A.run(f):
                if t.kind != "return" or contradictory(t.conds):
                    continue
                self.n += 1
                ev = [(n, a) for n, a, r in t.evs if re.search(RUNNERS, n)]
                if len(ev) != 1 or not ev[0][0].endswith("::" + run):
                    bad = "it does not run once with the budget it is given"
                    continue
                n, a = ev[0]
                x = a[0].a[0] if a[0].k == "at" else None
                if x is None or x.k != "agg":
                    bad = "the executor is not known"
                    continue
                seen += 1
                st = mk("deref", mk("v", "p1"))
                if self.F(x, "Executor", "cf") is not mk("v", "p2"):
                    bad = "it starts at another frame: %s" % show(self.F(x, "Executor", "cf"))[:80]
                elif self.F(x, "Executor", "store") is not mk("v", "p1"):
                    bad = "it runs on another store"
                elif self.F(x, "Executor", "call_stack_base") not in ((mk("v", "p3"),) if base == "p3" else (c(32, 0),)):
                    bad = "the run does not end at the frames it found"
                elif base == 0 and a[1] is not mk("v", "p3"):
                    bad = "the budget is not the given one"
                else:
                    fa = self.F(mk("v", "p2"), "CallFrame", "func_addr")
                    fn = self.F(x, "Executor", "func")
                    if not any(y.k == "sel" and y.a[1] is op("zext", 64, fa, 32) or y.k == "sel" and y.a[1].k == "op" and y.a[1].a[0] == "zext" and y.a[1].a[2] is fa for y in subterms(fn)):
                        bad = "it does not run the code of the frame's function"
                    v = t.value
                    if not (v is mk("call", n, tuple(a)) or v is not None and any(y is mk("call", n, tuple(a)) for y in subterms(v))) and t.ok is None:
                        bad = bad or "the outcome of the run is not returned"
            if not seen and not bad:
                bad = "it never runs"
            self.chk.ob("start", f.deff.split("::")[-1], not bad, "%s:%d" % (f.file, f.line), bad)

    # ------------------------------------------------------------------ fuel outside the runs
    def outside(self):
        A = Api(self.db, ROOT, outcomes=4000)
        for pat, store in ((r"func::Function::call$", "p2"), (r"func::Function::call_resumable$", "p2"), (r"func::FuncExecution::<'store>::resume_with_fuel$", None), (r"func::FuncExecution::<'store>::resume_with_time_budget$", None)):
            f = A.fn(pat)[0]
            bad, seen = "", 0
            for t in A.run(f):
                if t.kind != "return" or contradictory(t.conds):
                    continue
                self.n += 1
                if store:
                    st = mk("deref", mk("v", store))
                else:
                    st = mk("deref", fld(mk("deref", mk("v", "p1")), None, self.pos["FuncExecution"]["store"]))
                cells = {r: v for r, v in t.eff.items() if r is st or r is fld(st, None, self.fi)}
                act = [r for r in t.eff if r is st or r is fld(st, None, self.pos["Store"]["execution_active"])]
                runs = [n for n, a, r in t.evs if re.search(r"::InterpreterRuntime::|::HostFunction::call$", n)]
                if not runs:
                    continue
                seen += 1
                fu = cells.get(fld(st, None, self.fi))
                if fu is None:
                    fu = fld(cells.get(st, st), None, self.fi)
                if fu is not c(32, 0):
                    bad = "fuel is left over after the invocation (%s)" % show(fu)[:80]
            if not seen and not bad:
                raise Missing("a run in " + f.deff)
            self.chk.ob("idle", f.deff.split("::")[-1], not bad, "%s:%d" % (f.file, f.line), bad)
        # the host's view
        st = mk("deref", fld(mk("deref", mk("v", "p1")), None, self.pos["FuncContext"]["store"]))
        fu = fld(st, None, self.fi)
        f = A.fn(r"FuncContext::<'_>::remaining_fuel$")[0]
        bad = ""
        for t in A.run(f):
            if t.kind == "return" and t.value is not fu:
                bad = "it returns %s" % show(t.value)[:80]
        self.chk.ob("idle", "remaining_fuel", not bad, "%s:%d" % (f.file, f.line), bad)
        f = A.fn(r"FuncContext::<'_>::charge_fuel$")[0]
        bad = ""
        for t in A.run(f):
            if t.kind != "return" or contradictory(t.conds):
                continue
            new = t.eff.get(fu, fld(t.eff.get(st, st), None, self.fi))
            lt = op("lt_u", 32, fu, mk("v", "p2"))
            if any(r is not fu for r in t.eff):
                bad = "it changes something else"
            if not (implied(t.conds, lt) and self.eqv(t, new, c(32, 0)) or implied(t.conds, lt, 0) and self.eqv(t, new, op("sub", 32, fu, mk("v", "p2")))):
                bad = "it leaves %s" % show(new)[:80]
        self.chk.ob("idle", "charge_fuel", not bad, "%s:%d" % (f.file, f.line), bad)

    # ------------------------------------------------------------------ the step functions
    def steps(self):
        M = [ExecModel(self.db, outcomes=40000), ExecModel(self.db, budgeted=True, outcomes=40000)]
        st = mk("deref", self.F(mk("deref", mk("v", "self")), "Executor", "store"))
        fuel = fld(st, None, self.fi)
        extra = {}
        for n in sorted(set(M[0].res) | set(M[1].res) | set(M[0].limits) | set(M[1].limits)):
            if n in M[0].limits or n in M[1].limits:
                self.chk.ob("same", n, False, "crates/tinywasm/src/interpreter/executor.rs", "not analysed: %s" % (M[0].limits.get(n) or M[1].limits.get(n)))
                continue
            a, b = M[0].res.get(n), M[1].res.get(n)
            if a is None or b is None:
                self.chk.ob("same", n, False, "", "only one of the step functions has it")
                continue
            self.n += len(a) + len(b)
            bad = ""
            ka = {self.key(o, None, fuel)[0] for o in a}
            if any(fuel in o.eff for o in a):
                bad = "fuel changes in a run without fuel"
            kb = {}
            for o in b:
                k, cond, eff = self.key(o, fuel, fuel)
                kb.setdefault(k, []).append((cond, eff))
            if ka != set(kb):
                d = (set(kb) - ka) or (ka - set(kb))
                x = next(iter(d))
                bad = bad or "with a fuel budget it does something else than without: %s" % str((x[0], x[1], [(show(p)[:60], show(q)[:60]) for p, q in x[3]]))[:200]
            # the extra charge
            for k, l in kb.items():
                for cond, eff in l:
                    if n not in CALLS:
                        if cond or eff is not None:
                            bad = bad or "it charges fuel of its own"
                        continue
                    pol = [bb.a[1] for aa, bb in cond if aa.k == "discr" and isc(bb)]
                    if len(set(pol)) != 1:
                        bad = bad or "the charge does not depend on the policy"
                        continue
                    extra.setdefault(n, {}).setdefault(pol[0], []).append((cond, eff))
            self.chk.ob("same", n, not bad, "crates/tinywasm/src/interpreter/executor.rs", bad)
        pv = [v[0] for v in self.enums["FuelPolicy"]["v"]]
        amounts = {}
        for n in CALLS:
            bad = ""
            per = extra.get(n, {}).get(pv.index("PerInstruction"), [])
            wei = extra.get(n, {}).get(pv.index("Weighted"), [])
            if not per or not wei:
                bad = "not charged by the policy"
            if any(e is not None and e is not fuel for cnd, e in per):
                bad = "an extra charge under the per-instruction policy"
            am = set()
            for cnd, e in wei:
                e = fuel if e is None else e
                if e.k == "op" and e.a[0] == "add" and e.a[2] is fuel and isc(e.a[3]):
                    am.add((1 << 32) - e.a[3].a[1])
            if not bad and len(am) != 1:
                bad = "no fixed extra charge under the weighted policy (%s)" % sorted(am)
            if not bad:
                k = next(iter(am))
                amounts[n] = k
                for cnd, e in wei:
                    e = fuel if e is None else e
                    lt = op("lt_u", 32, fuel, c(32, k))
                    if not (implied(cnd, lt) and (e is c(32, 0)) or implied(cnd, lt, 0) and e is op("sub", 32, fuel, c(32, k))):
                        bad = "the extra charge is not %d, down to zero: %s" % (k, show(e)[:80])
            self.chk.ob("charge", n, not bad, "crates/tinywasm/src/interpreter/executor.rs", bad)
        top = Counter(amounts.values()).most_common(1)
        for n, k in sorted(amounts.items()):
            if k != top[0][0]:
                self.chk.ob("charge", n + ":amount", False, "crates/tinywasm/src/interpreter/executor.rs", "it costs %d more than another instruction, other calls %d" % (k, top[0][0]))

    def key(self, o, drop, fuel):
        """what an outcome does, without the fuel; its conditions on the fuel and the policy; its change of the fuel"""
        eff = frozenset((x, y) for x, y in o.eff.items() if x is not fuel)
        mine, rest = [], []
        for a, b, s in o.conds:
            if drop is not None and self.about(a, fuel):
                mine.append((a, b))
            else:
                rest.append((a, b))
        trap = o.trap if isinstance(o.trap, T) else tuple(str(x) for x in o.trap[:2]) if isinstance(o.trap, tuple) else o.trap
        return (o.kind, trap, o.value, eff, frozenset(rest)), mine, o.eff.get(fuel)

    def about(self, a, fuel):
        """a condition on the fuel, or on the policy"""
        for x in subterms(a):
            if x is fuel:
                return True
            if x.k == "discr" and len(x.a[1]) == len(self.enums["FuelPolicy"]["v"]) and x.a[0].k == "fld" and x.a[0].a[2] == self.pos["Config"]["fuel_policy"]:
                y = x.a[0].a[0]
                if any(z.k == "fld" and z.a[2] == self.pos["Store"]["engine"] for z in subterms(y)):
                    return True
        return False


def run(chk):
    db = extract(("-p", "tinywasm"), CRATES)
    chk.rule("same", "with a fuel budget every instruction does exactly what it does without one, but for the fuel; only calls charge fuel of their own", 500)
    chk.rule("charge", "each form of call charges the same extra under the weighted policy, never below zero, and nothing under the other", 6)
    chk.rule("runner", "a run only steps; it reports completion and traps of a step as they are, pauses exactly when the budget is used up, with the current frame, and charges one unit per step", 3)
    chk.rule("start", "a run starts at the frame it is given, in that frame's code, on the given store, with the given budget", 3)
    chk.rule("idle", "no fuel is left after an invocation; the host sees and charges the fuel of the current one", 6)
    B = Budget(chk, db)
    chk.attempt("runner", B.runner, r"Executor(::)?<.*>::run_to_completion$", "plain")
    chk.attempt("runner", B.runner, r"Executor(::)?<.*>::run_with_fuel$", "fuel")
    chk.attempt("runner", B.runner, r"Executor(::)?<.*>::run_with_time_budget$", "time")
    chk.attempt("start", B.starts)
    chk.attempt("idle", B.outside)
    chk.attempt("same", B.steps)
    chk.extra["traces"] = B.n
