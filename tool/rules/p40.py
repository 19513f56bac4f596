"""Frames: what a callee finds on the operand stacks, what its caller finds after it returns."""
import engine as E
from terms import *
from seqval import SeqVal, lsum
from compose import S32, S64, S128, IP
from rules.bulk import STACKS
from rules.p13 import Calls, NAMES, CL

LEVEL = "proof"
SELF = ["CallSelf", "ReturnCallSelf"]


class Frames(Calls):
    def selfcalls(self):
        for n in SELF:
            if n in self.M.vidx:
                self.chk.attempt("enter", self.decide, "enter", n, [self.C.insn(n)], "")
        self.chk.attempt("leave", self.decide, "leave", "Return", [self.C.insn("Return")], "")

    def wanted(self, n):
        if n in SELF:
            return {"+self"}
        if n == "Return":
            return {"+outermost", "+same", "+other"}
        return super().wanted(n)

    def trace(self, n, o):
        if n in SELF:
            return self.selfcall(n, o)
        if n == "Return":
            return self.ret(o)
        if o.kind == "err" and self.C.trap(o) in ("UndefinedElement", "UninitializedElement", "IndirectCallTypeMismatch"):
            return "+" + {"UndefinedElement": "undef", "UninitializedElement": "null", "IndirectCallTypeMismatch": "mismatch"}[self.C.trap(o)]
        return super().trace(n, o)

    def selfcall(self, n, o):
        A = fld(self.CF, None, self.cfp["func_addr"])
        if o.kind == "panic":
            for S, nm, i in CL:
                if self.flin(o, i, S, S, self.FN)[1]:
                    return "+dead"
            return "the host panics"
        if o.kind != "ok":
            return "a call of the function itself must enter it"
        extra = [k for k in o.loc if k not in STACKS and k not in (IP, self.CF, self.CS) and o.loc[k] is not k and not self.fuelish(k)]
        if extra:
            return "changes %s" % [show(x)[:80] for x in extra]
        new = o.loc.get(self.CF)
        if new is None or fld(new, None, self.cfp["func_addr"]) is not A:
            return "the frame does not name the function itself"
        return self.enter(o, {S: S for S in STACKS}, self.FN, None, A, n.startswith("Return")) or "+self"

    def ret(self, o):
        if o.kind == "panic":
            l = self.lin(o)
            A = fld(mk("last", self.CS), None, self.cfp["func_addr"])
            if self.kind(o, self.fentry(A)) == "Host":
                return "+dead"          # frames on the call stack belong to functions of modules
            return "+dead" if l.infeasible() else "the host panics"
        if o.kind not in ("ok", "done"):
            return "returning must not trap"
        L = o.loc
        for S, nm, i in CL:
            r = self.lf(self.count(self.FN, "results", i))
            k = tuple((a, b) for a, b in o.conds if a.k == "op" and self.about(a, S, i))
            key = (k, S, "ret")
            if key not in self.lins:
                from lin import facts
                l = facts(k, None)
                b, n = self.lf(zext(64, 32, self.base(i))), self.lf(mk("len", S))
                l.cons.append(lsum(lsum(b(l), r(l)), n(l), -1))
                self.lins[key] = l, l.infeasible()
            l, no = self.lins[key]
            if no:
                continue
            b, n = self.lf(zext(64, 32, self.base(i))), self.lf(mk("len", S))
            bad = self.seq_is(l, key, S, L.get(S, S), self.add(b, r), [(b, ("src", lambda l: ({}, 0))), (r, ("src", self.sub(n, r)))], "ret")
            if bad:
                return bad
        base = fld(mk("deref", self.M.self_), None, self.pos["Executor"]["call_stack_base"])
        last = mk("last", self.CS)
        at = self.known(o, lambda a: a.k == "op" and a.a[0] == "eq" and base in a.a[2:] and any(x.k == "op" and x.a[0] == "trunc" and x.a[2] is mk("len", self.CS) for x in a.a[2:]))
        if at is None:
            return "does not test whether the outermost call of this execution returns"
        others = [k for k, v in L.items() if k not in STACKS and k is not IP and v is not k and not self.fuelish(k)]
        if at:
            if o.kind != "done":
                return "the outermost call's return must end the execution"
            return "changes %s" % [show(x)[:80] for x in others] if others else "+outermost"
        if o.kind == "done":
            if self.known(o, lambda a: a.k == "op" and a.a[0] == "eq" and mk("len", self.CS) in a.a[2:] and c(64, 0) in a.a[2:]):
                return "+empty"
            return "an inner call's return must not end the execution"
        if L.get(self.CS) is not mk("pop", self.CS):
            return "the caller's frame is not popped"
        new = L.get(self.CF)
        if new is None or not self.frame_eq(new, last):
            return "the caller resumes in the frame %s" % (show(new)[:160] if new is not None else "of the callee")
        A, cur = fld(last, None, self.cfp["func_addr"]), fld(self.CF, None, self.cfp["func_addr"])
        same = self.known(o, lambda a: a.k == "op" and a.a[0] == "eq" and set(a.a[2:]) == {A, cur})
        if same and self.FN not in L and self.MI not in L:
            return "+same"
        fi = self.fentry(A)
        if self.kind(o, fi) != "Wasm":
            return "does not go back to the caller's function"
        arc, owner = self.wasm(fi)
        self.aspect = "callee"
        r = self.func_is(o, arc) or self.module_is(o, owner)
        self.aspect = "frame"
        return r or "+other"


def run(chk):
    chk.rule("enter", "entering a function leaves, per class, the operands below the arguments, the arguments as the first locals and zeroes as the other locals, and a fresh frame; the caller's frame is saved "
             "with the next instruction (not for tail calls, which replace the current frame)", 6)
    chk.rule("leave", "a return leaves the operands below the locals and exactly the results, and restores the caller's frame, code and module instance; the outermost return ends the execution", 1)
    for b in (False, True):
        f = Frames(chk, NAMES, b, extra=SELF + ["Return"], aspect="frame", outcomes=30000)
        f.run(NAMES if not b else NAMES[:3], "enter")
        f.selfcalls()
    chk.assume = ["validated code: arguments and results are on the operand stack, parameters are locals; operand stacks have fewer than 2^32 slots"]
    chk.trusted = ["the engine's models of Vec, slice and Option methods"]
