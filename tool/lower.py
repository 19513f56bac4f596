"""What the lowering emits for each WebAssembly operator: one summary per visitor method of the function builder."""
import re
import engine as E
from terms import *
from lib import Missing

VT = "wasmparser::readers::core::operators::"


def vec_fields(ctx, ti, name):
    """indices of the fields of struct ti that are Vec<.. name ..>"""
    out = []
    for i, f in enumerate(ctx.types[ti]["v"][0][2]):
        t = ctx.types[f[1]]
        if t.get("def") == "alloc::vec::Vec":
            el = ctx.types[t["a"][0]]
            if el.get("def", el["k"]).split("::")[-1] == name:
                out.append(i)
    return out


class Lo:
    """one accepting trace of one visitor method"""
    __slots__ = ("emitted", "replaced", "pops", "pushes", "conds", "eff", "o", "value", "popn")


def unseq(t, base):
    """(number popped from base, [pushed]) of a vector that grew from base; None if it is anything else"""
    pushed = []
    while t.k == "push":
        pushed.append(t.a[1])
        t = t.a[0]
    pushed.reverse()
    n = 0
    while t.k == "pop":
        n += 1
        t = t.a[0]
    if t is not base:
        return None
    return n, pushed


class LowerModel:
    def __init__(self, db, only=None, opaque=r"^log::|^wasmparser::|fmt::format|string::String", selftype="FunctionBuilder"):
        self.db = db
        self.ctx = ctx = db.ctxs["tinywasm_parser"]
        self.fns = {}
        for f in ctx.fns.values():
            m = re.fullmatch(r"<[\w:]*::%s(<.*>)? as wasmparser::.*>::visit_(\w+)" % selftype, f.name)
            if m:
                self.fns.setdefault(m.group(2), f)
        if not self.fns:
            raise Missing("visitor methods of the function builder")
        f = next(iter(self.fns.values()))
        st = ctx.types[f.locals[1]]["e"]
        self.bt = st
        iv = vec_fields(ctx, st, "Instruction")
        ov = vec_fields(ctx, st, "OperandSize")
        cv = [i for i, fl in enumerate(ctx.types[st]["v"][0][2]) if fl[0] in ("ctrl_stack", "control", "control_stack", "ctx_stack")]
        if len(iv) != 1:
            raise Missing("instruction buffer of the function builder")
        self.self_ = mk("v", "self")
        self.base = mk("deref", self.self_)
        self.ifld = iv[0]
        self.ovf = ov
        self.eng = E.Engine(db, assume_capacity=True, opaque=opaque, max_outcomes=4000)
        self.insn_ty = [t for t in ctx.types if t["k"] == "enum" and t["def"].endswith("::Instruction")][0]
        self.vnames = {i: v[0] for i, v in enumerate(self.insn_ty["v"])}
        self.discr2idx = {int(v[1]): i for i, v in enumerate(self.insn_ty["v"])}
        self.size_ty = [t for t in ctx.types if t["k"] == "enum" and t["def"].endswith("::OperandSize")]
        self.res, self.limits = {}, {}
        self.raw = {}
        if len(self.ovf) > 1:
            # the operand stack is the one a constant grows
            self.run1("i32_const", self.fns["i32_const"])
            for i in list(self.ovf):
                b = fld(self.base, None, i)
                if not any(fld(x.eff, None, i) is not b for x in self.res["i32_const"]):
                    self.ovf.remove(i)
            self.res, self.raw = {}, {}
        if len(self.ovf) != 1:
            raise Missing("operand stack of the function builder")
        for n, f in sorted(self.fns.items()):
            if only is not None and n not in only:
                continue
            self.run1(n, f)

    def run1(self, n, f):
        args = [self.self_] + [mk("v", "a%d" % i) for i in range(1, f.argc)]
        try:
            outs = self.eng.run(f, args)
        except (E.Limit, E.Unsupported) as ex:
            self.limits[n] = str(ex)
            return
        self.raw[n] = outs
        l = []
        for o in outs:
            if o.kind != "return":
                continue
            v = o.value
            if v.k == "agg" and v.a[0] == E.RES and v.a[1] == 1:
                continue
            l.append(self.conv(o))
        self.res[n] = l

    def conv(self, o):
        r = Lo()
        r.o = o
        r.value = o.value
        new = o.st.mem.get(self.self_, self.base)
        new = new if isinstance(new, T) else self.base
        b = fld(self.base, None, self.ifld)
        x = unseq(fld(new, None, self.ifld), b)
        r.popn, r.emitted = x if x else (None, None)
        r.pops, r.pushes = None, None
        if len(self.ovf) >= 1:
            ob = fld(self.base, None, self.ovf[0])
            x = unseq(fld(new, None, self.ovf[0]), ob)
            if x:
                r.pops, r.pushes = x
        r.eff = new
        r.conds = [(a, b_) for a, b_, s in o.conds]
        return r

    def insn(self, t):
        """(name, fields) of an emitted instruction term"""
        if t.k == "agg" and t.a[0].endswith("::Instruction"):
            return self.vnames[t.a[1]], t.a[2]
        return None
