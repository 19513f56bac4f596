"""Per-instruction summaries of the executor, extracted by the trace-partitioned interpreter."""
import re
import engine as E
from engine import SeqCfg
from terms import *


from lib import Missing


class _Unused(Exception):
    """an anchor the rules need is not in the code"""


def find_path(ctx, ti, pred, maxd=6):
    """shortest field path (through references) from type ti to a type satisfying pred: [(steps), type]"""
    from collections import deque
    q = deque([(ti, ())])
    seen = {ti}
    while q:
        t, p = q.popleft()
        ty = ctx.types[t]
        if pred(ty, t):
            return p, t
        if len(p) >= maxd:
            continue
        nxt = []
        if ty["k"] == "ref":
            nxt.append((ty["e"], p + ("*",)))
        elif ty["k"] == "struct" and ty.get("v"):
            for i, f in enumerate(ty["v"][0][2]):
                nxt.append((f[1], p + (i,)))
        for n, np in nxt:
            if isinstance(n, int) and n >= 0 and n not in seen:
                seen.add(n)
                q.append((n, np))
    return None


def all_paths(ctx, ti, pred, maxd=5):
    out = []

    def go(t, p, d):
        ty = ctx.types[t]
        if pred(ty, t):
            out.append((p, t))
            return
        if d >= maxd:
            return
        if ty["k"] == "ref":
            go(ty["e"], p + ("*",), d + 1)
        elif ty["k"] == "struct" and ty.get("v"):
            for i, f in enumerate(ty["v"][0][2]):
                if isinstance(f[1], int) and f[1] >= 0:
                    go(f[1], p + (i,), d + 1)
    go(ti, (), 0)
    return out


def term_at(root, path):
    """the initial-value term found by following a type path from a pointer value"""
    t = root
    for s in path:
        t = mk("deref", t) if s == "*" else fld(t, None, s)
    return t


def leaves(old, new, path=()):
    """the changed leaves of an updated value"""
    if old is new:
        return
    if new.k == "upd":
        base = new.a[0]
        if base is old:
            for (var, i), v in new.a[1]:
                yield from leaves(fld(old, var, i), v, path + ((var, i),))
            return
    yield path, old, new


class Insn:
    __slots__ = ("name", "outs", "limit")


class Out:
    """one trace of one instruction"""
    __slots__ = ("kind", "trap", "eff", "conds", "events", "o", "known", "ne", "value")


class ExecModel:
    def __init__(self, db, budgeted=False, only=None, unopaque=None, models=None, concrete=None, outcomes=6000):
        self.db = db
        fs = [f for n, l in db.by_def.items() if n.startswith("tinywasm::interpreter::executor::Executor::<") and n.endswith("::exec") for f in l]
        fs = [f for f in fs if f.name[:-len("::exec")].rstrip(">").endswith("true" if budgeted else "false")]
        if len(fs) != 1:
            raise Missing("Executor::exec (BUDGETED=%s): %d bodies" % (budgeted, len(fs)))
        self.f = f = fs[0]
        self.ctx = ctx = f.ctx
        self.self_ = mk("v", "self")
        st_ty = f.locals[1]
        vs = find_path(ctx, st_ty, lambda t, i: t.get("def", "").endswith("::ValueStack"))
        if vs is None:
            raise Missing("value stack of the executor")
        vsp, vst = vs
        self.stack = {}
        for w in ("u32", "u64", "v128"):
            def pred(t, i, w=w):
                if not t.get("def", "").endswith("alloc::vec::Vec") and t.get("def", "") != "alloc::vec::Vec":
                    return False
                et = ctx.types[t["a"][0]]
                if w == "v128":
                    return et.get("def", "").endswith("Value128")
                return et["k"] == "uint" and et["w"] == int(w[1:])
            r = find_path(ctx, vst, pred)
            if r is None:
                raise Missing("operand stack %s" % w)
            self.stack[w] = vsp + r[0]
        cf = find_path(ctx, st_ty, lambda t, i: t.get("def", "").endswith("::CallFrame"))
        if cf is None:
            raise Missing("call frame of the executor")
        self.cfp = cf[0]
        cft = ctx.types[cf[1]]
        self.cf_fields = {x[0]: i for i, x in enumerate(cft["v"][0][2])}
        self.ipath = None
        names = {}
        for nm, i in self.cf_fields.items():
            names[nm] = i
        sb = all_paths(ctx, cf[1], lambda t, i: t.get("def", "").endswith("::StackBase"))
        self.names = {}
        for w, p in self.stack.items():
            self.names[term_at(self.self_, p)] = mk("v", {"u32": "S32", "u64": "S64", "v128": "S128"}[w])
        lbs = []
        for p, t in sb:
            nm = cft["v"][0][2][p[0]][0]
            base = ctx.types[t]["v"][0][2]
            for i, x in enumerate(base):
                tt = term_at(self.self_, self.cfp + p + (i,))
                self.names[tt] = mk("v", "%s.%s" % (nm, x[0]))
                if "local" in nm:
                    lbs.append(tt)
        self.lbs = set(lbs) | {self.names[x] for x in lbs}
        if len(lbs) != 3:
            raise Missing("locals base of the call frame")
        if "instr_ptr" not in self.cf_fields:
            raise Missing("instruction pointer of the call frame")
        self.ip_term = term_at(self.self_, self.cfp + (self.cf_fields["instr_ptr"],))
        self.names[self.ip_term] = mk("v", "ip")
        memo = {}

        def noalias(i):
            r = memo.get(i)
            if r is None:
                r = memo[i] = any(x in self.lbs for x in subterms(i))
            return r
        SeqCfg.noalias = staticmethod(noalias)
        self.eng = E.Engine(db, assume_capacity=True, opaque=r"simd::instructions|simd::utils|^log::|^tinywasm::log", models=models, max_outcomes=outcomes)
        if concrete is not None:
            self.eng.concrete, self.eng.concrete_fn = concrete, lambda fn: fn is not self.f
        self.insn_ty = None
        self.res = {}
        self.limits = {}
        self.insn_term = None
        self.budgeted = budgeted
        self._run(only)

    def _run(self, only):
        e = self.eng
        e.splitter = lambda en, x, fr: x.k == "discr" and len(x.a[1]) > 100 and fr.fn is self.f
        pre = e.run(self.f, [self.self_])
        e.splitter = None
        self.pre = pre
        ids = set()
        for t in self.ctx.types:
            if t["k"] == "enum" and t["def"].endswith("instructions::Instruction"):
                self.insn_ty = t
        if self.insn_ty is None:
            raise Missing("Instruction enum")
        if not e.pending:
            raise Missing("dispatch over the Instruction enum")
        self.vnames = {int(v[1]): v[0] for v in self.insn_ty["v"]}
        self.vidx = {v[0]: i for i, v in enumerate(self.insn_ty["v"])}
        self.vfields = {v[0]: v[2] for v in self.insn_ty["v"]}
        self.pend = {}
        for st in e.pending:
            ds = [k for k in st.known if k.k == "discr" and len(k.a[1]) > 100]
            if not ds:
                # the otherwise edge of a dispatch with a default arm
                self.pend.setdefault("_", []).append(st)
                continue
            d = ds[0]
            self.insn_term = d.a[0]
            self.pend.setdefault(self.vnames[st.known[d].a[1]], []).append(st)
        self.names[self.insn_term] = mk("v", "I")
        e.pending = []
        for n, sts in self.pend.items():
            if only is not None and n not in only:
                continue
            self.summarise(n, sts)

    def summarise(self, n, sts):
        outs = []
        try:
            for st in [st.copy() for st in sts]:
                outs.extend(self.eng.resume(st))
        except (E.Limit, E.Unsupported) as ex:
            # too many traces: summarise again with calls into the host as single steps
            old, self.eng.opaque = self.eng.opaque, self.host_calls()
            outs = []
            try:
                for st in sts:
                    outs.extend(self.eng.resume(st))
            except (E.Limit, E.Unsupported):
                self.limits[n] = str(ex)
                return
            finally:
                self.eng.opaque = old
        self.res[n] = [self.convert(o) for o in outs]

    def host_calls(self):
        """functions of the interpreter that are handed a host function"""
        def host(t, d=0):
            ty = self.ctx.types[t]
            if ty.get("def", "").endswith("::HostFunction"):
                return True
            return d < 3 and (ty["k"] in ("ref", "ptr") and host(ty["e"], d + 1) or ty.get("def", "").endswith("::Rc") and any(isinstance(a, int) and host(a, d + 1) for a in ty.get("a", ())))
        names = [re.escape(f.deff) for f in self.ctx.fns.values() if "tinywasm" in f.deff and "::interpreter::" in f.deff and f.deff != self.f.deff
                 and any(host(f.locals[i]) for i in range(1, f.argc + 1))]
        return re.compile("|".join([self.eng.opaque.pattern] + sorted(set(names))))

    def norm(self, t):
        return subst(t, self.names, self._memo)

    _memo = None

    def convert(self, o):
        if self._memo is None:
            self._memo = {}
        r = Out()
        r.o = o
        r.kind = o.kind
        r.trap = None
        r.value = None
        if o.kind == "return":
            v = o.value
            if v.k == "agg" and v.a[0] == E.RES:
                if v.a[1] == 1:
                    r.kind = "err"
                    r.trap = self.norm(v.a[2][0])
                else:
                    x = v.a[2][0]
                    r.kind = "ok" if x is E.NONE else "done"
                    r.value = self.norm(x)
            else:
                r.kind = "ret?"
                r.value = self.norm(v)
        elif o.kind == "panic":
            r.trap = o.why
        r.eff = {}
        for root, val in o.st.mem.items():
            if root.k == "H":
                continue
            old = mk("deref", root)
            for p, ov, nv in leaves(old, val):
                t = old
                for var, i in p:
                    t = fld(t, var, i)
                r.eff[self.norm(t)] = self.norm(nv)
        r.conds = [(self.norm(a), b, s) for a, b, s in o.conds]
        return r


def trapname(ctx, t):
    if t is not None and not isinstance(t, tuple) and t.k == "agg" and t.a[0].endswith("Trap"):
        for ty in ctx.types:
            if ty["k"] == "enum" and ty["def"] == t.a[0]:
                return ty["v"][t.a[1]][0]
    return None


class _Ev:
    __slots__ = ("events",)


def _seqmerge(ts, mk_):
    """one sequence term out of several of the same build-up, their written values merged"""
    t0 = ts[0]
    if all(t is t0 for t in ts):
        return t0
    if any(t.k == "push" for t in ts):
        s = _seqmerge([t.a[0] if t.k == "push" else E.spop(t) for t in ts], mk_)
        return None if s is None else E.spush(s, mk_([t.a[1] if t.k == "push" else E.slast(t) for t in ts]))
    if any(t.k != t0.k for t in ts):
        return None
    if t0.k == "store":
        if any(t.a[1] is not t0.a[1] for t in ts):
            return None
        s = _seqmerge([t.a[0] for t in ts], mk_)
        return None if s is None else E.sstore(s, t0.a[1], mk_([t.a[2] for t in ts]))
    if t0.k == "pop":
        s = _seqmerge([t.a[0] for t in ts], mk_)
        return None if s is None else E.spop(s)
    return None


def _outs_events(o):
    return [(ev.kind, ev.name, ev.args) for ev in o.o.events if ev.kind == "call"]


def join_outs(outs, ip, stacks):
    """the traces of one instruction with branches that only choose between values merged into one
    (the chosen value becomes a decision term); panicking traces are left out"""
    outs = [o for o in outs if o.kind != "panic"]

    def go(l, pos):
        if len(l) == 1:
            return l
        if any(len(o.conds) <= pos for o in l):
            return l
        br = {}
        keyt = None
        for o in l:
            a, b, _ = o.conds[pos]
            lab = b
            if a.k == "notin":
                a, lab = a.a[0], None
            if keyt is None:
                keyt = a
            elif keyt is not a:
                return l
            br.setdefault(lab, []).append(o)
        res = [(lab, go(x, pos + 1)) for lab, x in br.items()]
        flat = [o for _, x in res for o in x]
        if len(res) == 1 or any(len(x) != 1 or x[0].kind != "ok" for _, x in res):
            return flat
        os_ = [x[0] for _, x in res]
        ks = set(os_[0].eff)
        ev0 = _outs_events(os_[0])
        if any(set(o.eff) != ks or _outs_events(o) != ev0 for o in os_):
            return flat

        def mk_(vs):
            if all(v is vs[0] for v in vs):
                return vs[0]
            return sw(keyt, tuple((lab, v) for (lab, _), v in zip(res, vs)))
        eff = {}
        for k in ks:
            vs = [o.eff[k] for o in os_]
            if all(v is vs[0] for v in vs):
                eff[k] = vs[0]
                continue
            if k is ip:
                return flat
            if k in stacks:
                m = _seqmerge(vs, mk_)
                if m is None:
                    return flat
                eff[k] = m
            else:
                return flat
        r = Out()
        r.kind, r.trap, r.value, r.eff = "ok", None, os_[0].value, eff
        r.conds = os_[0].conds[:pos]
        r.o = _Ev()
        r.o.events = os_[0].o.events
        return [r]
    return go(outs, 0)
