"""Sequential composition of per-instruction summaries (the value flow of an instruction sequence)."""
import engine as E
from terms import *
from summ import trapname

S32, S64, S128, IP, INS = mk("v", "S32"), mk("v", "S64"), mk("v", "S128"), mk("v", "ip"), mk("v", "I")


class CState:
    __slots__ = ("loc", "fact", "conds", "kind", "trap", "outs", "evs")

    def copy(self):
        s = CState()
        s.loc = dict(self.loc)
        s.fact = self.fact.copy()
        s.conds = list(self.conds)
        s.kind, s.trap = self.kind, self.trap
        s.outs = list(self.outs)
        s.evs = list(self.evs)
        return s


class Composer:
    def __init__(self, M, keep_ip=False):
        self.M = M
        self.e = M.eng
        self.keep_ip = keep_ip
        self.norm = None
        self.summaries = {}
        self.ins_def = M.insn_ty["def"]

    def start(self, loc=None):
        s = CState()
        s.loc = dict(loc or {})
        f = E.State()
        f.frames, f.locs, f.mem, f.known, f.ne = [], [], {}, {}, {}
        f.conds, f.ev, f.visits, f.n, f.steps, f.blocks = None, None, {}, 0, 0, None
        s.fact = f
        s.conds = []
        s.kind, s.trap = "ok", None
        s.outs = []
        s.evs = []
        return s

    def insn(self, name, fields=()):
        return mk("agg", self.ins_def, self.M.vidx[name], tuple(fields))

    def step(self, st, ins):
        """all successors of a state after one instruction; panics included (kind 'panic')"""
        name = self.M.insn_ty["v"][ins.a[1]][0]
        outs = self.summaries.get(name) or self.M.res.get(name)
        if outs is None:
            raise E.Limit("no summary for %s: %s" % (name, self.M.limits.get(name)))
        m = dict(st.loc)
        m[INS] = ins
        memo = {}
        res = []
        for o in outs:
            s = st.copy()
            good = True
            for a, b, site in o.conds:
                if a.k == "notin":
                    x = self.e.simp(s.fact, subst(a.a[0], m, memo))
                    if isc(x):
                        good = x.a[1] not in a.a[1]
                    else:
                        good = self.e.assume_ne(s.fact, x, a.a[1])
                        s.conds.append((mk("notin", x, a.a[1]), TRUE))
                    if not good:
                        break
                    continue
                x = self.e.simp(s.fact, subst(a, m, memo))
                if self.norm and not isc(x) and (s.fact.known or s.fact.ne):
                    y = self.norm(self.e, s.fact, x, {})
                    if y is not x:
                        x = self.e.simp(s.fact, y)
                if isc(x):
                    if x is not b and x.a[1] != b.a[1]:
                        good = False
                        break
                    continue
                if x.k == "agg" or not self.e.assume(s.fact, x, b):
                    good = False
                    break
                s.conds.append((x, b))
            if not good:
                continue
            loc = dict(st.loc)
            for k, v in o.eff.items():
                k2 = k if k in (S32, S64, S128, IP) else subst(k, m, memo)
                if k is IP and not self.keep_ip and o.kind == "ok":
                    continue
                loc[k2] = subst(v, m, memo)
            s.loc = loc
            s.kind = o.kind
            s.trap = subst(o.trap, m, memo) if isinstance(o.trap, T) else o.trap
            s.outs.append((name, o))
            for ev in o.o.events:
                if ev.kind == "call":
                    s.evs.append((ev.name, tuple(subst(self.M.norm(x), m, memo) if isinstance(x, T) else x for x in (ev.args or ()))))
            res.append(s)
        return res

    def run(self, seq, st=None):
        cur = [st or self.start()]
        done = []
        for ins in seq:
            nxt = []
            for s in cur:
                for r in self.step(s, ins):
                    (nxt if r.kind == "ok" else done).append(r)
            cur = nxt
        return cur + done

    def trap(self, s):
        return trapname(self.M.ctx, s.trap)
