"""A relational numeric domain: linear inequalities over the machine integers of a trace, with Fourier-Motzkin entailment.
A machine sum stands for the mathematical sum only where the facts so far bound it inside the type's range."""
from terms import *


def _norm(d):
    return {k: v for k, v in d.items() if v}


def fm_unsat(cons, budget=4000):
    """cons: list of (coeffs, const) meaning sum + const <= 0. True: no rational solution (hence no integer one)"""
    cons = [(dict(d), k) for d, k in cons]
    while True:
        live = []
        seen = set()
        for d, k in cons:
            d = _norm(d)
            if not d:
                if k > 0:
                    return True
                continue
            key = (tuple(sorted((id(x), v) for x, v in d.items())), k)
            if key not in seen:
                seen.add(key)
                live.append((d, k))
        cons = live
        if not cons:
            return False
        occ = {}
        for d, k in cons:
            for x, v in d.items():
                p = occ.setdefault(x, [0, 0])
                p[0 if v > 0 else 1] += 1
        x = min(occ, key=lambda z: occ[z][0] * occ[z][1])
        if occ[x][0] * occ[x][1] > budget:
            return False
        pos = [q for q in cons if q[0].get(x, 0) > 0]
        neg = [q for q in cons if q[0].get(x, 0) < 0]
        rest = [q for q in cons if not q[0].get(x, 0)]
        for dp, kp in pos:
            for dn, kn in neg:
                a, b = -dn[x], dp[x]
                d = {}
                for y, v in dp.items():
                    d[y] = d.get(y, 0) + v * a
                for y, v in dn.items():
                    d[y] = d.get(y, 0) + v * b
                d.pop(x, None)
                rest.append((d, kp * a + kn * b))
        cons = rest


class Lin:
    def __init__(self, axioms=None):
        self.cons = []
        self.atoms = {}
        self.memo = {}
        self.eqs = {}
        self.ax = axioms

    def clone(self):
        l = Lin(self.ax)
        l.cons, l.atoms, l.memo, l.eqs = list(self.cons), dict(self.atoms), dict(self.memo), dict(self.eqs)
        return l

    # ---- atoms
    def atom(self, t, w):
        if t not in self.atoms:
            self.atoms[t] = w
            hi = (1 << 63) - 1 if t.k == "len" else (1 << w) - 1
            self.cons.append(({t: -1}, 0))
            self.cons.append(({t: 1}, -hi))
            if self.ax:
                self.ax(self, t)
        return {t: 1}, 0

    def lin(self, t, w=64):
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self._lin(t, w)
        if not (len(r[0]) == 1 and r[1] == 0 and r[0].get(t) == 1):
            self.memo[t] = r
        return r

    def _lin(self, t, w):
        if isc(t):
            return {}, t.a[1]
        if t.k == "op" and t.a[0] == "zext":
            return self.lin(t.a[2], t.a[3])
        if t.k == "op" and t.a[0] == "add" and isinstance(t.a[1], int):
            w = t.a[1]
            d, k = {}, 0
            for x in t.a[2:]:
                sg = 1
                if x.k == "op" and x.a[0] == "neg":
                    sg, x = -1, x.a[2]
                if isc(x):
                    v = x.a[1]
                    k += sg * (v - (1 << w) if v >> (w - 1) else v)
                    continue
                e, c_ = self.lin(x, w)
                k += sg * c_
                for y, v in e.items():
                    d[y] = d.get(y, 0) + sg * v
            d = _norm(d)
            if self.unsat([(d, k + 1)]) and self.unsat([({y: -v for y, v in d.items()}, (1 << w) - k)]):
                return d, k
            return self.atom(t, w)
        if t.k == "op" and t.a[0] == "mul" and isinstance(t.a[1], int):
            w = t.a[1]
            cs = [x for x in t.a[2:] if isc(x)]
            xs = [x for x in t.a[2:] if not isc(x)]
            if len(cs) == 1 and len(xs) == 1:
                m = cs[0].a[1]
                d, k = self.lin(xs[0], w)
                d, k = {y: v * m for y, v in d.items()}, k * m
                if self.unsat([(d, k + 1)]) and self.unsat([({y: -v for y, v in d.items()}, (1 << w) - k)]):
                    return d, k
            return self.atom(t, w)
        return self.atom(t, w)

    # ---- queries
    def unsat(self, extra=()):
        need = set()
        for d, k in extra:
            need |= set(d)
        # only the constraints connected to the query
        cons = list(self.cons)
        pick, todo = [], set(need)
        if extra:
            changed = True
            while changed:
                changed = False
                for q in list(cons):
                    if any(x in todo for x in q[0]):
                        pick.append(q)
                        cons.remove(q)
                        todo |= set(q[0])
                        changed = True
        else:
            pick = cons
        return fm_unsat(pick + list(extra))

    def diff(self, a, b, w=64):
        """a - b as a linear form"""
        da, ka = self.lin(a, w)
        db, kb = self.lin(b, w)
        d = dict(da)
        for y, v in db.items():
            d[y] = d.get(y, 0) - v
        return _norm(d), ka - kb

    def lt(self, a, b, w=64):
        """are the facts enough for a < b"""
        d, k = self.diff(b, a, w)
        return self.unsat([(d, k)])                     # refute b - a <= 0

    def le(self, a, b, w=64):
        d, k = self.diff(b, a, w)
        return self.unsat([(d, k + 1)])                 # refute b - a <= -1

    def sum_le(self, terms, b, w=64):
        """mathematical sum of terms <= b (no wrap-around)"""
        d, k = {}, 0
        for t in terms:
            e, c_ = self.lin(t, w)
            k += c_
            for y, v in e.items():
                d[y] = d.get(y, 0) + v
        db, kb = self.lin(b, w)
        for y, v in db.items():
            d[y] = d.get(y, 0) - v
        # refute sum - b >= 1
        return self.unsat([({y: -v for y, v in _norm(d).items()}, 1 - (k - kb))])

    def sum_gt(self, terms, b, w=64):
        d, k = {}, 0
        for t in terms:
            e, c_ = self.lin(t, w)
            k += c_
            for y, v in e.items():
                d[y] = d.get(y, 0) + v
        db, kb = self.lin(b, w)
        for y, v in db.items():
            d[y] = d.get(y, 0) - v
        return self.unsat([(_norm(d), k - kb)])         # refute sum - b <= 0

    def infeasible(self):
        return self.unsat()

    # ---- facts
    def add(self, t, val):
        """a branch condition of the trace"""
        v = val is TRUE or (isc(val) and val.a[0] == 1 and val.a[1] == 1)
        if t.k == "op" and t.a[0] == "not" and t.a[1] == 1:
            return self.add(t.a[2], FALSE if v else TRUE)
        if t.k == "op" and t.a[0] == "and" and t.a[1] == 1 and v:
            for x in t.a[2:]:
                self.add(x, TRUE)
            return
        if t.k == "op" and t.a[0] == "or" and t.a[1] == 1 and not v:
            for x in t.a[2:]:
                self.add(x, FALSE)
            return
        if t.k == "op" and t.a[0] == "lt_u":
            w = t.a[1]
            if v:
                d, k = self.diff(t.a[2], t.a[3], w)
                self.cons.append((d, k + 1))
            else:
                d, k = self.diff(t.a[3], t.a[2], w)
                self.cons.append((d, k))
            return
        if t.k == "op" and t.a[0] == "eq" and isinstance(t.a[1], int):
            w = t.a[1]
            d, k = self.diff(t.a[2], t.a[3], w)
            n = {y: -x for y, x in d.items()}
            if v:
                self.cons.append((d, k))
                self.cons.append((n, -k))
            elif self.unsat([(d, k + 1)]):          # a >= b known: a > b
                self.cons.append((n, -k + 1))
            elif self.unsat([(n, -k + 1)]):
                self.cons.append((d, k + 1))
            return
        if t.k == "op" and t.a[0] == "ovf_add_u":
            w = t.a[1]
            d, k = {}, 0
            for x in t.a[2:]:
                e, c_ = self.lin(x, w)
                k += c_
                for y, q in e.items():
                    d[y] = d.get(y, 0) + q
            if v:
                self.cons.append(({y: -q for y, q in d.items()}, (1 << w) - k))
            else:
                self.cons.append((d, k - (1 << w) + 1))
            return
        if t.k == "op" and t.a[0] == "ovf_sub_u":
            w = t.a[1]
            d, k = self.diff(t.a[2], t.a[3], w)
            if v:
                self.cons.append((d, k + 1))
            else:
                self.cons.append(({y: -q for y, q in d.items()}, -k))
            return
        if t.k == "op" and t.a[0] == "ovf_mul_u":
            w = t.a[1]
            cs = [x for x in t.a[2:] if isc(x)]
            xs = [x for x in t.a[2:] if not isc(x)]
            if len(cs) == 1 and len(xs) == 1:
                d, k = self.lin(xs[0], w)
                m = cs[0].a[1]
                d, k = {y: q * m for y, q in d.items()}, k * m
                if v:
                    self.cons.append(({y: -q for y, q in d.items()}, (1 << w) - k))
                else:
                    self.cons.append((d, k - (1 << w) + 1))
            return


def facts(conds, axioms=None, skip=()):
    l = Lin(axioms)
    for c_ in conds:
        a, b = c_[0], c_[1]
        if a.k == "op":
            l.add(a, b)
    return l
