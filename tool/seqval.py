"""Element-wise value of a sequence term: which element of which base sequence stands at a (linear) position, under the facts of a trace."""
from terms import *
from lin import _norm


def lsum(a, b, s=1):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) + s * v
    return _norm(d), a[1] + s * b[1]


class Unsettled(Exception):
    pass


class SeqVal:
    def __init__(self, l, memlen=None):
        self.l = l

    def ln(self, t):
        d, k = self.l.lin(t, 64)
        return dict(d), k

    def neg(self, p):
        """p < 0"""
        return self.l.unsat([({k: -v for k, v in p[0].items()}, -p[1])])        # refute p >= 0

    def nonneg(self, p):
        return self.l.unsat([(dict(p[0]), p[1] + 1)])                           # refute p <= -1

    def zero(self, p):
        return self.nonneg(p) and self.nonneg(({k: -v for k, v in p[0].items()}, -p[1]))

    def within(self, p, at, n):
        """True inside [at, at+n), False outside, None undetermined"""
        off = lsum(p, at, -1)
        if self.neg(off):
            return False
        end = lsum(off, n, -1)
        if self.nonneg(end):
            return False
        if self.nonneg(off) and self.neg(end):
            return True
        return None

    def elem(self, q, p):
        """("val", v) | ("el", base, linear) | None"""
        k = q.k
        if k == "splice" and len(q.a) == 4:
            D, at, n, src = q.a
            at = self.ln(at)
            r = self.within(p, at, self.ln(n))
            if r is None:
                return None
            return self.elem(src, lsum(p, at, -1)) if r else self.elem(D, p)
        if k == "cpw":
            D, src, n, dst = q.a
            dst = self.ln(dst)
            r = self.within(p, dst, self.ln(n))
            if r is None:
                return None
            return self.elem(D, lsum(lsum(p, dst, -1), self.ln(src))) if r else self.elem(D, p)
        if k == "seqrep":
            return "val", q.a[0]
        if k == "sub":
            return self.elem(q.a[0], lsum(p, self.ln(q.a[1])))
        if k == "store" and len(q.a) == 3:
            D, i, v = q.a
            off = lsum(p, self.ln(i), -1)
            if self.zero(off):
                return "val", v
            if self.neg(off) or self.neg(({x: -y for x, y in off[0].items()}, -off[1])):
                return self.elem(D, p)
            return None
        if k == "rsz":
            D, n, v = q.a
            r = self.within(p, ({}, 0), self.length(D))
            if r is None:
                return None
            return self.elem(D, p) if r else ("val", v)
        if k == "trc":
            return self.elem(q.a[0], p)
        return "el", q, p

    def fork(self, *cons):
        """the same facts with linear constraints (d, k): d + k <= 0 added, or None if they contradict"""
        l = self.l.clone()
        l.cons.extend(cons)
        return None if l.infeasible() else SeqVal(l)

    def cases(self, q, p, depth=0):
        """[(facts, element)] with the facts split where they do not settle which element it is"""
        r = self.elem(q, p)
        if r is not None or depth > 12:
            return [(self, r)]
        out = []
        neg = lambda x: ({k: -v for k, v in x[0].items()}, -x[1])
        x = q
        # the outermost constructor that is undetermined here; inner ones split later
        while True:
            k = x.k
            if k == "store" and len(x.a) == 3:
                at, n = self.ln(x.a[1]), ({}, 1)
            elif k == "splice" and len(x.a) == 4:
                at, n = self.ln(x.a[1]), self.ln(x.a[2])
            elif k == "cpw":
                at, n = self.ln(x.a[3]), self.ln(x.a[2])
            elif k == "rsz":
                at, n = ({}, 0), self.length(x.a[0])
            elif k == "sub":
                return [(self, None)]
            else:
                return [(self, None)]
            w = self.within(p, at, n)
            if w is None:
                break
            if w:
                return [(self, None)]
            x = x.a[0]
        off = lsum(p, at, -1)           # p - at
        end = lsum(off, n, -1)          # p - at - n
        lt = lambda e: (dict(e[0]), e[1] + 1)
        for f in (self.fork(lt(off)), self.fork(neg(off), lt(end)), self.fork(neg(end))):
            if f is not None:
                out.extend(f.cases(q, p, depth + 1))
        return out

    def length(self, q):
        k = q.k
        if k in ("splice", "cpw", "store"):
            return self.length(q.a[0])
        if k == "seqrep":
            return self.ln(q.a[1])
        if k == "sub":
            return self.ln(q.a[2])
        if k == "rsz":
            return self.ln(q.a[1])
        if k == "trc":
            n, L = self.ln(q.a[1]), self.length(q.a[0])
            if self.nonneg(lsum(n, L, -1)):
                return L
            if not self.nonneg(lsum(L, n, -1)):
                raise Unsettled("length after truncation")
            return n
        return self.ln(mk("len", q))

    def same(self, a, b, valeq=None):
        if a is None or b is None:
            return False
        if a[0] == "val" and b[0] == "val":
            return a[1] is b[1] or bool(valeq and valeq(a[1], b[1]))
        if a[0] == "val" and a[1].k == "sel":
            a = self.elem(a[1].a[0], self.ln(a[1].a[1]))
        if b[0] == "val" and b[1].k == "sel":
            b = self.elem(b[1].a[0], self.ln(b[1].a[1]))
        if a is None or b is None or a[0] != b[0]:
            return False
        return a[1] is b[1] and self.zero(lsum(a[2], b[2], -1))
