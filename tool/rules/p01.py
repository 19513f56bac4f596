"""Scalar operators: the lowering of each operator, run through the executor's summaries, is the WebAssembly operator."""
import re
import engine as E
from terms import *
from lib import extract
from lower import LowerModel
from summ import ExecModel
from compose import Composer, S32, S64, S128, IP

LEVEL = "proof"
ST = {"i32": S32, "f32": S32, "i64": S64, "f64": S64}
W = {"i32": 32, "i64": 64, "f32": 32, "f64": 64}


def b2i(t):
    return zext(32, 1, t)


def fv(ty, x):
    return from_bits(ty, x)


def cf(ty, v):
    return mk("cf", ty, d2f(ty, v))


def spec_table():
    """operator -> (parameter types, result types, kind, function)"""
    t = {}

    def pure(name, ps, rs, f):
        t[name] = (ps, rs, "pure", f)
    for w, ty in ((32, "i32"), (64, "i64")):
        b = lambda o, w=w: (lambda x, y: op(o, w, x, y))
        u = lambda o, w=w: (lambda x: op(o, w, x))
        for n, o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("and", "and"), ("or", "or"), ("xor", "xor"), ("shl", "shl"),
                     ("shr_s", "shr_s"), ("shr_u", "shr_u"), ("rotl", "rotl"), ("rotr", "rotr")):
            pure("%s_%s" % (ty, n), (ty, ty), (ty,), b(o))
        for n in ("clz", "ctz", "popcnt"):
            pure("%s_%s" % (ty, n), (ty,), (ty,), u(n))
        for n, f in (("eq", lambda x, y, w=w: op("eq", w, x, y)), ("ne", lambda x, y, w=w: op("not", 1, op("eq", w, x, y)))):
            pure("%s_%s" % (ty, n), (ty, ty), ("i32",), lambda x, y, f=f: b2i(f(x, y)))
        pure("%s_eqz" % ty, (ty,), ("i32",), lambda x, w=w: b2i(op("eq", w, x, c(w, 0))))
        for sg in "su":
            lt = "lt_" + sg
            pure("%s_lt_%s" % (ty, sg), (ty, ty), ("i32",), lambda x, y, w=w, lt=lt: b2i(op(lt, w, x, y)))
            pure("%s_gt_%s" % (ty, sg), (ty, ty), ("i32",), lambda x, y, w=w, lt=lt: b2i(op(lt, w, y, x)))
            pure("%s_ge_%s" % (ty, sg), (ty, ty), ("i32",), lambda x, y, w=w, lt=lt: b2i(op("not", 1, op(lt, w, x, y))))
            pure("%s_le_%s" % (ty, sg), (ty, ty), ("i32",), lambda x, y, w=w, lt=lt: b2i(op("not", 1, op(lt, w, y, x))))
            t["%s_div_%s" % (ty, sg)] = ((ty, ty), (ty,), "div", ("div_" + sg, w))
            t["%s_rem_%s" % (ty, sg)] = ((ty, ty), (ty,), "rem", ("rem_" + sg, w))
        for k in (8, 16):
            pure("%s_extend%d_s" % (ty, k), (ty,), (ty,), lambda x, w=w, k=k: sext(w, k, trunc(k, x, w)))
        t["%s_const" % ty] = ((), (ty,), "const", None)
    pure("i64_extend32_s", ("i64",), ("i64",), lambda x: sext(64, 32, trunc(32, x, 64)))
    pure("i64_extend_i32_s", ("i32",), ("i64",), lambda x: sext(64, 32, x))
    pure("i64_extend_i32_u", ("i32",), ("i64",), lambda x: zext(64, 32, x))
    pure("i32_wrap_i64", ("i64",), ("i32",), lambda x: trunc(32, x, 64))
    for a, b_ in (("i32", "f32"), ("f32", "i32"), ("i64", "f64"), ("f64", "i64")):
        pure("%s_reinterpret_%s" % (a, b_), (b_,), (a,), lambda x: x)
    for ty in ("f32", "f64"):
        w = W[ty]
        for n in ("add", "sub", "mul", "div"):
            pure("%s_%s" % (ty, n), (ty, ty), (ty,), lambda x, y, n=n, ty=ty: bits_of(ty, fop(n, ty, fv(ty, x), fv(ty, y))))
        for n in ("abs", "ceil", "floor", "trunc", "sqrt"):
            pure("%s_%s" % (ty, n), (ty,), (ty,), lambda x, n=n, ty=ty: bits_of(ty, mk("op", "f." + n, ty, fv(ty, x))))
        pure("%s_neg" % ty, (ty,), (ty,), lambda x, ty=ty: bits_of(ty, fop("neg", ty, fv(ty, x))))
        pure("%s_copysign" % ty, (ty, ty), (ty,), lambda x, y, ty=ty: bits_of(ty, mk("op", "f.copysign", ty, fv(ty, x), fv(ty, y))))
        for n in ("eq", "ne", "lt", "gt", "le", "ge"):
            pure("%s_%s" % (ty, n), (ty, ty), ("i32",), lambda x, y, n=n, ty=ty: b2i(fop(n, ty, fv(ty, x), fv(ty, y))))
        for n in ("min", "max"):
            t["%s_%s" % (ty, n)] = ((ty, ty), (ty,), "minmax", (n, ty))
        t["%s_nearest" % ty] = ((ty,), (ty,), "nearest", ty)
        t["%s_const" % ty] = ((), (ty,), "const", None)
        for it in ("i32", "i64"):
            for sg in "su":
                pure("%s_convert_%s_%s" % (ty, it, sg), (it,), (ty,),
                     lambda x, ty=ty, it=it, sg=sg: bits_of(ty, fop("itof_" + sg, ty, x, W[it])))
                t["%s_trunc_%s_%s" % (it, ty, sg)] = ((ty,), (it,), "ftoi", (ty, it, sg))
                pure("%s_trunc_sat_%s_%s" % (it, ty, sg), (ty,), (it,),
                     lambda x, ty=ty, it=it, sg=sg: mk("op", "ftoi_sat_" + sg, W[it], fv(ty, x), ty))
    pure("f32_demote_f64", ("f64",), ("f32",), lambda x: bits_of("f32", mk("op", "ftof", "f32", fv("f64", x), "f64")))
    pure("f64_promote_f32", ("f32",), ("f64",), lambda x: bits_of("f64", mk("op", "ftof", "f64", fv("f32", x), "f32")))
    i4 = ("i64",) * 4
    add, neg = (lambda *x: op("add", 64, *x)), (lambda x: op("neg", 64, x))
    bo = lambda t_: zext(64, 1, t_)
    pure("i64_add128", i4, ("i64", "i64"),
         lambda al, ah, bl, bh: (add(al, bl), add(ah, bh, bo(op("lt_u", 64, add(al, bl), al)))))
    pure("i64_sub128", i4, ("i64", "i64"),
         lambda al, ah, bl, bh: (op("sub", 64, al, bl), add(ah, neg(bh), neg(bo(op("lt_u", 64, al, bl))))))
    for sg in "su":
        e = zext if sg == "u" else sext
        pure("i64_mul_wide_" + sg, ("i64", "i64"), ("i64", "i64"),
             lambda x, y, e=e, sg=sg: (op("mul", 64, x, y), trunc(64, op("shr_" + sg, 128, op("mul", 128, e(128, 64, x), e(128, 64, y)), c(128, 64)), 128)))
    return t


def alts(name, args, want):
    """other spellings of the same function that the normal form does not identify"""
    if name in ("i64_add128",):
        al, ah, bl, bh = args
        r = list(want)
        r[1] = op("add", 64, ah, bh, zext(64, 1, op("lt_u", 64, op("add", 64, al, bl), bl)))
        r2 = list(want)
        r2[1] = op("add", 64, ah, bh, zext(64, 1, mk("op", "ovf_add_u", 64, al, bl)))
        full = lambda l, h: op("or", 128, zext(128, 64, l), op("shl", 128, zext(128, 64, h), c(128, 64)))
        s = op("add", 128, full(al, ah), full(bl, bh))
        r3 = [trunc(64, s, 128), trunc(64, op("shr_u", 128, s, c(128, 64)), 128)]
        return [want, tuple(r), tuple(r2), tuple(r3)]
    return [want]


# ---------------------------------------------------------------- float case analysis
def fkey(ty, bits):
    """total order on float bit patterns (no NaN) as integers; -0 and +0 are adjacent"""
    w = W[ty]
    return -(bits & ((1 << (w - 1)) - 1)) - 1 if bits >> (w - 1) else bits


def fbits(ty, k):
    w = W[ty]
    return k if k >= 0 else (1 << (w - 1)) | (-k - 1)


class Line:
    """the real line of a float type cut at the constants a set of conditions mentions: inside a cell every comparison of
    x with such a constant has one value"""

    def __init__(self, ty, x, consts):
        self.ty, self.x = ty, x
        inf = fkey(ty, 0x7f800000 if ty == "f32" else 0x7ff0000000000000)
        pts = {inf, -inf - 1, 0, -1}
        for v in consts:
            pts |= {fkey(ty, v)}
        pts = sorted(pts)
        self.cells = []
        lo = -inf - 1
        for p in pts:
            if p > lo:
                self.cells.append((lo, p - 1))
            self.cells.append((p, p))
            lo = p + 1
        self.cells.append("nan")

    def val(self, t, cell):
        """interval of a monotone expression of x"""
        ty = self.ty
        if t is self.x:
            return cell
        if t.k == "cf":
            k = fkey(ty, t.a[1])
            return (k, k)
        if t.k == "op" and t.a[0] in ("f.trunc", "f.floor", "f.ceil") and t.a[2] is self.x and cell != "nan":
            import math
            f = {"f.trunc": math.trunc, "f.floor": math.floor, "f.ceil": math.ceil}[t.a[0]]
            r = []
            for k in cell:
                v = f2d(ty, fbits(ty, k))
                if v in (float("inf"), float("-inf")):
                    r.append(k)
                    continue
                q = float(f(v))
                if q == 0 and (v < 0 or k < 0):
                    q = -0.0
                r.append(fkey(ty, d2f(ty, q)))
            return tuple(r)
        return None

    def ev(self, t, cell):
        if isc(t):
            return bool(t.a[1])
        if t.k == "op" and t.a[0] == "not" and t.a[1] == 1:
            r = self.ev(t.a[2], cell)
            return None if r is None else not r
        if t.k == "op" and t.a[1] == 1 and t.a[0] in ("and", "or"):
            rs = [self.ev(x, cell) for x in t.a[2:]]
            if t.a[0] == "and":
                return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if t.k == "op" and t.a[0] in ("lt", "le", "eq") and t.a[1] == self.ty:
            a, b = t.a[2], t.a[3]
            if cell == "nan":
                if self.x in (a, b) or any(self.x in subterms(z) for z in (a, b)):
                    return False
                return None
            if t.a[0] == "eq" and a is b:
                return True
            va, vb = self.val(a, cell), self.val(b, cell)
            if va is None or vb is None:
                return None
            z = lambda k: 0 if k == -1 else k       # -0 == +0
            (al, ah), (bl, bh) = [tuple(map(z, q)) for q in (va, vb)]
            if t.a[0] == "lt":
                return True if ah < bl else (False if al >= bh else None)
            if t.a[0] == "le":
                return True if ah <= bl else (False if al > bh else None)
            if al == ah == bl == bh:
                return True
            return False if ah < bl or bh < al else None
        if t.k == "op" and t.a[0] in ("f.is_infinite", "f.is_finite", "f.is_sign_negative", "f.is_sign_positive") and t.a[2] is self.x:
            inf = fkey(self.ty, 0x7f800000 if self.ty == "f32" else 0x7ff0000000000000)
            n = t.a[0]
            if n in ("f.is_infinite", "f.is_finite"):
                if cell == "nan":
                    return False
                r = cell in ((inf, inf), (-inf - 1, -inf - 1))
                return r if n == "f.is_infinite" else not r
            if cell == "nan":
                return None
            return (cell[1] < 0) == (n == "f.is_sign_negative")
        return None


def float_consts(conds, ty):
    out = set()
    for a, b in conds:
        for s in subterms(a):
            if s.k == "cf" and s.a[0] == ty and ffinite(s):
                out.add(s.a[1])
                out.add(fnext(ty, s.a[1], True) if s.a[1] & ((1 << (W[ty] - 1)) - 1) else s.a[1])
    return out


class Check:
    def __init__(self, chk):
        self.chk = chk
        self.traces = 0
        db = extract(("-p", "tinywasm"), ["tinywasm_types", "tinywasm_parser", "tinywasm"])
        self.table = spec_table()
        self.L = LowerModel(db, only=set(self.table))
        names = set()
        for n in self.table:
            for o in self.L.res.get(n, ()):
                for y in o.emitted or ():
                    i = self.L.insn(y)
                    if i:
                        names.add(i[0])
        self.M = ExecModel(db, only=names)
        self.C = Composer(self.M)
        self.db = db

    def reads(self, n):
        f = self.L.fns.get(n)
        return "%s:%s" % (f.file, f.line) if f else ""

    def run(self):
        chk = self.chk
        for n, (ps, rs, kind, f) in sorted(self.table.items()):
            chk.attempt("operator", self.one, n, ps, rs, kind, f)
        chk.extra.update({"traces_compared": self.traces, "operators": len(self.table),
                          "executor_instructions_summarised": len(self.M.res), "lowering_functions": len(self.L.res)})

    def one(self, n, ps, rs, kind, f):
        chk = self.chk
        where = self.reads(n)
        los = self.L.res.get(n)
        if not los:
            return chk.ob("operator", n, False, where, "no accepting lowering found (%s)" % self.L.limits.get(n, "visitor method missing"))
        seqs = {}
        for l in los:
            if l.emitted is None or l.popn:
                return chk.ob("operator", n, False, where, "the lowering rewrites earlier instructions")
            seqs.setdefault(tuple(l.emitted), l)
        for seq in seqs:
            self.seq(n, ps, rs, kind, f, seq, where)

    def seq(self, n, ps, rs, kind, f, seq, where):
        chk = self.chk
        # operands: the last parameter is on top of its stack
        st = {S32: S32, S64: S64}
        args = []
        for p in reversed(ps):
            s = ST[p]
            args.append(E.slast(st[s]))
            st[s] = E.spop(st[s])
        args.reverse()
        if kind == "const":
            want = None
            ins = [self.L.insn(y) for y in seq]
        outs = self.C.run(seq)
        if not seq:
            outs = [self.C.start()]
        outs = [o for o in outs if not self.excluded(o)]
        ok, why = True, ""

        def after(res):
            d = dict(st)
            for r, ty in zip(res, rs):
                d[ST[ty]] = E.spush(d[ST[ty]], r)
            return d

        def same_state(o, d):
            for s in (S32, S64, S128):
                if o.loc.get(s, s) is not d.get(s, s):
                    return False
            return all(k in (S32, S64, S128, IP) for k in o.loc)

        def got(o):
            return "%s %s %s" % (o.kind, self.C.trap(o) or "", {show(k): show(v) for k, v in o.loc.items()})
        self.traces += len(outs)
        desc = lambda o: "%s where %s" % (got(o), [(show(a), show(b)) for a, b in o.conds][:6])
        for o in outs:
            if o.kind == "panic":
                ok, why = False, "can panic: " + str(o.trap)[:200]
                break
            if kind == "pure":
                want = f(*args)
                want = want if isinstance(want, tuple) else (want,)
                if o.kind != "ok" or not any(same_state(o, after(a)) for a in alts(n, args, want)):
                    wf = self.facts_eq(o, after(want)) if o.kind == "ok" else False
                    if not wf:
                        ok, why = False, "expected %s, found %s" % ({show(k): show(v) for k, v in after(want).items()}, desc(o))
            elif kind == "const":
                v = mk("v", "a1")
                if rs[0] in ("f32", "f64"):
                    good = o.kind == "ok"
                    z = o.loc.get(ST[rs[0]])
                    good = good and z is not None and z.k == "push" and z.a[0] is ST[rs[0]] and v in list(subterms(z.a[1])) \
                        and all(k in (ST[rs[0]], IP) for k in o.loc) and z.a[1].k == "call" and ("Ieee%s" % W[rs[0]]) in str(z.a[1].a[0])
                else:
                    good = o.kind == "ok" and same_state(o, after((v,)))
                if not good:
                    ok, why = False, "expected the immediate on the operand stack, found " + desc(o)
            elif kind in ("div", "rem"):
                nm, w = f
                a, b = args
                fx = o.fact
                z = self.C.e.simp(fx, op("eq", w, b, c(w, 0)))
                mn = self.C.e.simp(fx, op("and", 1, op("eq", w, a, c(w, 1 << (w - 1))), op("eq", w, b, c(w, -1))))
                tr = self.C.trap(o)
                if z is TRUE:
                    good = o.kind == "err" and tr == "DivisionByZero"
                elif z is not FALSE:
                    good = False
                elif nm == "div_s" and mn is TRUE:
                    good = o.kind == "err" and tr == "IntegerOverflow"
                elif nm == "div_s" and mn is not FALSE:
                    good = False
                elif nm == "rem_s" and mn is TRUE:
                    good = o.kind == "ok" and (same_state(o, after((c(w, 0),))) or same_state(o, after((op(nm, w, a, b),))))
                else:
                    good = o.kind == "ok" and same_state(o, after((op(nm, w, a, b),)))
                if not good:
                    ok, why = False, "wrong result for %s: %s" % (n, desc(o))
            if not ok:
                break
        if ok and kind == "ftoi":
            ok, why = self.ftoi(n, f, args, outs, after, same_state, desc)
        if ok and kind == "minmax":
            ok, why = self.minmax(n, f, args, outs, after, same_state, desc)
        if ok and kind == "nearest":
            ok, why = self.nearest(n, f, args, outs, after, same_state, desc)
        if ok and kind in ("div", "rem"):
            ok = {"err", "ok"} <= {o.kind for o in outs}
            why = "a branch is missing"
        if ok and not outs:
            ok, why = False, "no outcome"
        chk.ob("operator", n, ok, where, why)

    def facts_eq(self, o, d):
        for s in (S32, S64, S128):
            x, y = o.loc.get(s, s), d.get(s, s)
            if x is not y and self.C.e.simp(o.fact, self.deep(o, x)) is not self.C.e.simp(o.fact, self.deep(o, y)):
                return False
        return all(k in (S32, S64, S128, IP) for k in o.loc)

    def deep(self, o, x):
        m = {k: v for k, v in o.fact.known.items()}
        return subst(x, m)

    def excluded(self, o):
        """stack underflow, which validated code does not reach (property P02 ties the depths together), and the
        operand-stack limit (property P10)"""
        if o.kind == "panic":
            s = str(o.trap)
            return any(z in s for z in ("underflow", "unwrap", "expect", "unreachable", "index", "slice", "split", "range", "drain")) and \
                all(z not in s for z in ("ovf:", "div_zero", "rem_zero"))
        if o.kind == "err":
            t = o.trap
            return bool(t is not None and self.C.trap(o) in ("ValueStackOverflow", "StackOverflow"))
        return False

    # the float to integer conversions that trap
    def ftoi(self, n, f, args, outs, after, same_state, desc):
        ty, it, sg = f
        w = W[it]
        x = from_bits(ty, args[0])
        lo = float(-(1 << (w - 1))) if sg == "s" else 0.0
        hi = float(1 << (w - 1)) if sg == "s" else float(1 << w)
        # smallest float whose truncation is below the range: x <= lo - 1 (or the next float below lo)
        if sg == "s":
            below = d2f(ty, lo - 1.0)
            if f2d(ty, below) >= lo:
                below = fnext(ty, d2f(ty, lo), False)
            # the largest float <= lo - 1
            while f2d(ty, below) > lo - 1.0 and f2d(ty, below) < lo and float(int(f2d(ty, below))) >= lo:
                below = fnext(ty, below, False)
        else:
            below = d2f(ty, -1.0)
        above = d2f(ty, hi)
        conds = [cd for o in outs for cd in o.conds]
        L = Line(ty, x, float_consts(conds, ty) | {below, above, fnext(ty, below, True), fnext(ty, above, False)})
        kb, ka = fkey(ty, below), fkey(ty, above)
        for cell in L.cells:
            hit = []
            for o in outs:
                vs = [(L.ev(a, cell), b is TRUE, a) for a, b in o.conds if x in subterms(a)]
                if any(v is None for v, _, _ in vs):
                    return False, "a condition that is not a comparison of the operand: %s" % show([a for v, _, a in vs if v is None][0])
                if all(v == b for v, b, _ in vs):
                    hit.append(o)
            if not hit:
                return False, "no outcome for operands in %s" % self.cellname(ty, cell)
            for o in hit:
                tr = self.C.trap(o)
                if cell == "nan":
                    good, e = o.kind == "err" and tr == "InvalidConversionToInt", "InvalidConversionToInt"
                elif cell[1] <= kb or cell[0] >= ka:
                    good, e = o.kind == "err" and tr == "IntegerOverflow", "IntegerOverflow"
                else:
                    good, e = o.kind == "ok" and same_state(o, after((mk("op", "ftoi_sat_" + sg, w, x, ty),))), "the truncated value"
                if not good:
                    return False, "for operands in %s expected %s, found %s" % (self.cellname(ty, cell), e, desc(o))
        return True, ""

    def cellname(self, ty, cell):
        if cell == "nan":
            return "{NaN}"
        return "[%r, %r]" % (f2d(ty, fbits(ty, cell[0])), f2d(ty, fbits(ty, cell[1])))

    def nan(self, ty):
        return c(W[ty], 0x7fc00000 if ty == "f32" else 0x7ff8000000000000)

    def minmax(self, n, f, args, outs, after, same_state, desc):
        nm, ty = f
        xa, xb = args
        a, b = from_bits(ty, xa), from_bits(ty, xb)
        T3 = {True: True, False: False}

        def ev(t, w):
            """truth of a condition in the abstract state w = (order, a negative, b negative, a nan, b nan)"""
            o, na, nb, an, bn = w
            if t.k == "op" and t.a[0] == "not":
                r = ev(t.a[2], w)
                return None if r is None else not r
            if t.k == "op" and t.a[1] == 1 and t.a[0] in ("and", "or"):
                rs = [ev(x, w) for x in t.a[2:]]
                if t.a[0] == "and":
                    return False if False in rs else (True if all(r is True for r in rs) else None)
                return True if True in rs else (False if all(r is False for r in rs) else None)
            if t.k == "op" and t.a[1] == ty and t.a[0] in ("lt", "le", "eq"):
                p, q = t.a[2], t.a[3]
                if p is q:
                    if p is a:
                        return t.a[0] != "lt" and not an
                    if p is b:
                        return t.a[0] != "lt" and not bn
                if {p, q} == {a, b}:
                    if o == "un":
                        return False
                    oo = o if p is a else {"lt": "gt", "gt": "lt", "eq": "eq"}[o]
                    return {"lt": oo == "lt", "le": oo in ("lt", "eq"), "eq": oo == "eq"}[t.a[0]]
            if t.k == "op" and t.a[0] in ("f.is_sign_negative", "f.is_sign_positive"):
                s = na if t.a[2] is a else nb if t.a[2] is b else None
                if s is not None:
                    return s == (t.a[0] == "f.is_sign_negative")
            if t.k == "op" and t.a[0] in ("lt_s",) and t.a[1] == W[ty] and isc(t.a[3]) and t.a[3].a[1] == 0:
                return na if t.a[2] is xa else nb if t.a[2] is xb else None
            return None
        worlds = []
        for o in ("lt", "gt", "eq", "un"):
            for na in (True, False):
                for nb in (True, False):
                    if o == "lt" and (not na and nb) or o == "gt" and (na and not nb):
                        continue
                    for an, bn in ([(False, False)] if o != "un" else [(True, True), (True, False), (False, True)]):
                        worlds.append((o, na, nb, an, bn))
        res = lambda t: same_state
        for w in worlds:
            hit = [o for o in outs if all(ev(x, w) in (None, y is TRUE) for x, y in o.conds)]
            if not hit:
                return False, "no outcome for the case %s" % (w,)
            o_, na, nb, an, bn = w
            for o in hit:
                va = same_state(o, after((xa,)))
                vb = same_state(o, after((xb,)))
                if o_ == "un":
                    good = same_state(o, after((self.nan(ty),)))
                elif o_ == "eq":
                    if na == nb:
                        good = va or vb
                    else:
                        wa = na if nm == "min" else nb      # the answer is a
                        good = va if wa else vb
                else:
                    wa = (o_ == "lt") == (nm == "min")
                    good = va if wa else vb
                if not good and o.kind == "ok":
                    # the sign-aware standard operations agree once NaN is out of the way
                    std = {"min": "minimum", "max": "maximum"}[nm]
                    if o_ != "un":
                        good = any(same_state(o, after((bits_of(ty, mk("op", "f." + std, ty, p, q)),))) for p, q in ((a, b), (b, a)))
                if not good:
                    return False, "when a %s b (a negative: %s, b negative: %s): %s" % (o_, na, nb, desc(o))
        return True, ""

    def nearest(self, n, ty, args, outs, after, same_state, desc):
        x = from_bits(ty, args[0])
        rnd = mk("op", "f.round", ty, x)
        half = mk("op", "f.abs", ty, fop("sub", ty, x, rnd))
        rem2 = mk("op", "rem", ty, rnd, cf(ty, 2.0))
        sg = mk("op", "f.signum", ty, x)
        conds = [cd for o in outs for cd in o.conds]
        cs = float_consts(conds, ty) | {d2f(ty, v) for v in (0.5, -0.5, 1.0, -1.0)}
        L = Line(ty, x, cs | {fnext(ty, d2f(ty, v), u) for v in (0.5, -0.5) for u in (True, False)})
        h, o1 = fkey(ty, d2f(ty, 0.5)), fkey(ty, d2f(ty, 1.0))
        inf = fkey(ty, 0x7f800000 if ty == "f32" else 0x7ff0000000000000)
        for cell in L.cells:
            # |x - round(x)| == 0.5 and the parity of round(x)
            if cell == "nan":
                subs = [("nan", None, None)]
            elif cell in ((inf, inf), (-inf - 1, -inf - 1), (0, 0), (-1, -1)):
                subs = [("same", None, None)]
            else:
                kl, kh = cell
                mag = (kl, kh) if kl >= 0 else (-kh - 1, -kl - 1)
                if mag[1] < h:
                    subs = [("zero", False, True)]
                elif mag == (h, h):
                    subs = [("zero", True, False)]
                else:
                    subs = [("round", False, None), ("round", True, True), ("down", True, False)]
                    if mag[1] < o1:
                        subs = [("round", False, False)]
            for want, ishalf, even in subs:
                def ev(t):
                    if t.k == "op" and t.a[0] == "not" and t.a[1] == 1:
                        r = ev(t.a[2])
                        return None if r is None else not r
                    if t.k == "op" and t.a[0] == "eq" and t.a[1] == ty:
                        p = set(t.a[2:])
                        if half in p and cf(ty, 0.5) in p:
                            return ishalf
                        if rem2 in p and mk("cf", ty, 0) in p:
                            return even
                    return L.ev(t, cell)
                hit = [o for o in outs if all(ev(p) in (None, q is TRUE) for p, q in o.conds)]
                if not hit:
                    return False, "no outcome for operands in %s" % self.cellname(ty, cell)
                sgn = c(W[ty], 1 << (W[ty] - 1))
                for o in hit:
                    r = lambda t: same_state(o, after((bits_of(ty, t),)))
                    neg = cell != "nan" and cell[1] < 0
                    rte = r(mk("op", "f.round_ties_even", ty, x))
                    if want == "nan":
                        good = same_state(o, after((self.nan(ty),)))
                    elif want == "same":
                        good = same_state(o, after((args[0],))) or rte
                    elif want == "zero":
                        good = same_state(o, after((sgn if neg else c(W[ty], 0),))) or rte or (not ishalf and r(rnd))
                    elif want == "round":
                        good = r(rnd) or rte
                    else:
                        good = r(fop("sub", ty, rnd, sg)) or rte or r(fop("sub", ty, rnd, cf(ty, -1.0 if neg else 1.0)))
                    if not good:
                        return False, "for operands in %s (%s%s): %s" % (self.cellname(ty, cell), want, ", halfway" if ishalf else "", desc(o))
        return True, ""


def run(chk):
    chk.rule("operator", "for each scalar operator, the instruction sequence the lowering emits, composed from the executor's "
             "per-instruction value-flow summaries, leaves exactly the operand stacks the WebAssembly specification prescribes "
             "on every trace (same operands, same order, same result term, same traps), case by case over the branch conditions", floor=130)
    chk.assume = ["floating-point primitives of core/std (add, sqrt, ceil, round, casts) are IEEE-754 and not re-proved",
                  "operand underflow is excluded by validation (wasmparser)",
                  "facts are of the default-feature build of the crate for this target"]
    Check(chk).run()
