"""Every rewrite of the optimizer preserves the meaning of the code it replaces."""
import os
import re
from collections import Counter
import engine as E
from terms import *
from terms import rebuild
from engine import sel, sstore
from lib import extract, Missing, parmap
from opt import OptModel, contains_vec
from summ import ExecModel, trapname, join_outs, Out
from compose import Composer, S32, S64, S128, IP

LEVEL = "proof"
STK = (S32, S64, S128)
NUMERIC = re.compile(r"[IF](32|64)[A-Z]")
FCMP = re.compile(r"^F(32|64)(Min|Max)$")
COMMUTE = re.compile(r"::(v128_and|v128_or|v128_xor|i64x2_add|i64x2_mul)$")


def pushes_pops(t, base):
    """(pops, pushes) of a stack term relative to its initial value; None when it is not that simple"""
    push = pop = 0
    while t is not base:
        if t.k == "push":
            if pop:
                return None
            push += 1
        elif t.k == "pop":
            pop += 1
        elif t.k != "store":
            return None
        t = t.a[0]
    return pop, push


class Runner:
    """runs instruction sequences through the executor summaries, following falls-through and jumps"""

    def __init__(self, M, joined=True):
        self.M = M
        self.C = Composer(M, keep_ip=True)
        self.C.norm = normf
        if not hasattr(M, "raw"):
            M.raw = M.res
            M.joined = {n: join_outs(M.raw[n], IP, STK) for n in M.raw}
        self.use = M.joined if joined else M.raw
        self.shape = {}
        self.refs = {}

    def is_ref(self, o):
        """the outcome pushes a reference (the value it dispatched on is the reference case of a tagged value)"""
        r = self.refs.get(id(o))
        if r is None:
            r = False
            for a, b, _ in o.conds:
                if a.k == "discr" and isc(b) and len(a.a) > 1:
                    t = self.M.ctx
                    v = self.M.tagged.get(b.a[1]) if len(a.a[1]) == len(self.M.tagged) and a.a[0].k == "fld" else None
                    if v and "Ref" in v:
                        r = True
            self.refs[id(o)] = r
        return r

    def out_shape(self, o):
        r = self.shape.get(id(o))
        if r is None:
            r = []
            for b in STK:
                x = o.eff.get(b)
                r.append(pushes_pops(x, b) if x is not None else (0, 0))
            self.shape[id(o)] = r
        return r

    def step(self, s, ins):
        """successors of one instruction: (state, 'next' | ('jump', target) | kind)"""
        out = []
        self.M.res = self.use
        ts = s.outs[0] if s.outs and isinstance(s.outs[0], tuple) and s.outs[0][0] == "types" else ("types", ())
        for n in self.C.step(s, ins):
            name, o = n.outs[-1]
            stack = list(ts[1])
            ok = True
            if n.kind in ("ok", "err"):
                sh = self.out_shape(o)
                if any(x is None for x in sh):
                    stack = []
                else:
                    need = Counter({i: sh[i][0] for i in range(3)})
                    tot = sum(need.values())
                    # the values popped are the topmost ones, whatever their width
                    top = stack[-tot:] if tot else []
                    if "r" in top and NUMERIC.match(name):
                        ok = False
                    top = [0 if x == "r" else x for x in top]
                    have = Counter(top)
                    if any(have[i] > need[i] for i in have):
                        ok = False
                    if len(stack) >= tot and tot and have != +need:
                        ok = False
                    stack = stack[:-tot] if tot and len(stack) > tot else ([] if tot else stack)
                    for i in range(3):
                        stack += ["r" if i == 0 and sh[0][1] == 1 and self.is_ref(o) else i] * sh[i][1]
            if not ok:
                continue
            n.outs = [("types", tuple(stack))] + [x for x in n.outs if x[0] != "types"]
            how = n.kind
            if n.kind == "panic":
                continue        # whether a panic can happen at all is P09's question
            if n.kind == "ok":
                ip = n.loc.pop(IP, None)
                if ip is None or ip is op("add", 64, IP, c(64, 1)) or ip is op("add", 32, IP, c(32, 1)):
                    how = "next"
                else:
                    how = ("jump", ip)
            out.append((n, how))
        return out

    def run(self, seq, st):
        cur = [(st, "next")]
        for ins in seq:
            nxt = []
            for s, how in cur:
                if how == "next":
                    nxt += self.step(s, ins)
                else:
                    nxt.append((s, how))
            cur = nxt
        return cur


def run(chk):
    chk.rule("rewrite", "a replaced instruction sequence and its replacement, run through the executor's summaries from the same state, "
             "leave the same operand stacks and locals, do the same memory accesses in the same order, trap alike and continue at the same place", 150)
    chk.rule("analysed", "every arm of the rewriter is within the analysis", 1)
    db = extract(crates=["tinywasm_types", "tinywasm_parser", "tinywasm"])
    chk.attempt("rewrite", rewrites, chk, db)


def names_of(M, r, seq):
    out = []
    for x in seq:
        if x.k == "agg":
            out.append(M.insn_ty["v"][x.a[1]][0])
        else:
            k = r.known.get(M.eng.discr(x, M.insn_ty))
            out.append(M.vn[k.a[1]] if k is not None else None)
    return out


def collect(db, chk=None):
    """(opt model, rewrites) for every class of function results"""
    res = []
    for counts in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 0)):
        only = None if 'TW_ARM' not in os.environ else {os.environ['TW_ARM']}
        if counts != (0, 0, 0):
            only = {"Return"}
        M = OptModel(db, counts, only)
        if chk is not None:
            for n, why in M.limits:
                chk.ob("analysed", n, False, M.f.file, why)
            chk.ob("analysed", "results:%s" % (counts,), True)
        res.append((M, counts))
    return res


def rewrites(chk, db):
    models = collect(db, chk)
    todo = {}
    seqnames = set()
    for M, counts in models:
        for r in M.rws:
            if r.new is None:
                chk.ob("rewrite", "%s:shape" % r.name, False, M.f.file, "the output buffer is changed in a way that is not a rewrite of its end")
                continue
            if len(r.orig) == 1 and len(r.new) == 1 and r.new[0] is r.x:
                continue
            on, nn = names_of(M, r, r.orig), names_of(M, r, r.new)
            if None in on or None in nn:
                # the newest instruction only changed in place when its kind is not known: a target retargeted
                chk.ob("rewrite", "%s:unknown" % r.name, False, M.f.file, "%s -> %s" % (on, nn))
                continue
            rel = tuple((a, b) for a, b in r.conds if relevant(M, r, a))
            k = (tuple(r.orig), tuple(r.new), rel, counts if "Return" in on else None)
            todo[k] = (M, r, on, nn, counts)
            seqnames.update(on)
            seqnames.update(nn)
    X = ExecModel(db, False, only=expand(seqnames))
    X.tagged = tagged(X)
    run_ = Runner(X)
    raw_ = Runner(X, False)
    seen = Counter()
    items = list(todo.items())
    if "TW_ONLY" in os.environ:
        import re
        items = [it for it in items if re.search(os.environ["TW_ONLY"], ",".join(it[1][2]) + "=>" + ",".join(it[1][3]))]

    def one(it):
        import time
        t = time.time()
        (orig, new, rel, _), (M, r, on, nn, counts) = it
        bad = judge(db, M, X, run_, r, orig, new, rel, on, nn, counts)
        if bad and ("Min" in bad or "Max" in bad or any(FCMP.search(n) for n in on)):
            # the same question again with every branch of the executor kept apart
            bad = judge(db, M, X, raw_, r, orig, new, rel, on, nn, counts)
        return bad, time.time() - t
    slow = Counter()
    for ((orig, new, rel, _), (M, r, on, nn, counts)), (bad, dt) in zip(items, parmap(one, items)):
        key = "%s=>%s" % (",".join(on), ",".join(nn) or "nothing")
        seen[key] += 1
        slow[key] += dt
        chk.ob("rewrite", key, bad is None, M.f.file, bad or "")
    if "TW_DEBUG" in os.environ:
        print("items", len(items), [(k, round(v, 1), seen[k]) for k, v in slow.most_common(4)])
    chk.extra["distinct_rewrites"] = len(seen)
    chk.extra["traces"] = sum(len(M.rws) for M, _ in models)
    chk.extra["executor_summaries"] = len(X.res)


def tagged(X):
    """the variants of the dynamically typed value"""
    for t in X.ctx.types:
        if t["k"] == "enum" and t["def"].endswith("::TinyWasmValue"):
            return {int(v[1]): v[0] for v in t["v"]}
    raise Missing("the dynamically typed value")


def expand(names):
    return set(names)


def relevant(M, r, a):
    """conditions on the instructions involved (not on lengths, positions or boundaries)"""
    es = set(r.orig)
    for t in subterms(a):
        if t in es or t is r.x:
            return True
    return False


def judge(db, M, X, run_, r, orig, new, rel, on, nn, counts):
    e = X.eng
    sub = {}
    for x, n in zip(orig, on):
        i = X.vidx[n]
        if x.k != "agg":
            nf = len(X.vfields[n])
            sub[x] = E.agg(X.insn_ty["def"], i, [fld(x, i, j) for j in range(nf)])
    memo = {}
    chase = {}

    def nrm(t):
        t = subst(t, sub, memo)
        for y in subterms(t):
            if y.k == "call" and y.a[0] in M.chase:
                chase[y] = y.a[1][1]
        return subst(t, chase) if chase else t
    O = [sub.get(x, x) for x in orig]
    N = [nrm(sub.get(x, x)) for x in new]
    st = run_.C.start()
    for a, b in rel:
        if a.k == "notin":
            x = nrm(a.a[0])
            if isc(x):
                if x.a[1] in a.a[1]:
                    return None     # infeasible
            elif not e.assume_ne(st.fact, x, a.a[1]):
                return None
            continue
        x = nrm(a)
        x = e.simp(st.fact, x)
        if isc(x):
            if x.a[1] != b.a[1]:
                return None
            continue
        if not e.assume(st.fact, x, b):
            return None
    # equalities the rewriter has checked are used, not only remembered
    eqs = {}
    for k, v in list(st.fact.known.items()):
        if v is TRUE and k.k == "op" and k.a[0] == "eq":
            a, b = k.a[2], k.a[3]
            if a.k == "v":
                a, b = b, a
            if isc(b) or (a not in eqs and not isc(a)):
                eqs.setdefault(a, b)
        elif isc(v) and k.k in ("fld", "sel"):
            eqs.setdefault(k, v)
    eqs.update(narrow(st.fact))
    for k, v in list(st.fact.known.items()):
        if k.k == "discr" and k.a[0].k == "fld" and isc(v):
            x = enum_const(X, on, O, k.a[0], v)
            if x is not None:
                eqs[k.a[0]] = x
    ex = {}
    for a, b in eqs.items():
        for t in (a, b):
            f = t.a[0] if t.k == "fld" else None
            while f is not None and f.k == "fld":
                for n, x in zip(on, O):
                    if x.k == "agg" and f in x.a[2] and f not in ex:
                        ty = X.ctx.types[X.vfields[n][x.a[2].index(f)][1]]
                        if ty["k"] == "struct":
                            ex[f] = E.agg(ty["def"], None, [fld(f, None, j) for j in range(len(ty["v"][0][2]))])
                f = f.a[0]
    if ex:
        O = [subst(x, ex) if x.k == "agg" else x for x in O]
        N = [subst(x, ex) if x.k == "agg" else x for x in N]
    if eqs:
        eqs = {a: b for a, b in eqs.items() if a.k in ("fld", "sel") or (a.k == "op" and a.a[0] == "zext")}
        O = [subst(x, eqs) for x in O]
        N = [subst(x, eqs) for x in N]
        for k, v in list(st.fact.known.items()):
            x = subst(k, eqs)
            if x is not k and not isc(x) and x.k != "agg":
                st.fact.known.setdefault(x, v)
        for k, v in list(st.fact.ne.items()):
            x = subst(k, eqs)
            if x is not k:
                st.fact.ne.setdefault(x, v)
    nxt = trunc(32, op("add", 64, r.idx, c(64, 1)), 64)
    nxt2 = op("add", 32, trunc(32, r.idx, 64), c(32, 1))
    given = {}
    if "Return" in on:
        given = result_counts(X, counts)
        # validated code has its results above the frame when it returns
        for S, b, n in zip(STK, frame_bases(X), counts):
            if n:
                e.assume(st.fact, op("lt_u", 64, b, E.slen(S)), TRUE)
            for k in range(1, n + 1):
                e.assume(st.fact, op("lt_u", 64, op("sub", 64, E.slen(S), b), c(64, k)), FALSE)
    st.loc.update(given)
    if on[-1] in ("Call", "ReturnCall") and nn and nn[-1] in ("CallSelf", "ReturnCallSelf"):
        if len(on) > 1 or len(nn) > 1 or not O[0].a[2][0] is M.selfaddr:
            return "replaced although the callee is not known to be the function itself: %s" % show(O[0])[:300]
        run_.C.summaries = {on[0]: self_call(X, run_, on[0], M.selfaddr)}
    try:
        outs = run_.run(O, st)
    finally:
        run_.C.summaries = {}
    if given:
        # base+1 < len and base < len-1 say the same of a frame base (a zero-extended value) below the stack's length
        for so, _ in outs:
            for S, b in zip(STK, frame_bases(X)):
                v = so.fact.known.get(op("lt_u", 64, op("add", 64, b, c(64, 1)), E.slen(S)))
                if v is not None:
                    so.fact.known.setdefault(op("lt_u", 64, b, op("sub", 64, E.slen(S), c(64, 1))), v)
    outs = follow(M, X, run_, r, outs, nrm)
    for so, how in outs:
        s2 = so.copy()
        s2.loc, s2.evs, s2.conds, s2.outs, s2.kind, s2.trap = dict(given), [], [], [], "ok", None
        news = run_.run(N, s2)
        if not news:
            return "the replacement cannot run where the original does (%s)" % (how,)
        for sn, hown in news:
            bad = compare(e, X, so, how, sn, hown, (nxt, nxt2), nrm)
            if bad:
                return bad
    if not outs:
        return None     # no well-typed code contains this sequence
    return None


def enum_const(X, on, O, f, v):
    """the value of a field without payload whose discriminant is known"""
    for n, x in zip(on, O):
        if x.k == "agg" and f in x.a[2]:
            t = X.ctx.types[X.vfields[n][x.a[2].index(f)][1]]
            if t["k"] == "enum":
                for i, va in enumerate(t["v"]):
                    if int(va[1]) == v.a[1] and not va[2]:
                        return E.agg(t["def"], i, [])
    return None


def narrow(fact):
    """fields known to fit a narrower integer are written as its extension"""
    out = {}
    lo, hi = {}, {}
    for k, v in fact.known.items():
        if v is FALSE and k.k == "op" and k.a[0] in ("lt_u", "lt_s"):
            a, b = k.a[2], k.a[3]
            w = k.a[1]
            for n in (8, 16, 32):
                if n >= w:
                    continue
                if k.a[0] == "lt_u" and isc(a) and a.a[1] == (1 << n) - 1 and b.k == "fld":
                    out[b] = zext(w, n, mk("nrw", b, n))
                if k.a[0] == "lt_s" and isc(a) and a.a[1] == (1 << (n - 1)) - 1 and b.k == "fld":
                    hi[b] = n
                if k.a[0] == "lt_s" and isc(b) and b.a[1] == (1 << w) - (1 << (n - 1)) and a.k == "fld":
                    lo[a] = (n, w)
    for b, n in hi.items():
        if b in lo and lo[b][0] == n:
            out[b] = sext(lo[b][1], n, mk("nrw", b, n))
    return out


def diff(a, b):
    """the innermost place where two terms differ"""
    while a.k == b.k and len(a.a) == len(b.a):
        d = [(x, y) for x, y in zip(a.a, b.a) if x is not y and x != y]
        if len(d) == 1 and isinstance(d[0][0], T) and isinstance(d[0][1], T):
            a, b = d[0]
            continue
        if len(d) == 1 and isinstance(d[0][0], tuple) and isinstance(d[0][1], tuple) and len(d[0][0]) == len(d[0][1]):
            e = [(x, y) for x, y in zip(*d[0]) if x is not y]
            if len(e) == 1 and isinstance(e[0][0], T) and isinstance(e[0][1], T):
                a, b = e[0]
                continue
        break
    return a, b


def follow(M, X, run_, r, outs, nrm):
    """an unconditional jump whose target instruction is known to the rewriter is followed one step"""
    res = []
    for s, how in outs:
        if isinstance(how, tuple):
            T_ = how[1]
            hit = None
            for k, v in r.known.items():
                if k.k == "discr" and k.a[0].k == "sel" and k.a[0].a[0] is M.src and k.a[0] is not r.x:
                    i = nrm(k.a[0].a[1])
                    if i is zext(64, 32, T_) or i is T_:
                        hit = (k.a[0], v)
            if hit:
                x, v = hit
                n = M.vn[v.a[1]]
                i = X.vidx[n]
                ins = E.agg(X.insn_ty["def"], i, [nrm(fld(x, i, j)) for j in range(len(X.vfields[n]))])
                s.loc.pop(IP, None)
                for s3, h3 in run_.step(s, ins):
                    if h3 == "next":
                        h3 = ("jump", op("add", 32, trunc(32, T_, 64) if False else T_, c(32, 1)))
                    elif isinstance(h3, tuple):
                        h3 = ("jump", nrm(h3[1]))
                    res.append((s3, h3))
                continue
        res.append((s, how))
    return res


def w32(t):
    if t.k == "op" and t.a[0] == "zext" and t.a[3] == 32:
        return t.a[2]
    return t


def same(e, fact, a, b):
    if a is b:
        return True
    if e.simp(fact, a) is e.simp(fact, b):
        return True
    memo = {}
    x, y = normf(e, fact, a, memo), normf(e, fact, b, memo)
    if x is y:
        return True
    memo = {}
    x, y = e.simp(fact, commf(x, memo)), e.simp(fact, commf(y, memo))
    if x is not y and ("cpw" in kinds(x) or "cpw" in kinds(y) or "trc" in kinds(x)):
        memo = {}
        x, y = trcf(fact, x, memo), trcf(fact, y, memo)
    return x is y or samebits(e, fact, *diff(x, y))


def kinds(t):
    return {x.k for x in subterms(t)}


def trcf(fact, t, memo):
    """a stack shortened while keeping its last values, in one form"""
    if t.k in ("c", "v"):
        return t
    r = memo.get(t)
    if r is None:
        r = reb(t, lambda x: trcf(fact, x, memo))
        if r.k == "cpw" and isc(r.a[2]) and r.a[2].a[1] == 0:
            r = r.a[0]
        if r.k == "cpw" and isc(r.a[2]) and r.a[2].a[1] == 1 and fact.known.get(op("lt_u", 64, r.a[3], r.a[1])) is FALSE and r.a[1] is op("sub", 64, E.slen(r.a[0]), c(64, 1)):
            r = r.a[0]          # the only value kept is in its place already
        if r.k == "trc":
            x, n = r.a
            if x.k == "cpw" and isc(x.a[2]) and x.a[2].a[1] == 1 and x.a[1] is op("sub", 64, E.slen(x.a[0]), c(64, 1)) and n is op("add", 64, x.a[3], c(64, 1)):
                y = x.a[0]
                if fact.known.get(op("lt_u", 64, x.a[3], x.a[1])) is FALSE:
                    r = y       # the only value kept is in its place already
                else:
                    r = mk("push", mk("trc", E.spop(y), x.a[3]), E.slast(y))
            elif fact.known.get(op("lt_u", 64, n, E.slen(x))) is FALSE:
                r = x
        memo[t] = r
    return r


def commf(t, memo):
    """operands of lane-wise commutative vector operations in one order"""
    if t.k in ("c", "v"):
        return t
    r = memo.get(t)
    if r is None:
        r = reb(t, lambda x: commf(x, memo))
        if r.k == "call" and len(r.a[1]) == 2 and COMMUTE.search(r.a[0]) and id(r.a[1][0]) > id(r.a[1][1]):
            r = mk("call", r.a[0], (r.a[1][1], r.a[1][0]), *r.a[2:])
        memo[t] = r
    return r


def samebits(e, fact, a, b):
    """two floats that compare equal and have the same sign are the same bits"""
    fa, fb = None, None
    for k, v in fact.known.items():
        if k.k == "op" and k.a[0] == "f.is_sign_negative" or k.k == "op" and k.a[0] == "f.is_sign_positive":
            x = k.a[2]
            s = (v is TRUE) == (k.a[0] == "f.is_sign_negative")
            if x.k == "op" and x.a[0] == "frombits":
                x = x.a[2]
            if x is a:
                fa = s
            if x is b:
                fb = s
    if fa is None or fa is not fb:
        return False
    le = [k for k, v in fact.known.items() if v is TRUE and k.k == "op" and k.a[0] in ("f.le", "le")]
    def un(x):
        return x.a[2] if x.k == "op" and x.a[0] == "frombits" else x
    have = {(un(k.a[2]), un(k.a[3])) for k in le}
    return (a, b) in have and (b, a) in have


_ss = {}


def selstore(t):
    """t contains a read of a written sequence, or stacked writes"""
    r = _ss.get(t)
    if r is None:
        r = t.k in ("sel", "store") and t.a[0].k == "store"
        if not r:
            r = any_ss(t.a)
        _ss[t] = r
    return r


def any_ss(a):
    for x in a:
        if isinstance(x, T):
            if x.k not in ("c", "v") and selstore(x):
                return True
        elif isinstance(x, tuple) and any_ss(x):
            return True
    return False


def normf(e, fact, t, memo):
    """reads and writes reordered past writes to places known to be different"""
    if t.k in ("c", "v") or not selstore(t):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = reb(t, lambda x: normf(e, fact, x, memo))
    if r.k == "sel":
        x, i = r.a
        y = x
        while x.k == "store" and apart(e, fact, x.a[1], i):
            x = x.a[0]
        if x is not y:
            r = sel(x, i)
    elif r.k == "store":
        x, i, v = r.a
        over = []
        while x.k == "store" and id(x.a[1]) > id(i) and apart(e, fact, x.a[1], i):
            over.append((x.a[1], x.a[2]))
            x = x.a[0]
        if over:
            r = sstore(x, i, v)
            for j, w in reversed(over):
                r = sstore(r, j, w)
    memo[t] = r
    return r


def reb(t, f):
    def g(x):
        return f(x) if isinstance(x, T) else tuple(g(y) for y in x) if isinstance(x, tuple) else x
    a = tuple(g(x) for x in t.a)
    return t if a == t.a else rebuild(t.k, a)


def apart(e, fact, i, j):
    t = op("eq", 64, i, j)
    return t is FALSE or fact.known.get(t) is FALSE


def compare(e, X, so, how, sn, hown, nxts, nrm):
    f = sn.fact
    if isinstance(how, tuple) or isinstance(hown, tuple):
        def tgt(h):
            return [w32(nrm(h[1]))] if isinstance(h, tuple) else (list(nxts) if h == "next" else [])
        a, b = tgt(how), tgt(hown)
        okk = False
        for x in a:
            for y in b:
                if x is y:
                    okk = True
                else:
                    z = e.simp(f, op("eq", 32, x, y))
                    okk |= z is TRUE
        if not okk:
            return "continues elsewhere: %s instead of %s under %s" % (sh(hown), sh(how), shc(sn))
    elif how != hown:
        return "ends as %s (%s) instead of %s (%s) under %s" % (hown, sn.trap, how, so.trap, shc(sn))
    if how in ("err", "panic"):
        ta, tb = X_trap(X, so), X_trap(X, sn)
        if ta != tb and not (isinstance(so.trap, T) and so.trap is sn.trap):
            return "traps with %s instead of %s" % (tb, ta)
    ks = set(so.loc) | set(sn.loc)
    for k in ks:
        if k is IP:
            continue
        if how in ("err", "panic") and k in STK:
            continue
        a, b = so.loc.get(k, k), sn.loc.get(k, k)
        if not same(e, f, a, b):
            da, db_ = diff(a, b)
            return "%s is %s instead of %s (where they differ: %s instead of %s) under %s" % (sh(k), sh(b), sh(a), sh(db_), sh(da), shc(sn))
    ea = [x for x in so.evs if not simd(x)]
    eb = [x for x in sn.evs if not simd(x)]
    if ea != eb:
        if all(pure(x) for x in ea) and all(pure(x) for x in eb):
            return None
        if len(ea) != len(eb) or any(x[0] != y[0] or len(x[1]) != len(y[1]) or not all(same(e, f, p, q) if isinstance(p, T) and isinstance(q, T) else p == q
                                     for p, q in zip(x[1], y[1])) for x, y in zip(ea, eb)):
            pa, pb = ea, eb
            return "different memory accesses: %s instead of %s" % ([(n, [sh(z) for z in a]) for n, a in pb][:4], [(n, [sh(z) for z in a]) for n, a in pa][:4])
    return None


def simd(ev):
    """a vector instruction: a function of its arguments, compared through the values it produces"""
    return "::simd::" in ev[0] or ev[0].lstrip("<").split("::")[0] in ("core", "alloc", "std")


def pure(ev):
    n = ev[0].split("::")[-1]
    return n.startswith("read") or n in ("len", "load")


def X_trap(X, s):
    t = trapname(X.ctx, s.trap)
    if t is None and isinstance(s.trap, T):
        for x in subterms(s.trap):
            t = t or trapname(X.ctx, x)
    return t or (s.trap if not isinstance(s.trap, T) else show(s.trap)[:200])


def sh(x):
    return show(x)[:300] if isinstance(x, T) else str(tuple(show(y)[:200] if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x)


def shc(s):
    return "[" + "; ".join("%s=%s" % (show(a)[:120], show(b)) for a, b in s.conds if isinstance(a, T))[:500] + "]"


def result_counts(X, counts):
    """the running function's result counts, for the function the rewriter works on"""
    ctx = X.ctx
    t = [t for t in ctx.types if t["k"] == "struct" and t["def"].endswith("::WasmFunction")]
    if not t:
        raise Missing("the function the executor runs")
    i = [j for j, f in enumerate(t[0]["v"][0][2]) if f[0] == "results"]
    if not i:
        raise Missing("result counts of a function")
    out = {}
    for outs in X.raw.values():
        for o in outs:
            for a, _, _ in o.conds:
                for y in subterms(a):
                    if y.k == "fld" and y.a[0].k == "fld" and y.a[0].a[2] == i[0] and y.a[0].a[0].k == "fld" and y.a[0].a[0].a[0].k == "deref":
                        out[y] = c(16, counts[y.a[2]])
            for a in o.eff.values():
                for y in subterms(a):
                    if y.k == "fld" and y.a[0].k == "fld" and y.a[0].a[2] == i[0] and y.a[0].a[0].k == "fld" and y.a[0].a[0].a[0].k == "deref":
                        out[y] = c(16, counts[y.a[2]])
    return out


def frame_bases(X):
    out = [None] * 3
    for i, n in enumerate(("s32", "s64", "s128")):
        v = mk("v", "locals_base." + n)
        out[i] = zext(64, 32, v)
    return out


def self_call(X, run_, name, selfaddr):
    """the summary of a direct call whose callee is the function that is running, in the instance that is running"""
    res = []
    i = X.vidx[name]
    arg = {fld(mk("v", "I"), i, 0): selfaddr}
    for o in run_.use[name]:
        n = Out()
        n.kind, n.value, n.o = o.kind, o.value, o.o
        m = dict(arg)
        for rnd in range(3):
            memo = {}
            conds = [((mk("notin", subst(a.a[0], m, memo), a.a[1]) if a.k == "notin" else subst(a, m, memo)), b, s) for a, b, s in o.conds]
            new = {}
            for a, b, _ in conds:
                while a.k == "op" and a.a[0] == "not":
                    a = a.a[2]
                if a.k == "op" and a.a[0] in ("eq", "peq", "ptreq"):
                    x, y = a.a[2], a.a[3]
                    fx, fy = callee(x, selfaddr), callee(y, selfaddr)
                    if fx and not fy and not isc(y):
                        new[x] = y
                    if fy and not fx and not isc(x):
                        new[y] = x
                if a.k == "discr" and callee(a.a[0], selfaddr) and a.a[0].k == "sel":
                    ty = [t for t in X.ctx.types if t["k"] == "enum" and t["def"].endswith("::FunctionInstance")][0]
                    w = [int(v[1]) for v in ty["v"] if v[0] == "Wasm"]
                    new[a] = c(a_width(b), w[0])
            if not new:
                break
            m = dict(m)
            # composed: apply the new equations to terms that already have the argument in place
            o = mapped(o, m)
            m = new
        o2 = mapped(o, m)
        n.conds, n.eff, n.trap = o2.conds, o2.eff, o2.trap
        # the frame being entered belongs to the same function
        cf = fld(mk("deref", X.self_), None, X.cfp[-1]) if len(X.cfp) == 2 else None
        fi = [j for t in X.ctx.types if t["k"] == "struct" and t["def"].endswith("::CallFrame") for j, f in enumerate(t["v"][0][2]) if f[0] == "func_addr"]
        if cf is not None and fi and cf in n.eff and n.eff[cf].k == "agg":
            g = n.eff[cf]
            a = list(g.a[2])
            if callee(a[fi[0]], selfaddr):
                a[fi[0]] = fld(cf, None, fi[0])
                n.eff = dict(n.eff)
                n.eff[cf] = E.agg(g.a[0], g.a[1], a)
        # reference counts are not observable
        n.eff = {k: v for k, v in n.eff.items() if not refcount(v) and not (v.k == "agg" and v.a[0].split("::")[-1] in ("Arc", "Rc") and v.a[2][0] is fld(k, None, 0))}
        res.append(n)
    return res


def refcount(v):
    return v.k == "after" and "atomic" in str(v.a[0])


def a_width(b):
    return b.a[0] if isc(b) else 64


def mapped(o, m):
    memo = {}
    n = Out()
    n.kind, n.value, n.o = o.kind, o.value, o.o
    n.conds = [((mk("notin", subst(a.a[0], m, memo), a.a[1]) if a.k == "notin" else subst(a, m, memo)), b, s) for a, b, s in o.conds]
    n.eff = {(k if k in STK or k is IP else subst(k, m, memo)): subst(v, m, memo) for k, v in o.eff.items()}
    n.trap = subst(o.trap, m, memo) if isinstance(o.trap, T) else o.trap
    return n


def callee(t, selfaddr):
    """t is read out of the store's function that the self address names"""
    return any(x is selfaddr for x in subterms(t))
