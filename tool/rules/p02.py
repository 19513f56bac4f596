"""Structured control flow, locals, globals and select: what the lowering emits, and what the executor does with it."""
import re
from terms import *
from lib import extract, Missing
from api import Api, implied, contradictory
from engine import ok, err, slen, spush, slast, sel, agg, ref, UNIT
from rules.common import CRATES
from terms import T
from lower import LowerModel
import opsig

LEVEL = "proof"
FB = r"^tinywasm_parser::visit::FunctionBuilder::<[^>]*>::%s$"
SIZES = ("S32", "S64", "S128")


class Builder:
    """the function builder: its fields, its helpers as operations on the operand stack, and its visitors"""

    def __init__(self, db):
        self.db = db
        self.A = A = Api(db, r"^wasmparser::", outcomes=20000, steps=3000000)
        self.pos, self.enums = A.layout()
        for n in ("FunctionBuilder", "ControlFrame", "ValueCounts", "Signature", "ModuleMetadata"):
            if n not in self.pos:
                raise Missing("struct " + n)
        self.F = self.pos["FunctionBuilder"]
        self.C = self.pos["ControlFrame"]
        for f in ("instructions", "control_stack", "operand_stack", "lane_counts", "metadata", "local_types", "local_addr_map", "data"):
            if f not in self.F:
                raise Missing("field %s of FunctionBuilder" % f)
        for f in ("kind", "has_else", "start_ip", "branch_jumps", "height", "base", "params", "results", "unreachable", "entry_unreachable", "end_reachable"):
            if f not in self.C:
                raise Missing("field %s of ControlFrame" % f)
        for ctx in db.ctxs.values():
            for t in ctx.types:
                if t["k"] == "enum" and re.fullmatch(r"wasmparser::.*::(BlockType|ValType)", t["def"]):
                    self.enums.setdefault(t["def"].split("::")[-1], t)
        self.size_names = [v[0] for v in self.enums["OperandSize"]["v"]]
        self.kinds = {v[0]: i for i, v in enumerate(self.enums["BlockKind"]["v"])}
        ins = self.enums["Instruction"]
        self.inames = {i: v[0] for i, v in enumerate(ins["v"])}
        self.ins_discr = {v[0]: i for i, v in enumerate(ins["v"])}
        self.fns = {}
        for f in [f for l in db.by_def.values() for f in l]:
            m = re.fullmatch(r"<[\w:]*::FunctionBuilder(<.*>)? as wasmparser::.*>::visit_(\w+)", f.name)
            if m:
                self.fns.setdefault(m.group(2), f)
        if not self.fns:
            raise Missing("visitor methods of the function builder")
        self.help = {n: A.fn(FB % n)[0] for n in ("push_sizes", "pop_expect", "apply_effect", "value_counts", "patch_jump")}
        self.models = {}
        for n, m in (("push_sizes", self.m_push), ("pop_expect", self.m_pop), ("apply_effect", self.m_effect), ("value_counts", self.m_counts), ("patch_jump", self.m_patch)):
            self.models[self.help[n].deff] = m
            self.models[self.help[n].name] = m
        self.self_ = mk("v", "p1")
        self.S0 = mk("deref", self.self_)

    # -- the helpers, as operations ------------------------------------------------------------
    def _stacks(self, C, st=None):
        s = C.load(C.args[0]) if st is None else C.load(C.args[0], st)
        return s, fld(s, None, self.F["operand_stack"]), fld(s, None, self.F["lane_counts"])

    def _fref(self, r, n):
        f = (("f", None, self.F[n]),)
        return ref(r.a[0], tuple(r.a[1]) + f) if r.k == "ref" else ref(r, f)

    def _set(self, C, st, s, o, l):
        C.store(self._fref(C.args[0], "operand_stack"), o, st)
        C.store(self._fref(C.args[0], "lane_counts"), l, st)

    def lst(self, C, a):
        x = C.load(a) if a.k == "ref" else a
        return x

    def _fallible(self, C, o, l, s):
        C.st.n += 1
        cnd = mk("v", "fits", C.st.n)

        def yes(st):
            self._set(C, st, s, o, l)
            return C.setret(st, ok(UNIT))
        return C.fork(cnd, yes, lambda st: C.setret(st, err(mk("v", "refused", 0))))

    def m_push(self, C):
        s, o, l = self._stacks(C)
        x = self.lst(C, C.args[1])
        if self.elems(x) == []:
            return self._fallible(C, o, l, s)
        return self._fallible(C, mk("opush", o, x), mk("lpush", l, x), s)

    def m_pop(self, C):
        s, o, l = self._stacks(C)
        return self._fallible(C, mk("opop", o, C.args[1]), mk("lpop", l, C.args[1]), s)

    def m_effect(self, C):
        s, o, l = self._stacks(C)
        i, u = self.lst(C, C.args[1]), self.lst(C, C.args[2])
        if self.elems(i) != []:
            o, l = mk("opopl", o, i), mk("lpopl", l, i)
        if self.elems(u) != []:
            o, l = mk("opush", o, u), mk("lpush", l, u)
        return self._fallible(C, o, l, s)

    def m_counts(self, C):
        return C.ret(mk("counts", self.lst(C, C.args[0])))

    def m_patch(self, C):
        s = C.load(C.args[0])
        i = fld(s, None, self.F["instructions"])
        C.store(self._fref(C.args[0], "instructions"), mk("patched", i, C.args[1], C.args[2]))
        return C.ret(UNIT)

    # -- reading a trace ------------------------------------------------------------------------
    def run(self, n):
        self.A.e.models = self.models
        # the code a local operator adds is a list known in full
        ts, nx = self.loops(n, n.startswith("local_"))
        return ts, nx

    def split(self, ts, nx):
        """an iteration that changes fields of the builder: the other fields are what they were before the loop"""
        m = {}
        for s, v in self.entry.items():
            if len(v) != 1:
                continue
            ch, whole = set(), False
            for t in nx:
                if s in t.eff:
                    x = t.eff[s]
                    if x.k == "upd" and x.a[0] is s:
                        ch |= {k for k, y in x.a[1]}
                    elif x is not s:
                        whole = True
            if whole or not ch:
                continue
            e = next(iter(v))
            for var, i in sorted(ch, key=str):
                e = setfld(e, var, i, mk("lpf", show(s), var, i))
            m[s] = (e, ch)
        if not m:
            return
        for t in nx:
            for s in [s for s in t.eff if s in m]:
                x = t.eff.pop(s)
                for var, i in m[s][1]:
                    y = fld(x, var, i)
                    if y is not fld(s, var, i):
                        t.eff[mk("lpf", show(s), var, i)] = y
        sub = {s: e for s, (e, ch) in m.items()}
        for s in m:
            e0 = next(iter(self.entry[s]))
            for var, i in m[s][1]:
                self.entry[mk("lpf", show(s), var, i)] = {fld(e0, var, i)}

        def S(x):
            for _ in range(8):
                y = subst(x, sub) if isinstance(x, (T, tuple)) else x
                if y is x or y == x:
                    return x
                x = y
            return x
        for t in ts + nx:
            t.conds = [(S(a), S(b)) for a, b in t.conds]
            t.eff = {k if k.k == "lpf" or k in sub else S(k): S(v) for k, v in t.eff.items()}
            t.evs = [(n, S(a), S(r)) for n, a, r in t.evs]
            t.value = S(t.value)
        self.entry = {s: {S(x) for x in v} for s, v in self.entry.items()}

    def loops(self, f, peel=False):
        self.A.e.models = self.models if not isinstance(f, str) or f not in self.help else {}
        f = self.fns[f] if isinstance(f, str) and f in self.fns else self.help[f] if isinstance(f, str) else f
        e = self.A.e
        # an Option is a list of at most one
        e.concrete, e.concrete_fn = (4 if peel else 2), lambda fn: peel or "option::" in fn.name
        try:
            ts, nx = self.A.loops(f)
        finally:
            e.concrete, e.concrete_fn = None, None
        self.entry = dict(self.A.entry)
        self.split(ts, nx)
        self.nx = nx
        return [t for t in ts if not contradictory(t.conds)], [t for t in nx if not contradictory(t.conds)]

    def final(self, t, root=None):
        """the builder's fields after the trace"""
        whole = t.eff.get(self.S0, self.S0)
        return {n: t.eff.get(fld(self.S0, None, i), fld(whole, None, i)) for n, i in self.F.items()}

    def f0(self, n):
        return fld(self.S0, None, self.F[n])

    def size_of(self, t, conds):
        """the operand size a term has under the conditions (name), or None"""
        if t.k == "agg":
            return self.size_names[t.a[1]]
        for a, b in conds:
            if a.k == "discr" and a.a[0] is t and isc(b):
                return self.size_names[b.a[1]]
        return None

    def elems(self, x):
        """the elements of a list known in full, or None"""
        if x.k == "agg" and x.a[0] in ("[]", "vec", "array"):
            return list(x.a[2])
        return None

    def popped(self, s, name, conds):
        """the list whose elements a loop over the state s pops, the last first; None if that is not what it does"""
        lst = None
        for t in self.nx:
            if s not in t.eff:
                continue
            x = t.eff[s]
            if x.k != name or x.a[0] is not s or x.a[1].k != "sel":
                return None
            l, i = x.a[1].a
            if l.k == "agg" and not l.a[2]:
                continue
            k = [v for v in subterms(i) if v.k == "lp"]
            if len(k) != 1 or i is not op("add", 64, k[0], c(64, (1 << 64) - 1)) or t.eff.get(k[0]) is not i:
                return None
            if slen(l) not in self.entry.get(k[0], ()):
                return None
            if lst is not None and lst[0] is not l:
                return None
            lst = (l, k[0])
        if lst is None:
            return agg("vec", None, ())
        mine = [k for k in self.entry if k.k == "lp" and k in {y for a, b in conds for y in subterms(a)}]
        if lst[1] in mine:
            return lst[0] if implied(conds, op("eq", 64, lst[1], c(64, 0))) else None
        return agg("vec", None, ())

    def ops(self, t, base, names=("opush", "opop", "opopl"), conds=()):
        """[('pop', size) | ('push', size) | ('popl', list) | ('pushl', list)] from base, or None"""
        out = []
        while t is not base:
            if t.k == "lpf" or t.k == "lp" and t in self.entry:
                x = self.popped(t, names[1], conds)
                if x is None or len(self.entry[t]) != 1:
                    return None
                e = self.elems(x)
                out += [("popl", x)] if e is None else [("pop", y) for y in e]
                t = next(iter(self.entry[t]))
                continue
            if t.k not in names:
                return None
            x = t.a[1]
            k = names.index(t.k)
            if k == 1:
                out.append(("pop", x))
            else:
                e = self.elems(x)
                if e is None:
                    out.append((("pushl", "", "popl")[k], x))
                else:
                    # popping a list takes its last element first; `out` is in reverse
                    out += [("push", y) for y in reversed(e)] if k == 0 else [("pop", y) for y in e]
            t = t.a[0]
        return out[::-1]

    def effect(self, fin, conds=()):
        """the operand stack's operations, the lane counts having followed them; None if they have not"""
        a = self.ops(fin["operand_stack"], self.f0("operand_stack"), conds=conds)
        b = self.ops(fin["lane_counts"], self.f0("lane_counts"), ("lpush", "lpop", "lpopl"), conds)
        return a if a == b else None

    def code(self, t, base, fill=None):
        """(instructions taken off, [(name, fields)] added, {position added: target}) of the instruction list; None if it is anything else"""
        patches = []
        added = []
        while True:
            if t.k == "patched":
                patches.append((t.a[1], t.a[2]))
                t = t.a[0]
            elif t.k == "push":
                added.append(t.a[1])
                t = t.a[0]
            else:
                break
        n = 0
        while t.k == "pop":
            n += 1
            t = t.a[0]
        if t is not base:
            return None
        out = []
        for x in reversed(added):
            if not (x.k == "agg" and x.a[0].endswith("::Instruction")):
                return None
            out.append((self.inames[x.a[1]], x.a[2]))
        return n, out, patches[::-1]

    def at(self, off):
        l = slen(self.f0("instructions"))
        return op("add", 64, l, c(64, off))

    def control(self, t, base):
        """(frames taken off, [frames added], [(index, {field: value})] of what is changed in place); None if it is anything else"""
        writes, added = [], []
        while True:
            if t.k == "store":
                prev, i, v = t.a
                w = {}
                b = sel(prev, i)
                alts = [b]
                if v.k == "upd" and v.a[0] in alts:
                    for (var, k), y in v.a[1]:
                        w[k] = y
                elif v in alts:
                    pass
                else:
                    return None
                writes.append((i, w))
                t = prev
            elif t.k == "push":
                added.append(t.a[1])
                t = t.a[0]
            else:
                break
        n = 0
        while t.k == "pop":
            n += 1
            t = t.a[0]
        if t is not base:
            return None
        return n, added[::-1], writes[::-1]

    def frame_at(self, ctrl, depth):
        """index of the frame a branch of this depth leaves"""
        return op("add", 64, op("add", 64, slen(ctrl), op("sub", 64, c(64, 0), zext(64, 32, depth))), c(64, (1 << 64) - 1))

    def ff(self, fr, n):
        return fld(fr, None, self.C[n])


def kind_of(B, fr, conds):
    """the kinds the frame can be of under the conditions"""
    k = set(B.kinds)
    kt = B.ff(fr, "kind")
    inv = {i: n for n, i in B.kinds.items()}
    if kt.k == "agg":
        return {inv[kt.a[1]]}
    for a, b in conds:
        if a.k == "discr" and a.a[0] is kt and isc(b):
            k &= {inv[b.a[1]]}
        elif a.k == "notin" and a.a[0].k == "discr" and a.a[0].a[0] is kt and b.k == "c" and b.a[1]:
            k -= {inv[v] for v in a.a[1]}
    return k


TRUE, FALSE = c(1, 1), c(1, 0)
SIZE = {"i32": "S32", "f32": "S32", "ref": "S32", "i64": "S64", "f64": "S64", "v128": "S128"}
W = {"S32": "32", "S64": "64", "S128": "128"}
BRANCHES = ("br", "br_if")
# wasmparser's validator rejects a typed select of several types
NEVER = {"typed_select_multi"}


class State:
    """what one accepted trace did to the builder"""

    def __init__(self, B, t):
        self.B, self.t, self.conds = B, t, t.conds
        self.fin = B.final(t)
        self.code = B.code(self.fin["instructions"], B.f0("instructions"))
        self.ctrl = B.control(self.fin["control_stack"], B.f0("control_stack"))
        self.C0 = B.f0("control_stack")
        self.rest = {n for n, v in self.fin.items() if n not in ("instructions", "operand_stack", "lane_counts", "control_stack") and v is not B.f0(n)}

    def N(self, x):
        """a term about the control stack with the frames as they were where the trace has not changed that field"""
        return norm(x, self.B)

    def top(self):
        return sel(self.C0, op("add", 64, slen(self.C0), c(64, (1 << 64) - 1)))

    def stack(self):
        """("ops", [..]) or ("reset", frame, [..]); None if lanes and operands disagree"""
        e = self.B.effect(self.fin, self.conds)
        if e is not None:
            return "ops", None, e
        B = self.B
        l, lops = self.fin["lane_counts"], []
        while l.k in ("lpush", "lpop", "lpopl"):
            lops.append(l)
            l = l.a[0]
        l = self.N(l)
        if not (l.k == "fld" and l.a[2] == B.C["base"]):
            return None
        fr = l.a[0]
        s = self.fin["operand_stack"]
        for x in lops:
            if s.k != "o" + x.k[1:] or s.a[1:] != x.a[1:]:
                return None
            s = s.a[0]
        if s.k == "trc":
            if self.N(s.a[1]) is not B.ff(fr, "height"):
                return None
            s = s.a[0]
        elif not any(self.N(a) is op("lt_u", 64, B.ff(fr, "height"), slen(s)) and isc(b) and b.a[1] == 0 for a, b in self.conds):
            return None
        if B.ops(s, B.f0("operand_stack"), conds=self.conds) is None:
            return None
        out = B.ops(self.fin["operand_stack"], s if self.fin["operand_stack"].k != "trc" and not lops else self._under(len(lops)), conds=self.conds)
        return "reset", fr, out

    def _under(self, n):
        s = self.fin["operand_stack"]
        for _ in range(n):
            s = s.a[0]
        return s

    def ops(self):
        s = self.stack()
        return s[2] if s is not None and s[0] == "ops" else None

    def known(self, pred):
        return True if implied(self.conds, pred) else False if implied(self.conds, pred, 0) else None


def norm(x, B, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, tuple):
        return tuple(norm(y, B, memo) for y in x)
    if not isinstance(x, T):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if x.k == "fld":
        b = x.a[0]
        if b.k == "last" and b.a[0].k in ("store", "push", "pop") or b.k == "sel":
            y = b
            if y.k == "last":
                y = sel(y.a[0], op("add", 64, slen(y.a[0]), c(64, (1 << 64) - 1)))
            while y.k == "sel" and y.a[0].k == "store":
                st, i, v = y.a[0].a
                if v.k == "upd" and v.a[0].k == "sel" and v.a[0].a[1] is i and (x.a[1], x.a[2]) not in {k for k, z in v.a[1]}:
                    y = sel(st, y.a[1])
                else:
                    break
            if y is not b:
                r = memo[x] = norm(fld(y, x.a[1], x.a[2]), B, memo)
                return r
    if x.k == "last" and x.a[0] is B.f0("control_stack"):
        C0 = x.a[0]
        r = memo[x] = sel(C0, op("add", 64, slen(C0), c(64, (1 << 64) - 1)))
        return r
    from terms import rebuild
    a = tuple(norm(y, B, memo) if isinstance(y, (T, tuple)) else y for y in x.a)
    r = memo[x] = x if a == x.a else rebuild(x.k, a)
    return r


class Rules:
    def __init__(self, chk, db):
        self.chk, self.db = chk, db
        self.B = B = Builder(db)
        self.emitted = {}
        meta = mk("deref", B.f0("metadata"))
        p = B.pos["ModuleMetadata"]
        self.meta = {n: fld(meta, None, p[n]) for n in ("signatures", "functions", "globals", "memories", "tables")}
        self.sig = B.pos["Signature"]

    def where(self, f):
        return "%s:%d" % (f.file, f.line)

    def states(self, n):
        """(accepted traces, reports): every other trace must be a refusal"""
        ts, nx = self.B.run(n)
        if not ts:
            raise Missing("traces of visit_" + n)
        return [State(self.B, t) for t in ts if t.kind == "return" and t.ok]

    def visit(self, rule, n, f, need=1):
        """every accepted trace of the visitor of n satisfies f(state), which returns a report or the name of the case"""
        try:
            sts = self.states(n)
        except KeyError:
            raise Missing("visit_" + n)
        bad, seen = "", set()
        for s in sts:
            r = f(s)
            if r is None or r[:1] != "+":
                bad = (r or "not analysable") + why(s)
                break
            seen.add(r)
        if not bad and len(seen) < need:
            bad = "only these cases are accepted: %s" % sorted(seen)
        self.chk.ob(rule, n, not bad, self.where(self.B.fns[n]), bad)
        return seen

    # -- operators with a fixed signature -----------------------------------------------------------
    def operand(self, n):
        sig = opsig.signature(n)
        B = self.B
        sts = self.states(n)
        if not sts:
            return False
        ins, outs = sig
        kind = "tables" if n.startswith("table_") else "memories"

        def f(s):
            if s.ctrl != (0, [], []):
                return "changes the control stack"
            if s.rest - {"data"}:
                return "changes %s" % ", ".join(sorted(s.rest))
            if s.code is None or s.code[0] or s.code[2] or len(s.code[1]) > 1:
                return "does not emit one instruction"
            ops = s.ops()
            if ops is None:
                return "the operand stack and the lane counts disagree"
            if s.code[1]:
                iname, fs = s.code[1][0]
                self.emitted.setdefault(iname, set()).add((n, tuple(ins), tuple(outs)))
            else:
                fs = ()
                if (ins or outs) and not re.match(r"[if]\d\d_reinterpret", n):
                    return "emits nothing"
                if not ops and n != "nop":
                    return "+" if [SIZE[x] for x in ins] == [SIZE[x] for x in outs] else "neither emits anything nor changes the operand sizes"
            want = [("pop", x) for x in reversed(ins)] + [("push", x) for x in outs]
            if len(ops) != len(want):
                return "pops and pushes %d operands instead of %d" % (len(ops), len(want))
            addr = {}
            for (a, x), (b, y) in zip(ops, want):
                if a != b:
                    return "pops and pushes in the wrong order"
                if y in SIZE:
                    if B.size_of(x, s.conds) != SIZE[y]:
                        return "%ss an operand of size %s instead of an %s" % (a, B.size_of(x, s.conds) or show(x)[:80], y)
                elif y == "min":
                    addr["min"] = x
                else:
                    r = self.indexed(x, kind)
                    if r is None or r not in {z for g in fs for z in subterms(g)}:
                        return "the size of an address operand does not come from the %s the instruction names: %s" % (kind, show(x)[:120])
                    if addr.setdefault(y, x) is not x:
                        return "its address operands have different sizes"
            if "a1" in addr and not self.first(fs, s, addr["a1"], addr["a2"]):
                return "its address operands are swapped"
            if "min" in addr:
                is32 = any(B.size_of(addr[k], s.conds) == "S32" or self.eqs(addr[k], "S32", s.conds) for k in ("a1", "a2"))
                both = all(B.size_of(addr[k], s.conds) == "S64" or self.neq(addr[k], "S32", s.conds) for k in ("a1", "a2"))
                z = B.size_of(addr["min"], s.conds)
                if not (z == "S32" and is32 or z == "S64" and both):
                    return "the length operand of size %s" % z
            return "+"
        self.visit("operands", n, f)
        return True

    def first(self, fs, s, a1, a2):
        """the destination's index is the operator's first immediate"""
        i1, i2 = (self.index(a) for a in (a1, a2))
        return show(i1) <= show(i2)         # p2 (destination), p3 (source)

    def index(self, x):
        return x.a[1].a[2]

    def indexed(self, x, kind):
        """the immediate i when x is the size of memory or table i"""
        if x.k == "sel" and x.a[0] is self.meta[kind]:
            i = x.a[1]
            if i.k == "op" and i.a[0] == "zext":
                return i.a[2]
        return None

    def eqs(self, x, size, conds):
        i = self.B.size_names.index(size)
        return any(a.k == "discr" and a.a[0] is x and isc(b) and b.a[1] == i for a, b in conds) or any(
            a.k == "op" and a.a[0] == "eq" and any(y.k == "discr" and y.a[0] is x for y in a.a[2:]) and any(isc(y) and y.a[1] == i for y in a.a[2:]) and isc(b) and b.a[1] for a, b in conds)

    def neq(self, x, size, conds):
        i = self.B.size_names.index(size)
        for a, b in conds:
            if a.k == "discr" and a.a[0] is x and isc(b) and b.a[1] != i:
                return True
            if a.k == "notin" and a.a[0].k == "discr" and a.a[0].a[0] is x and i in a.a[1] and isc(b) and b.a[1]:
                return True
            if a.k == "op" and a.a[0] == "eq" and any(y.k == "discr" and y.a[0] is x for y in a.a[2:]) and any(isc(y) and y.a[1] == i for y in a.a[2:]) and isc(b) and not b.a[1]:
                return True
        return False

    def operands(self):
        n = 0
        for v in sorted(self.B.fns):
            if v in opsig.CONTEXTUAL or opsig.signature(v) is None:
                continue
            n += bool(self.chk.attempt("operands", self.operand, v))
        return n


    # -- operators whose effect depends on the module's or function's declarations -----------------------
    def one(self, s, ctrl=True):
        """the one instruction a straight-line operator emits, or a report"""
        if ctrl and s.ctrl != (0, [], []):
            return "changes the control stack"
        if s.rest - {"data"}:
            return "changes %s" % ", ".join(sorted(s.rest))
        if s.code is None or s.code[0] or s.code[2] or len(s.code[1]) != 1:
            return "does not emit one instruction"
        return s.code[1][0]

    def size(self, s, x):
        z = self.B.size_of(x, s.conds)
        if z is None:
            for n in SIZES:
                if self.eqs(x, n, s.conds):
                    return n
            left = [n for n in SIZES if not self.neq(x, n, s.conds)]
            if len(left) == 1:
                return left[0]
        return z

    def local(self, kind):
        """local.get/set/tee: the local's size and its slot"""
        B = self.B
        lt = sel(B.f0("local_types"), zext(64, 32, mk("v", "p2")))
        la = sel(B.f0("local_addr_map"), zext(64, 32, mk("v", "p2")))

        def f(s):
            z = self.size(s, lt)
            if z is None:
                return "does not depend on the local's type"
            ops = s.ops()
            want = [("pop", lt)] * (kind != "get") + [("push", lt)] * (kind != "set")
            if ops is None or [(a, self.size(s, x)) for a, x in ops] != [(a, z) for a, x in want]:
                return "does not pop and push the local's size"
            if kind == "tee" and s.code is not None and s.code[0] == 1:
                # the value comes from another local: copy it, and load it again
                last, ll = slast(B.f0("instructions")), B.f0("last_label")
                src = None
                for a, b in s.conds:
                    if a.k == "discr" and a.a[0] is last and isc(b) and B.inames[b.a[1]] == "LocalGet" + W[z]:
                        src = fld(last, b.a[1], 0)
                if s.ctrl != (0, [], []) or s.rest or s.code[2]:
                    return "changes more than the code"
                if src is None or not implied(s.conds, op("lt_u", 64, ll, slen(B.f0("instructions")))):
                    return "replaces an instruction that is not known to be a local.get after the last label"
                if [(n, fs) for n, fs in s.code[1]] not in ([("LocalCopy" + W[z], (src, la)), ("LocalGet" + W[z], (la,))], [("LocalCopy" + W[z], (src, la)), ("LocalGet" + W[z], (src,))],
                                                           [("LocalGet" + W[z], (src,)), ("LocalTee" + W[z], (la,))]):
                    return "local.get and local.tee become %s" % [n for n, fs in s.code[1]]
                return "+merged" + z
            i = self.one(s)
            if isinstance(i, str):
                return i
            if i != ("Local%s%s" % (kind.capitalize(), W[z]), (la,)):
                return "emits %s of %s for a local of size %s" % (i[0], ", ".join(show(x)[:80] for x in i[1]), z)
            return "+" + z
        self.visit("context", "local_" + kind, f, 3)

    def global_(self, kind):
        p2 = mk("v", "p2")
        g = sel(self.meta["globals"], zext(64, 32, p2))

        def f(s):
            i = self.one(s)
            if isinstance(i, str):
                return i
            ops = s.ops()
            if ops != [("pop" if kind == "set" else "push", g)] and (ops is None or [(a, self.size(s, x)) for a, x in ops] != [("pop" if kind == "set" else "push", self.size(s, g))]):
                return "does not pop or push the global's size"
            if kind == "get":
                return "+" if i == ("GlobalGet", (p2,)) or i == ("GlobalGet" + W.get(self.size(s, g), "?"), (p2,)) else "emits %s" % i[0]
            z = self.size(s, g)
            return "+" + z if z and i == ("GlobalSet" + W[z], (p2,)) else "emits %s for a global of size %s" % (i[0], z)
        self.visit("context", "global_" + kind, f, 1 if kind == "get" else 3)

    def drop(self):
        B = self.B
        st = B.f0("operand_stack")

        def f(s):
            i = self.one(s)
            if isinstance(i, str):
                return i
            ops = s.ops()
            if not ops or len(ops) != 1 or ops[0][0] != "pop":
                return "does not pop one operand"
            z = self.size(s, ops[0][1])
            if i != ("Drop" + W.get(z, "?"), ()):
                return "emits %s for an operand of size %s" % (i[0], z)
            if implied(s.conds, op("eq", 64, slen(st), c(64, 0))):
                return "+any"
            return "+" + z if self.lastis(s, st, z) else "drops a size that is not the last operand's"
        self.visit("context", "drop", f, 3)

    def select(self, n):
        B = self.B
        S0 = B.f0("operand_stack")

        def f(s):
            ops = s.ops()
            if ops is None or not ops or ops[0][0] != "pop" or self.size(s, ops[0][1]) != "S32":
                return "does not pop the condition first"
            if ops[0:] == ops[:1] and s.code == (0, [], []) and n == "select":
                # both operands are unknown: so is the result
                st = mk("opop", S0, ops[0][1])
                top = s.top()
                h = self.B.ff(top, "height")
                un = self.B.ff(top, "unreachable")
                at = any(norm(a, B) in (op("eq", 64, slen(st), h), op("eq", 64, h, slen(st))) and isc(b) and b.a[1] for a, b in s.conds)
                empty = implied(s.conds, op("eq", 64, slen(s.C0), c(64, 0)))
                dead = any(norm(a, B) is un and isc(b) and b.a[1] for a, b in s.conds)
                if empty or (at and dead):
                    return "+any"
                return "emits nothing for operands that may exist"
            i = self.one(s)
            if isinstance(i, str):
                return i
            if [a for a, x in ops] != ["pop", "pop", "pop", "push"]:
                return "does not pop two operands and push one"
            zs = {self.size(s, x) for a, x in ops[1:]}
            if len(zs) != 1 or None in zs:
                return "its operands and result have the sizes %s" % zs
            z = zs.pop()
            if i != ("Select" + W[z], ()):
                return "emits %s for operands of size %s" % (i[0], z)
            if n == "select":
                st = mk("opop", S0, ops[0][1])
                if not implied(s.conds, op("eq", 64, slen(st), c(64, 0))) and not self.lastis(s, st, z):
                    return "selects a size that is not the operands'"
                top = s.top()
                h, un = self.B.ff(top, "height"), self.B.ff(top, "unreachable")
                cs = [(norm(a, B), b) for a, b in s.conds]
                known = implied(cs, op("lt_u", 64, h, slen(st))) \
                    or implied(cs, op("eq", 64, slen(st), h), 0) or implied(cs, un, 0) or implied(cs, op("eq", 64, slen(s.C0), c(64, 0)))
                if not known:
                    return "settles the size of operands that may both be unknown"
            else:
                ty = mk("v", "p2")
                d = [self.valtype(b.a[1]) for a, b in s.conds if a.k == "discr" and a.a[0] is ty and isc(b)]
                if len(d) != 1 or d[0] != z:
                    return "selects operands of size %s for the type %s" % (z, d)
            return "+" + z
        self.visit("context", n, f, 3)

    def lastis(self, s, st, z):
        return any(self.size(s, x) == z for x in (slast(st), sel(st, op("add", 64, slen(st), c(64, (1 << 64) - 1)))))

    def valtype(self, d):
        v = self.B.enums["ValType"]["v"] if "ValType" in self.B.enums else None
        if v is None:
            raise Missing("wasmparser::ValType")
        n = [x[0] for x in v if int(x[1]) == d][0]
        return {"I32": "S32", "F32": "S32", "I64": "S64", "F64": "S64", "V128": "S128", "Ref": "S32"}[n]

    def call(self, n):
        B = self.B
        ind, ret = n.endswith("indirect"), n.startswith("return")
        p2, p3 = mk("v", "p2"), mk("v", "p3")
        sg = sel(self.meta["signatures"], zext(64, 32, p2 if ind else sel(self.meta["functions"], zext(64, 32, p2))))
        params, results = fld(sg, None, self.sig["params"]), fld(sg, None, self.sig["results"])
        want = (("Return" if ret else "") + "Call" + ("Indirect" if ind else ""), (p2, p3) if ind else (p2,))

        def f(s):
            st = s.stack()
            if st is None:
                return "the operand stack and the lane counts disagree"
            if not ret:
                i = self.one(s)
                ops = st[2] if st[0] == "ops" else None
            else:
                if s.rest or s.code is None or s.code[0] or s.code[2] or len(s.code[1]) != 1:
                    return "does not emit one instruction"
                i = s.code[1][0]
                r = self.dead(s)
                if r:
                    return r
                ops = self.before(s)
            if isinstance(i, str):
                return i
            if i != want:
                return "emits %s(%s)" % (i[0], ", ".join(show(x)[:60] for x in i[1]))
            if ops is None:
                return "does not follow the operands"
            pops = [x for a, x in ops if a in ("pop", "popl")]
            flat = self.flat(ops, params, results, self.tsize(p3) if ind else None, ret)
            return flat or "+"
        self.visit("context", n, f)

    def tsize(self, i):
        return sel(self.meta["tables"], zext(64, 32, i))

    def flat(self, ops, params, results, last, ret):
        want = []
        if last is not None:
            want.append(("pop", last))
        want.append(("popl", params))
        if not ret:
            want.append(("pushl", results))
        got = []
        for a, x in ops:
            if x.k == "push" and a == "popl":
                got += [("pop", x.a[1]), ("popl", x.a[0])]
            else:
                got.append((a, x))
        return "" if got == want else "pops and pushes %s" % ", ".join("%s %s" % (a, show(x)[:60]) for a, x in got)

    def before(self, s):
        """the operations on the operand stack before it was reset"""
        t = s.fin["operand_stack"]
        if t.k == "trc":
            t = t.a[0]
        return self.B.ops(t, self.B.f0("operand_stack"), conds=s.conds)

    # -- code after a branch ------------------------------------------------------------------------------
    def dead(self, s, extra=()):
        """after the trace the innermost frame is marked unreachable and its operands are gone; nothing else changes in the control stack"""
        B = self.B
        if implied(s.conds, op("eq", 64, slen(s.C0), c(64, 0))):
            return ""
        st = s.stack()
        if st is None or st[0] != "reset" or st[2]:
            return "the operands of the innermost block are not discarded"
        if st[1] is not s.top():
            return "the operands are reset to those of %s" % show(st[1])[:120]
        if s.ctrl is None or s.ctrl[0] or s.ctrl[1]:
            return "changes the control stack"
        w = self.writes(s)
        if w is None:
            return "a field of a frame is changed twice"
        want = {(s.top(), "unreachable"): TRUE}
        want.update(extra)
        if not self.same(w, want):
            return "changes of the frames: %s" % ", ".join("%s of %s := %s" % (k[1], show(k[0])[:70], show(v)[:70]) for k, v in w.items())
        return ""

    def same(self, w, want):
        return set(w) == set(want) and all(norm(w[k], self.B) is norm(want[k], self.B) for k in w)

    def writes(self, s):
        inv = {i: n for n, i in self.B.C.items()}
        out = {}
        for i, fs in s.ctrl[2]:
            fr = sel(s.C0, i)
            for k, v in fs.items():
                if (fr, inv[k]) in out and out[fr, inv[k]] is not v:
                    return None
                v = norm(v, self.B)
                if v is not self.B.ff(fr, inv[k]):
                    out[fr, inv[k]] = v
        return out

    def unreachable(self):
        def f(s):
            if s.code is None or s.code[0] or s.code[2] or [n for n, x in s.code[1]] != ["Unreachable"]:
                return "does not emit unreachable"
            return self.dead(s) or "+"
        self.visit("branches", "unreachable", f)

    # -- blocks -------------------------------------------------------------------------------------------
    def enter(self, n):
        B = self.B
        kind = {"block": "Block", "loop": "Loop", "if": "If"}[n]
        p2 = mk("v", "p2")
        bt = self.B.enums.get("BlockType")
        if bt is None:
            raise Missing("wasmparser::BlockType")
        sg = None

        def f(s):
            d = [b.a[1] for a, b in s.conds if a.k == "discr" and a.a[0] is p2 and isc(b)]
            if len(d) != 1:
                return "does not depend on the kind of block type"
            i, v = [(k, x[0]) for k, x in enumerate(bt["v"]) if int(x[1]) == d[0]][0]
            st = s.ops()
            if st is None:
                return "the operand stack and the lane counts disagree"
            ops = list(st)
            if n == "if":
                if not ops or ops[0][0] != "pop" or self.size(s, ops[0][1]) != "S32":
                    return "does not pop the condition"
                ops = ops[1:]
            if v == "FuncType":
                sg = sel(self.meta["signatures"], zext(64, 32, fld(p2, i, 0)))
                params, results = fld(sg, None, self.sig["params"]), fld(sg, None, self.sig["results"])
                if ops != [("popl", params), ("pushl", params)]:
                    return "does not take exactly the parameters into the block: %s" % [(a, show(x)[:60]) for a, x in ops]
            else:
                params = results = agg("vec", None, ())
                if ops:
                    return "a block without parameters takes operands"
            if s.code is None or s.code[0] or s.code[2]:
                return "changes earlier code"
            if s.code[1] != ([("JumpIfZero32", (c(32, 0),))] if n == "if" else []) and not (n == "if" and [x for x, y in s.code[1]] == ["JumpIfZero32"]):
                return "emits %s" % [x for x, y in s.code[1]]
            ip = slen(s.fin["instructions"])
            if s.rest - {"last_label"} or ("last_label" in s.rest and s.fin["last_label"] is not ip):
                return "changes %s" % ", ".join(sorted(s.rest))
            if n == "loop" and s.fin["last_label"] is not ip:
                return "instructions before the loop can be merged with its first"
            if s.ctrl is None or s.ctrl[0] or s.ctrl[2] or len(s.ctrl[1]) != 1:
                return "does not push one frame"
            fr = s.ctrl[1][0]
            g = {x: norm(B.ff(fr, x), B) for x in B.C}
            if kind_of(B, fr, s.conds) != {kind}:
                return "pushes a frame of kind %s" % kind_of(B, fr, s.conds)
            if g["has_else"] is not FALSE or g["end_reachable"] is not FALSE:
                return "the frame starts with an else or a reachable end"
            if g["start_ip"] is not ip:
                return "the block starts at %s" % show(g["start_ip"])[:80]
            e = B.elems(g["branch_jumps"])
            if e != ([B.at(0)] if n == "if" else []):
                return "the frame starts with the jumps %s" % show(g["branch_jumps"])[:100]
            low_o, low_l = self.below(s, v == "FuncType")
            if low_o is None or g["height"] is not norm(slen(low_o), B) or g["base"] is not norm(low_l, B):
                return "the block's operands start at %s, lanes %s" % (show(g["height"])[:80], show(g["base"])[:80])
            if g["params"] is not params:
                return "the block's parameters are %s" % show(g["params"])[:80]
            if v == "Type":
                r = B.elems(g["results"])
                ty = fld(p2, i, 0)
                d = [self.valtype(b.a[1]) for a, b in s.conds if a.k == "discr" and a.a[0] is ty and isc(b)]
                if r is None or len(r) != 1 or len(d) != 1 or self.size(s, r[0]) != d[0]:
                    return "the block's results are %s" % show(g["results"])[:80]
            elif g["results"] is not results:
                return "the block's results are %s" % show(g["results"])[:80]
            un = [g["unreachable"], g["entry_unreachable"]]
            par = B.ff(s.top(), "unreachable")
            if implied(s.conds, op("eq", 64, slen(s.C0), c(64, 0))):
                okv = (TRUE, FALSE)
            else:
                okv = (par,)
                for val in (TRUE, FALSE):
                    if any(norm(a, B) is par and isc(b) and b is val for a, b in s.conds):
                        okv += (val,)
            if un[0] is not un[1] or un[0] not in okv:
                return "the block's entry is reachable when it should not be, or the reverse"
            return "+" + v
        self.visit("blocks", n, f, 3)

    def below(self, s, params):
        """operands and lanes below the block's parameters"""
        B, o, l = self.B, s.fin["operand_stack"], s.fin["lane_counts"]
        if not params:
            while o.k == "opush" and l.k == "lpush" and o.a[1] is l.a[1] and B.elems(o.a[1]) == []:
                o, l = o.a[0], l.a[0]
            return o, l
        if o.k == "opush" and l.k == "lpush":
            return o.a[0], l.a[0]
        return None, None

    def else_(self):
        B = self.B

        def f(s):
            top = s.top()
            if kind_of(B, top, [(norm(a, B), b) for a, b in s.conds]) != {"If"}:
                return "accepts an else outside an if"
            if s.code is None or s.code[0] or [n for n, x in s.code[1]] != ["Jump"]:
                return "does not emit one jump"
            if [(norm(a, B), b) for a, b in s.code[2]] != [(sel(B.ff(top, "branch_jumps"), c(64, 0)), B.at(1))]:
                return "the condition's jump does not go behind the jump over the else branch"
            if s.rest:
                return "changes %s" % ", ".join(sorted(s.rest))
            st = s.stack()
            if st is None or st[0] != "reset" or st[1] is not top or st[2] != [("pushl", B.ff(top, "params"))]:
                return "the else branch does not start with exactly the parameters"
            if s.ctrl is None or s.ctrl[0] or s.ctrl[1]:
                return "changes the control stack"
            w = self.writes(s)
            if w is None:
                return "a field of a frame is changed twice"
            er = w.pop((top, "end_reachable"), B.ff(top, "end_reachable"))
            un, e0 = B.ff(top, "unreachable"), B.ff(top, "end_reachable")
            cs = [(norm(a, B), b) for a, b in s.conds]
            if not self.boolean(er, lambda x: (not x[un]) or x[e0], (un, e0), cs):
                return "the end counts as reachable when %s" % show(er)[:120]
            if not self.same(w, {(top, "has_else"): TRUE, (top, "unreachable"): B.ff(top, "entry_unreachable"),
                                 (top, "branch_jumps"): mk("push", B.ff(top, "branch_jumps"), B.at(0))}):
                return "changes of the frame: %s" % ", ".join("%s := %s" % (k[1], show(v)[:70]) for k, v in w.items())
            return "+"
        self.visit("blocks", "else", f)

    def boolean(self, t, want, vs, conds):
        """the boolean term t is the function `want` of the variables, under the conditions"""
        import itertools
        for bits in itertools.product((0, 1), repeat=len(vs)):
            m = dict(zip(vs, bits))
            sub = {v: c(1, b) for v, b in m.items()}
            if any(isc(subst(a, sub)) and isc(b) and subst(a, sub).a[1] != b.a[1] for a, b in conds):
                continue
            r = subst(t, sub)
            if not isc(r) or bool(r.a[1]) != bool(want(m)):
                return False
        return True

    def end(self):
        B = self.B
        B.run("end")                    # for the loop's iterations
        sts = self.states("end")
        nexts = B.nx
        entry = B.entry
        base = B.f0("instructions")
        C0 = B.f0("control_stack")
        top = sel(C0, op("add", 64, slen(C0), c(64, (1 << 64) - 1)))
        bj = B.ff(top, "branch_jumps")
        steps = {}
        bad = ""
        for t in nexts:
            for k, v in t.eff.items():
                if k.k == "lpf" and v.k == "patched" and v.a[0] is k:
                    cs = [(norm(a, B), b) for a, b in t.conds]
                    ks = kind_of(B, top, cs)
                    at, tgt = norm(v.a[1], B), norm(v.a[2], B)
                    want = {"Loop": B.ff(top, "start_ip")}
                    if any(want.get(x, B.at(0)) is not tgt for x in ks):
                        bad = "jumps to the end of a %s go to %s" % ("/".join(sorted(ks)), show(tgt)[:80])
                    iv = [y for y in subterms(at) if y.k == "lp"]
                    if at.k != "sel" or at.a[0] is not bj or len(iv) != 1:
                        bad = bad or "patches a jump that is not one of the block's"
                        continue
                    off = op("add", 64, at.a[1], op("sub", 64, c(64, 0), iv[0]))
                    if not isc(off) or t.eff.get(iv[0]) is not op("add", 64, iv[0], c(64, 1)) or entry.get(iv[0]) != {c(64, 0)}:
                        bad = bad or "does not patch the block's jumps one after the other"
                        continue
                    steps.setdefault(k, set()).add((iv[0], off.a[1], frozenset(ks)))
        # iterations that leave a jump as it is: only the first one of an if with an else
        skips = set()
        ivs = {iv: (L, o) for L, x in steps.items() for iv, o, _ in x}
        for t in nexts:
            for iv, (L, o) in ivs.items():
                if iv in t.eff and t.eff.get(L, L) is L:
                    cs = [(norm(a, B), b) for a, b in t.conds]
                    if o or kind_of(B, top, cs) != {"If"} or not implied(cs, B.ff(top, "has_else")) or not implied(cs, op("eq", 64, iv, c(64, 0))):
                        bad = bad or "leaves a jump of the block unresolved" + why_(cs)
                    skips.add(L)

        def f(s):
            if bad:
                return bad
            cs = [(norm(a, B), b) for a, b in s.conds]
            ks = kind_of(B, top, cs)
            if "Function" in ks and len(ks) > 1:
                return "does not tell the function's own end from a block's"
            if s.ctrl is None or s.ctrl[0] != 1 or s.ctrl[1]:
                return "does not pop one frame"
            if ks == {"Function"}:
                if s.code is None or s.code[0] or s.code[2] or [n for n, x in s.code[1]] != ["Return"]:
                    return "does not end the function with a return"
                return "+Function"
            st = s.stack()
            if st is None or st[0] != "reset" or st[1] is not top or [(a, norm(x, B)) for a, x in st[2] or ()] != [("pushl", B.ff(top, "results"))]:
                return "the block does not leave exactly its results"
            if s.fin["last_label"] is not B.at(0) or s.rest - {"last_label"}:
                return "instructions before the end of a block can be merged with those after it"
            # the jumps
            x, loop = s.fin["instructions"], None
            if x.k == "lpf":
                loop = x
                x = next(iter(entry[x])) if len(entry[x]) == 1 else x
            pre = []
            while x.k == "patched":
                pre.append((norm(x.a[1], B), norm(x.a[2], B)))
                x = x.a[0]
            if x is not base:
                return "changes the code"
            cover = set()
            for a, b in pre:
                if a is not sel(bj, c(64, 0)) or b is not B.at(0):
                    return "patches %s to %s" % (show(a)[:60], show(b)[:60])
                cover.add(0)
            first = None
            empty = any(flat_cond(a, b) == (op("eq", 64, slen(bj), c(64, 0)), True) for a, b in cs)
            if empty:
                first = 0 if loop is None else None
            if loop is not None and not empty:
                mine = {(iv, o) for iv, o, k in steps.get(loop, ()) if k & ks}
                if len(mine) != 1:
                    if any(implied(cs, op("eq", 64, slen(bj), c(64, n))) for n in (0,)):
                        return "+" + "/".join(sorted(ks))
                    return "the block's jumps are not patched by one loop"
                iv, first = mine.pop()
                done = op("lt_u", 64, iv, op("add", 64, slen(bj), c(64, (1 << 64) - first)) if first else slen(bj))
                if not any(a is done and isc(b) and not b.a[1] for a, b in cs):
                    return "some of the block's jumps stay unresolved"
            he = B.ff(top, "has_else")
            haselse = True if implied(cs, he) else False if implied(cs, he, 0) else None
            for k in ks:
                if empty:
                    break
                if first is None:
                    return "the block's jumps are not patched"
                if k == "If" and loop in skips and not cover and first == 0:
                    continue
                if k == "If" and haselse is None:
                    return "does not look whether there was an else"
                need0 = k != "If" or not haselse
                got0 = 0 in cover or first == 0
                if need0 and not got0 or first > 1:
                    return "the first jump of a %s stays unresolved" % k
                if k == "If" and haselse and got0:
                    return "the condition's jump skips the else branch"
            # reachability of what follows
            par = sel(C0, op("add", 64, slen(C0), c(64, (1 << 64) - 2)))
            w = self.writes(s)
            if w is None:
                return "a field of a frame is changed twice"
            none = any(implied(cs, op("eq", 64, slen(C0), c(64, 1))) for _ in (0,))
            if none:
                return "changes the control stack" if w else "+" + "/".join(sorted(ks))
            v = w.pop((par, "unreachable"), B.ff(par, "unreachable"))
            if w:
                return "changes the frames below: %s" % ", ".join(k[1] for k in w)
            e, u, r = (B.ff(top, x) for x in ("entry_unreachable", "unreachable", "end_reachable"))
            pv = B.ff(par, "unreachable")
            for k in ks:
                # dead code stays dead; reachable code is never taken for dead
                def must(m, k=k):
                    return 1 if m[e] else 0 if (not m[u] or m[r] or (k == "If" and not m[he])) else None
                if not self.agrees(v, must, (e, u, r, he), cs):
                    return "after the block, code counts as dead when it is not, or the reverse"
            return "+" + "/".join(sorted(ks))
        self.visit("blocks", "end", f, 3)

    def agrees(self, t, must, vs, conds):
        import itertools
        for bits in itertools.product((0, 1), repeat=len(vs)):
            m = dict(zip(vs, bits))
            sub = {v: c(1, b) for v, b in m.items()}
            if any(isc(subst(a, sub)) and isc(b) and subst(a, sub).a[1] != b.a[1] for a, b in conds):
                continue
            w = must(m)
            if w is None:
                continue
            r = subst(t, sub)
            if not isc(r) or r.a[1] != w:
                return False
        return True

    # -- branches -----------------------------------------------------------------------------------------
    def isdead(self, s):
        cs = [(norm(a, self.B), b) for a, b in s.conds]
        return implied(cs, op("eq", 64, slen(s.C0), c(64, 0))) or any(a is self.B.ff(s.top(), "unreachable") and isc(b) and b.a[1] for a, b in cs)

    def shaped(self, fr, conds, lanes, ins, dead):
        """the code before the jump leaves the operands the label takes: ([DropKeep] or []) -> report"""
        B = self.B
        ks = kind_of(B, fr, conds)
        p = B.pos["ValueCounts"]
        bs = B.ff(fr, "base")
        if len(ins) > 1 or (ins and ins[0][0] != "DropKeep"):
            return "emits %s before the jump" % [n for n, x in ins]
        if ins:
            if "Loop" in ks and len(ks) > 1:
                return "does not tell loops from other blocks"
            keep = mk("counts", B.ff(fr, "params" if ks == {"Loop"} else "results"))
            d = ins[0][1][0]
            q = B.pos["DropKeep"]
            if norm(fld(d, None, q["base"]), B) is not bs:
                return "a branch drops down to %s" % show(fld(d, None, q["base"]))[:120]
            if norm(fld(d, None, q["keep"]), B) is not keep:
                return "a branch keeps %s" % show(fld(d, None, q["keep"]))[:120]
            return ""
        if dead:
            return ""
        if "Loop" in ks and len(ks) > 1:
            return "does not tell loops from other blocks"
        keep = mk("counts", B.ff(fr, "params" if ks == {"Loop"} else "results"))
        for f, i in p.items():
            want = op("eq", 16, op("add", 16, fld(bs, None, i), fld(keep, None, i)), fld(lanes, None, i))
            if not implied(conds, want):
                return "a branch leaves the operands as they are although there may be others (%s)" % f
        return ""

    def jump(self, s, fr, conds, ins, pos, patches=()):
        """the jump to the label of fr at position pos: (report, changes of frames)"""
        B = self.B
        ks = kind_of(B, fr, conds)
        n, x = ins
        if ks == {"Function"}:
            return ("" if n == "Return" else "a branch out of the function emits %s" % n), {}
        if ks == {"Loop"} and n == "Jump" and norm(x[0], B) is trunc(32, B.ff(fr, "start_ip"), 64):
            return "", {}
        if "Function" in ks or n != "Jump":
            return "emits %s for a branch to a %s" % (n, "/".join(sorted(ks))), {}
        return "", {(fr, "branch_jumps"): mk("push", B.ff(fr, "branch_jumps"), B.at(pos)), (fr, "end_reachable"): TRUE}

    def br(self, n):
        B = self.B
        fr = sel(B.f0("control_stack"), B.frame_at(B.f0("control_stack"), mk("v", "p2")))

        def f(s):
            cs = [(norm(a, B), b) for a, b in s.conds]
            if s.rest or s.code is None or s.code[0]:
                return "changes more than the code"
            code = s.code[1]
            dead = self.isdead(s)
            st = s.stack()
            if n == "br":
                if not code or s.code[2]:
                    return "does not emit a jump"
                r = self.shaped(fr, cs, B.f0("lane_counts"), code[:-1], dead)
                if r:
                    return r
                r, w = self.jump(s, fr, cs, code[-1], len(code) - 1)
                return r or self.dead(s, w.items()) or "+" + "/".join(sorted(kind_of(B, fr, cs)))
            if st is None or st[0] != "ops" or [(a, self.size(s, x)) for a, x in st[2]] != [("pop", "S32")]:
                return "does not pop exactly the condition"
            lanes = s.fin["lane_counts"]
            if s.ctrl is None or s.ctrl[0] or s.ctrl[1]:
                return "changes the control stack"
            w = self.writes(s)
            if w is None:
                return "a field of a frame is changed twice"
            if len(code) == 1:
                name, x = code[0]
                if name != "JumpIfNonZero32" or s.code[2]:
                    return "emits %s" % name
                r = self.shaped(fr, cs, lanes, [], dead)
                if r:
                    return r
                r, want = self.jump(s, fr, cs, ("Jump", x), 0)
                if not r and not self.same(w, want):
                    r = "the jump is not registered with the block it leaves"
                return r or "+direct"
            if not code or code[0][0] != "JumpIfZero32":
                return "emits %s" % [a for a, x in code]
            if [(norm(a, B), norm(b, B)) for a, b in s.code[2]] != [(B.at(0), B.at(len(code)))]:
                return "the branch not taken does not go on behind the branch"
            r = self.shaped(fr, cs, lanes, code[1:-1], dead)
            if r:
                return r
            r, want = self.jump(s, fr, cs, code[-1], len(code) - 1)
            if not r and not self.same(w, want):
                r = "the jump is not registered with the block it leaves"
            return r or "+" + "/".join(sorted(kind_of(B, fr, cs)))
        self.visit("branches", n, f, 3)

    def return_(self):
        B = self.B

        def f(s):
            if s.rest or s.code is None or s.code[0] or s.code[2] or not s.code[1] or s.code[1][-1][0] != "Return":
                return "does not emit a return"
            if [x for x, y in s.code[1][:-1]] not in ([], ["DropKeep"]):
                return "emits %s" % [x for x, y in s.code[1]]
            return self.dead(s) or "+"
        self.visit("branches", "return", f)

    # -- br_table -------------------------------------------------------------------------------------------
    def table(self):
        B = self.B
        B.run("br_table")
        sts = self.states("br_table")
        nexts, entry = B.nx, B.entry
        f = B.fns["br_table"]
        self.chk.ob("branches", "br_table", *self._table(sts, nexts, entry, f))

    def _table(self, sts, nexts, entry, f):
        B = self.B
        where = self.where(f)
        C0, base = B.f0("control_stack"), B.f0("instructions")

        def isctrl(x):
            return x is C0 or (x.k == "lpf" and x.a[1:] == (None, B.F["control_stack"]))

        def framed(x):
            """depth of the frame x, in the control stack as it is"""
            if x.k == "sel" and isctrl(x.a[0]):
                for d in subterms(x.a[1]):
                    if x.a[1] is B.frame_at(x.a[0], d):
                        return d.a[2] if d.k == "op" and d.a[0] == "zext" else d
            return None
        # the landing pads: one per target depth
        pads = None
        shapes, npad = set(), 0
        lane = None
        for t in nexts:
            for k, v in t.eff.items():
                if k.k == "lp" and v.k == "push" and v.a[0] is k and v.a[1].k == "agg" and any(y.k == "lpf" and y.a[1:] == (None, B.F["instructions"]) for y in t.eff):
                    if pads not in (None, k):
                        return False, where, "landing pads are kept in several lists"
                    pads = k
        if pads is None:
            return False, where, "no landing pads are made"
        idx = None
        fields = []
        for t in nexts:
            if pads not in t.eff:
                continue
            e = t.eff[pads]
            if e is pads:
                continue
            if e.k != "push" or e.a[0] is not pads:
                return False, where, "the landing pads change"
            I = [k for k in t.eff if k.k == "lpf" and k.a[1:] == (None, B.F["instructions"])]
            if len(I) != 1:
                return False, where, "a landing pad without code"
            L = I[0]
            x, added = t.eff[L], []
            while x.k == "push":
                added.append(x.a[1])
                x = x.a[0]
            if x is not L or not added:
                return False, where, "a landing pad without code"
            added = [(B.inames[a.a[1]], a.a[2]) for a in reversed(added)]
            fs = e.a[1].a[2]
            start = {i for i, y in enumerate(fs) if y is slen(L)}
            jump = {i for i, y in enumerate(fs) if y is op("add", 64, slen(L), c(64, len(added) - 1))}
            cs = [(norm(a, B), b) for a, b in t.conds]
            top = sel(C0, op("add", 64, slen(C0), c(64, (1 << 64) - 1)))
            dead = implied(cs, op("eq", 64, slen(C0), c(64, 0))) or any(a is B.ff(top, "unreachable") and isc(b) and b.a[1] for a, b in cs)
            if not dead:
                seen = {q for a, b in cs for q in subterms(a)}
                cand = [i for i, y in enumerate(fs) if y.k != "c" and sel(C0, B.frame_at(C0, y)) in seen]
                if len(cand) != 1:
                    return False, where, "the depth of a landing pad is not known"
                fr = sel(C0, B.frame_at(C0, fs[cand[0]]))
                lanes = mk("lpop", B.f0("lane_counts"), agg_of(B, "S32", sts))
                r = self.shaped(fr, cs, lanes, added[:-1], False)
                if r:
                    return False, where, r
                if added[-1][0] != "Jump":
                    return False, where, "a landing pad ends in %s" % added[-1][0]
                fields.append((start, jump, cand[0], fs))
            else:
                fields.append((start, jump, None, fs))
            npad += 1
        start = set.intersection(*[x[0] for x in fields])
        live = [x for x in fields if x[2] is not None]
        depth = {x[2] for x in live}
        jump = set.intersection(*[x[1] for x in fields])
        if len(depth) != 1 or not start or not jump:
            return False, where, "landing pads are recorded at the wrong position"
        if len(start & jump) or len(start) != 1 or len(jump) != 1:
            return False, where, "landing pads are recorded at the wrong position"
        iD, iS, iJ = depth.pop(), start.pop(), jump.pop()
        # deduplication: a depth without a pad gets one
        # targets
        nt = 0

        def isfield(y, i):
            """the pad, when y is its field i"""
            if y.k == "fld" and y.a[2] == i:
                p = y.a[0]
                if p.k == "sel" and p.a[0] is pads:
                    return p
                if p.k == "deref" and p.a[0].k == "nextof" and any(z is pads for e in entry.get(p.a[0].a[0], ()) for z in subterms(e)):
                    return p
            return None

        def chosen(conds, pad, other):
            """the pad's depth is the wanted one"""
            dp = fld(pad, None, iD)
            for a, b in conds:
                if a.k == "op" and a.a[0] == "eq" and isc(b) and b.a[1] and dp in a.a[2:]:
                    o = [y for y in a.a[2:] if y is not dp]
                    if len(o) == 1 and other(o[0]):
                        return True
            return False
        for t in nexts:
            for k, v in t.eff.items():
                if k.k == "lpf" and k.a[1:] == (None, B.F["data"]) and v is not k:
                    i = B.pos["FunctionDataBuilder"]["branch_table_targets"] if "FunctionDataBuilder" in B.pos else None
                    new = fld(v, None, i) if i is not None else None
                    if new is None or new.k != "push" or new.a[0] is not fld(k, None, i) or v is not setfld(k, None, i, new):
                        return False, where, "the table of targets is not extended by one"
                    y = new.a[1]
                    if y.k == "op" and y.a[0] == "trunc":
                        y = y.a[2]
                    pad = isfield(y, iS)
                    its = [q for q in t.eff if q.k == "lp" and q is not k]
                    if pad is None or not chosen(t.conds, pad, lambda o: any(z in subterms(o) for z in its)):
                        return False, where, "a table entry is %s, not the start of the landing pad of its depth" % show(y)[:100]
                    nt += 1
        if not nt:
            return False, where, "the table of targets is not filled"
        # the pads' jumps
        kinds = set()
        for t in nexts:
            I = [k for k, v in t.eff.items() if k.k == "lpf" and k.a[1:] == (None, B.F["instructions"]) and pads not in t.eff and v is not k]
            Cs = [k for k, v in t.eff.items() if k.k == "lpf" and isctrl(k) and v is not k]
            if not I and not Cs:
                continue
            cs = t.conds
            fr = {y for a, b in cs for y in subterms(a) if framed(y) is not None and isfield(framed(y), iD) is not None}
            if len(fr) != 1:
                return False, where, "a landing pad's jump is resolved without its frame"
            fr = fr.pop()
            pad = isfield(framed(fr), iD)
            J = fld(pad, None, iJ)
            ks = kind_of(B, fr, cs)
            if I and not Cs:
                v = t.eff[I[0]]
                if v.k == "store" and v.a[0] is I[0] and v.a[1] is J and v.a[2].k == "agg" and B.inames[v.a[2].a[1]] == "Return" and ks == {"Function"}:
                    kinds |= ks
                    continue
                if v.k == "patched" and v.a[0] is I[0] and v.a[1] is J and v.a[2] is B.ff(fr, "start_ip") and ks == {"Loop"}:
                    kinds |= ks
                    continue
                return False, where, "a landing pad's jump to a %s becomes %s" % ("/".join(sorted(ks)), show(v)[:160])
            if I:
                return False, where, "a landing pad's jump is resolved twice"
            got = B.control(t.eff[Cs[0]], Cs[0])
            w = {}
            if got is None or got[0] or got[1]:
                return False, where, "changes the control stack"
            inv = {i: n for n, i in B.C.items()}
            for i, f2 in got[2]:
                for k, v in f2.items():
                    w[sel(Cs[0], i), inv[k]] = v
            if "Function" in ks or "Loop" in ks and ks != {"Loop"} and False:
                return False, where, "a branch out of the function is left unresolved"
            if not self.same(w, {(fr, "branch_jumps"): mk("push", B.ff(fr, "branch_jumps"), J), (fr, "end_reachable"): TRUE}):
                return False, where, "a landing pad's jump is not registered with the block it leaves"
            kinds |= ks
        if kinds != set(B.kinds):
            return False, where, "landing pads of these kinds are not resolved: %s" % sorted(set(B.kinds) - kinds)
        # the instruction itself
        n = 0
        for s in sts:
            st = s.stack()
            x = s.fin["instructions"]
            d = None
            for _ in range(12):
                if x.k == "lpf" and len(entry.get(x, ())) == 1:
                    x = next(iter(entry[x]))
                elif x.k == "store" and x.a[1] is slen(base) and x.a[2].k == "upd":
                    if d is None:
                        d = x.a[2]
                    x = x.a[0]
                else:
                    break
            if x.k != "push" or x.a[0] is not base or x.a[1].k != "agg" or B.inames[x.a[1].a[1]] != "BranchTable":
                return False, where, "the code does not start with the branch"
            v = x.a[1].a[1]
            _, off, ln = x.a[1].a[2]
            tt = fld(fld(B.S0, None, B.F["data"]), None, B.pos["FunctionDataBuilder"]["branch_table_targets"])
            if off is not trunc(32, slen(tt), 64) and not (off.k == "op" and off.a[0] == "trunc" and off.a[2].k in ("len", "fld") and tt in subterms(off.a[2])):
                return False, where, "the branch reads its targets from %s" % show(off)[:100]
            if d is None:
                # unless the header is not the branch itself, which it is
                if any(a.k == "notin" and a.a[0].k == "discr" and v in a.a[1] and isc(b) and b.a[1] for a, b in s.conds):
                    continue
                return False, where, "the default target is not set"
            y = fld(d, v, 0)
            if y.k == "op" and y.a[0] == "trunc":
                y = y.a[2]
            pad = isfield(y, iS)
            if len(d.a[1]) != 1 or pad is None or not chosen(s.conds, pad, lambda o: any("BrTable" in str(z.a[0]) and "default" in str(z.a[0]) for z in subterms(o) if z.k == "call")):
                return False, where, "the default target is %s" % show(y)[:120]
            if not implied(s.conds, op("eq", 64, slen(C0), c(64, 0))):
                l = s.fin["lane_counts"]
                c1 = [y for y in subterms(l) if y.k == "lpf" and isctrl(y)]
                if not (l.k == "fld" and l.a[2] == B.C["base"]) or (s.fin["operand_stack"].k == "trc" and s.fin["operand_stack"].a[1] is not fld(l.a[0], None, B.C["height"])):
                    if not implied_empty(s, B):
                        return False, where, "the code behind the branch does not count as dead"
            n += 1
        return n > 0 and npad >= 4, where, "" if n and npad >= 4 else "no accepted trace"

    # -- the operand stack's helpers ------------------------------------------------------------------------
    def helpers(self):
        for n in ("pop_expect", "push_sizes", "value_counts", "patch_jump", "apply_effect"):
            self.chk.attempt("stack", self.helper, n)

    def helper(self, n):
        B = self.B
        r = getattr(self, "h_" + n)()
        self.chk.ob("stack", n, not r, self.where(B.help[n]), r)

    def h_pop_expect(self):
        B = self.B
        ts, nx = B.loops("pop_expect")
        st, l0, C0 = B.f0("operand_stack"), B.f0("lane_counts"), B.f0("control_stack")
        p2, p = mk("v", "p2"), B.pos["ValueCounts"]
        top = sel(C0, op("add", 64, slen(C0), c(64, (1 << 64) - 1)))
        seen = set()
        for t in ts:
            if t.kind == "panic":
                continue
            cs = [(norm(a, B), b) for a, b in t.conds]
            none = implied(cs, op("eq", 64, slen(C0), c(64, 0)))
            dead = none or any(a is B.ff(top, "unreachable") and isc(b) and b.a[1] for a, b in cs)
            h = c(64, 0) if none else B.ff(top, "height")
            bottom = implied(cs, op("eq", 64, slen(st), h)) or implied(cs, op("eq", 64, h, slen(st)))
            last = slast(st)
            flat = [flat_cond(a, b) for a, b in cs]
            mism = any(not v and differ(a, last, p2) for a, v in flat) or not self.sizes_of(cs, last) & self.sizes_of(cs, p2)
            match = any(v and differ(a, last, p2) for a, v in flat)
            f = B.final(t)
            others = [x for x, v in f.items() if x not in ("operand_stack", "lane_counts") and v is not B.f0(x)]
            if others:
                return "changes %s" % others
            if not t.ok:
                if implied(cs, op("eq", 64, slen(st), c(64, 0))) and not (bottom and dead) or mism and not (bottom and dead):
                    continue
                return "refuses an operand that is there, or may be" + why_(cs)
            if f["operand_stack"] is st and f["lane_counts"] is l0:
                if bottom and dead:
                    seen.add("any")
                    continue
                return "pops nothing although the operand is known"
            if f["operand_stack"] is not mk("pop", st):
                return "does not pop one operand"
            z = self.zof(t, cs, last, p2, match)
            if z is None:
                return "pops an operand that may have another size"
            k = {"S32": "c32", "S64": "c64", "S128": "c128"}[z]
            old = fld(l0, None, p[k])
            if not self.lanes(t, l0, k, op("add", 16, old, c(16, 0xffff))):
                return "the lane counts do not follow the operand"
            seen.add(z)
        return "" if seen == {"any", "S32", "S64", "S128"} else "cases: %s" % sorted(seen)

    def sizes_of(self, cs, x):
        """the variants of OperandSize x can be on a trace"""
        r = set(range(len(self.B.size_names)))
        for a, b in cs:
            if a.k == "discr" and a.a[0] is x and isc(b):
                r &= {b.a[1]}
            elif a.k == "notin" and a.a[0].k == "discr" and a.a[0].a[0] is x and isc(b) and b.a[1]:
                r -= set(a.a[1])
        return r

    def zof(self, t, cs, last, p2, match):
        d = set()
        for a, b in cs:
            if a.k == "discr" and a.a[0] in (last, p2) and isc(b):
                d.add((a.a[0], b.a[1]))
        vals = {v for x, v in d}
        if len(vals) != 1 or not (match or {x for x, v in d} == {last, p2}):
            return None
        return self.B.size_names[vals.pop()]

    def lanes(self, t, l0, k, v):
        """exactly the count of class k changed, to v"""
        p = self.B.pos["ValueCounts"]
        whole = self.B.final(t)["lane_counts"]
        for f, i in p.items():
            x = t.eff.get(fld(l0, None, i), fld(whole, None, i))
            if x is not (v if f == k else fld(l0, None, i)):
                return False
        return True

    def h_push_sizes(self):
        B = self.B
        ts, nx = B.loops("push_sizes")
        entry = B.entry
        lst = mk("deref", mk("v", "p2"))
        p = B.pos["ValueCounts"]
        seen = set()
        l0 = B.f0("lane_counts")
        O = [k for k in entry if entry[k] == {B.f0("operand_stack")}]
        Ls = [k for k in entry if entry[k] == {l0}]
        Lf = {i: [k for k in entry if entry[k] == {fld(l0, None, i)}] for i in p.values()}     # the loop may know the counts one by one
        if len(O) != 1 or len(Ls) != 1 and any(len(x) != 1 for x in Lf.values()):
            return "does not add the operands one by one"
        O, L = O[0], Ls[0] if Ls else None

        def count(t, i):
            """(before, after) of a count in an iteration"""
            return (fld(L, None, i), fld(t.eff.get(L, L), None, i)) if L is not None else (Lf[i][0], t.eff.get(Lf[i][0], Lf[i][0]))
        for t in nx:
            iv = [k for k, v in t.eff.items() if k.k == "lp" and v is op("add", 64, k, c(64, 1)) and entry.get(k) == {c(64, 0)}]
            if len(iv) != 1:
                return "does not go through the sizes in order"
            x = sel(lst, iv[0])
            z = self.size_in(t.conds, x)
            if t.eff.get(O) is not mk("push", O, x) or z is None:
                return "does not push the size"
            i = p[{"S32": "c32", "S64": "c64", "S128": "c128"}[z]]
            if any(b is not (op("add", 16, a, c(16, 1)) if j == i else a) for j in p.values() for a, b in (count(t, j),)):
                return "the lane counts do not follow the operand"
            seen.add(z)
        for t in ts:
            f = B.final(t)
            if t.kind != "return":
                continue
            if t.ok:
                left = all(fld(f["lane_counts"], None, j) is count(t, j)[0] or t.eff.get(fld(l0, None, j)) is count(t, j)[0] for j in p.values())
                if f["operand_stack"] is not O or not left or not any(a.k == "op" and a.a[0] == "lt_u" and slen(lst) in a.a[2:] and isc(b) and not b.a[1] for a, b in t.conds):
                    return "stops before the last size"
            elif not any(a.k == "op" and a.a[0] == "ovf_add_u" and isc(b) and b.a[1] for a, b in t.conds) and not any("ovf" in str(a.a[0]) and isc(b) and b.a[1] for a, b in t.conds if a.k == "op"):
                return "refuses operands without a reason"
        return "" if seen == set(SIZES) else "sizes: %s" % sorted(seen)

    def size_in(self, conds, x):
        for a, b in conds:
            if a.k == "discr" and a.a[0] is x and isc(b):
                return self.B.size_names[b.a[1]]
        return None

    def h_value_counts(self):
        B = self.B
        ts, nx = B.loops("value_counts")
        entry = B.entry
        lst = mk("deref", mk("v", "p1"))
        p = B.pos["ValueCounts"]
        rets = [t for t in ts if t.kind == "return"]
        if len(rets) != 1:
            return "several results"
        v = rets[0].value
        cnt = [fld(v, None, i) for i in range(len(p))]
        if any(entry.get(x) != {c(16, 0)} for x in cnt):
            return "the counts do not start at zero"
        seen = set()
        for t in nx:
            iv = [k for k, y in t.eff.items() if k.k == "lp" and y is op("add", 64, k, c(64, 1)) and entry.get(k) == {c(64, 0)}]
            if len(iv) != 1:
                return "does not go through the sizes in order"
            z = self.size_in(t.conds, sel(lst, iv[0]))
            if z is None:
                return "does not look at the size"
            k = {"S32": "c32", "S64": "c64", "S128": "c128"}[z]
            for f, i in p.items():
                if t.eff.get(cnt[i], cnt[i]) is not (op("add", 16, cnt[i], c(16, 1)) if f == k else cnt[i]):
                    return "counts an operand of size %s wrongly" % z
            seen.add(z)
        if not any(a.k == "op" and a.a[0] == "lt_u" and slen(lst) in a.a[2:] and isc(b) and not b.a[1] for a, b in rets[0].conds):
            return "stops before the last size"
        return "" if seen == set(SIZES) else "sizes: %s" % sorted(seen)

    def h_patch_jump(self):
        B = self.B
        ts, nx = B.loops("patch_jump")
        I0, p2, p3 = B.f0("instructions"), mk("v", "p2"), mk("v", "p3")
        x = sel(I0, p2)
        seen = set()
        for t in ts:
            if t.kind != "return":
                continue
            f = B.final(t)
            if any(v is not B.f0(n) for n, v in f.items() if n != "instructions"):
                return "changes more than the code"
            y = f["instructions"]
            d = [b.a[1] for a, b in t.conds if a.k == "discr" and a.a[0] is x and isc(b)]
            if y is I0:
                no = {v for a, b in t.conds if a.k == "notin" and a.a[0].k == "discr" and a.a[0].a[0] is x and isc(b) and b.a[1] for v in a.a[1]}
                if not {B.ins_discr[n] for n in ("Jump", "JumpIfZero32", "JumpIfNonZero32")} <= no and not (d and B.inames[d[0]] not in ("Jump", "JumpIfZero32", "JumpIfNonZero32")):
                    return "leaves a jump unresolved"
                continue
            if y.k != "store" or y.a[0] is not I0 or y.a[1] is not p2 or len(d) != 1:
                return "changes %s" % show(y)[:120]
            if y.a[2] is not setfld(x, d[0], 0, trunc(32, p3, 64)):
                return "sets the jump to %s" % show(y.a[2])[:120]
            seen.add(B.inames[d[0]])
        return "" if {"Jump", "JumpIfZero32", "JumpIfNonZero32"} <= seen else "resolves only %s" % sorted(seen)

    def h_apply_effect(self):
        B = self.B
        f = B.help["apply_effect"]
        old = dict(B.models)
        try:
            for k in (f.deff, f.name):
                B.models.pop(k, None)
            ts, nx = B.loops(f)
            ins, outs = mk("deref", mk("v", "p2")), (mk("v", "p3"), mk("deref", mk("v", "p3")))
            n = 0
            for t in ts:
                if t.kind != "return" or not t.ok:
                    continue
                s = State(B, t)
                if s.rest or s.ctrl != (0, [], []) or s.code != (0, [], []):
                    return "changes more than the operands"
                if s.ops() not in [[("popl", ins), ("pushl", x)] for x in outs]:
                    return "pops and pushes %s" % [(a, show(x)[:50]) for a, x in s.ops() or ()]
                n += 1
            return "" if n else "no accepted trace"
        finally:
            B.models.clear()
            B.models.update(old)


def differ(a, x, y):
    """the condition compares the variants of x and y"""
    return a.k == "op" and a.a[0] == "eq" and all(z.k == "discr" for z in a.a[2:]) and {z.a[0] for z in a.a[2:]} == {x, y}


def flat_cond(a, b):
    v = isc(b) and bool(b.a[1])
    while a.k == "op" and a.a[0] == "not":
        a, v = a.a[2], not v
    return a, v


def why_(cs):
    return " (when %s)" % " and ".join("%s=%s" % (show(a)[:80], show(b)[:20]) for a, b in cs[:5])


def agg_of(B, z, sts):
    """the operand size z as a value"""
    for s in sts:
        for x in subterms(s.fin["operand_stack"]):
            if x.k == "opop" and x.a[1].k == "agg" and B.size_names[x.a[1].a[1]] == z:
                return x.a[1]
    return agg("?", None, ())


def implied_empty(s, B):
    return any(implied(s.conds, op("eq", 64, slen(x), c(64, 0))) for a, b in s.conds for x in subterms(a) if x.k == "lpf" and x.a[2] == B.F["control_stack"])


def why(s):
    return " (when %s)" % " and ".join("%s=%s" % (show(a)[:90], show(b)) for a, b in s.conds[-4:])


def run(chk):
    chk.rule("operands", "every operator with a fixed signature pops its operands (last first) and pushes its results with the sizes of their types, address operands with the size of the memory's or table's addresses, "
             "and emits exactly one instruction (nop: none)", 380)
    db = extract(("-p", "tinywasm"), CRATES)
    R = Rules(chk, db)
    chk.attempt("operands", R.operands)
    chk.rule("context", "locals, globals, drop, select and calls use the declared types: the instruction of the operand's size, the local's own slot, the callee's parameters and results", 12)
    for k in ("get", "set", "tee"):
        chk.attempt("context", R.local, k)
    for k in ("get", "set"):
        chk.attempt("context", R.global_, k)
    chk.attempt("context", R.drop)
    for k in ("select", "typed_select"):
        chk.attempt("context", R.select, k)
    for k in ("call", "call_indirect", "return_call", "return_call_indirect"):
        chk.attempt("context", R.call, k)
    chk.rule("blocks", "a block starts with its parameters on the operand stack and is recorded at that height; else starts again from there and resolves the condition's jump; end leaves exactly the results, resolves every jump "
             "of the block to its end (a loop: to its start), and code counts as dead exactly when no path reaches it", 5)
    chk.rule("branches", "a branch leaves exactly the operands its label takes above the block's base (or is shaped to), jumps to it or is registered with it, and what cannot be reached behind it counts as dead; "
             "a branch table maps every entry, and the default, to the landing pad of its depth", 5)
    for k in ("block", "loop", "if"):
        chk.attempt("blocks", R.enter, k)
    chk.attempt("blocks", R.else_)
    chk.attempt("blocks", R.end)
    chk.attempt("branches", R.unreachable)
    for k in ("br", "br_if"):
        chk.attempt("branches", R.br, k)
    chk.attempt("branches", R.return_)
    chk.attempt("branches", R.table)
    chk.rule("stack", "the helpers that keep the operand stack: sizes pushed and popped in order, the lane counts following, a jump resolved by setting its target", 5)
    R.helpers()
