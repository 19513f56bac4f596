"""Loads and stores: one backend access of the operator's width, at the operator's address, in the operator's memory."""
import re
import engine as E
from terms import *
from compose import S32, S64, S128, IP
from rules.common import Ops, SZ, indexed, strip, events

LEVEL = "proof"
RE = re.compile(r"(i32|i64|f32|f64|v128)_(load|store)(8|16|32)?(_[su])?")
W = {"i32": 32, "i64": 64, "f32": 32, "f64": 64, "v128": 128}


def ops():
    r = []
    for ty in W:
        r += [ty + "_load", ty + "_store"]
    for ty in ("i32", "i64"):
        for b in (8, 16, 32):
            if b < W[ty]:
                r += ["%s_load%d_s" % (ty, b), "%s_load%d_u" % (ty, b), "%s_store%d" % (ty, b)]
    return r


class Check:
    def __init__(self, chk, budgeted=False):
        self.chk = chk
        self.names = ops()
        self.O = Ops(chk, self.names, budgeted)
        self.C = self.O.C
        self.paths = {}
        self.traces = 0

    def run(self):
        chk = self.chk
        for n in self.names:
            chk.attempt("access", self.one, n)
        chk.ob("memory", "one address table", len(self.paths) == 1, "", "operators reach memories through different tables: %s" % [show(x[1]) for x in self.paths])
        chk.extra.update({"operators": len(self.names), "traces_compared": self.traces})

    def one(self, n):
        chk, O = self.chk, self.O
        m = RE.fullmatch(n)
        ty, kind, bits, sg = m.groups()
        bits = int(bits) if bits else W[ty]
        seqs, why = O.seqs(n)
        where = O.where(n)
        if seqs is None:
            return chk.ob("access", n, False, where, why)
        for seq in seqs:
            outs = O.outs(seq)
            self.traces += len(outs)
            done = {}
            bad = ""
            for o in outs:
                r = self.trace(n, ty, kind, bits, sg, o)
                if r and r[0] == "bad":
                    bad = r[1] + ": " + O.desc(o)
                    break
                if r:
                    done.setdefault(r[0], set()).add(r[1])
            if not bad:
                for arch in (0, 1):
                    if "ok" not in done.get(arch, ()) or "err" not in done.get(arch, ()):
                        bad = "no %s trace for %d-bit memories" % ("completing" if "ok" not in done.get(arch, ()) else "trapping", 64 if arch else 32)
            chk.ob("access", n, not bad, where, bad)

    def trace(self, n, ty, kind, bits, sg, o):
        O, C = self.O, self.C
        # which kind of memory: a condition on the memory the operator names
        arch, mem = None, None
        for a, b in o.conds:
            if a.k == "discr" and b is not TRUE and isc(b) and a.a[0].k == "fld":
                t, path = a.a[0], []
                while t.k == "fld":
                    path.append(t)
                    t = t.a[0]
                ix = indexed(t)
                if ix and ix[0] is O.vecs.get("MemoryInstance"):
                    arch, mem = b.a[1], t
        if arch is None:
            return ("bad", "the access does not depend on the memory's address type")
        ix = indexed(mem)
        if ix[2] is not fld(mk("v", "a1"), None, 3):
            return ("bad", "the memory is %s, not the operator's memory index" % show(ix[2]))
        self.paths[(ix[0], ix[1])] = 1
        st = {S32: S32, S64: S64, S128: S128}
        val = None
        if kind == "store":
            s = SZ[ty]
            val = E.slast(st[s])
            st[s] = E.spop(st[s])
        s = S64 if arch else S32
        addr = E.slast(st[s])
        st[s] = E.spop(st[s])
        base = addr if arch else zext(64, 32, addr)
        off = fld(mk("v", "a1"), None, 2)
        ea = op("add", 64, off, base)
        over = [b for a, b in o.conds if a.k == "op" and a.a[0] == "ovf_add_u" and set(a.a[2:]) == {off, base}]
        if over and over[-1] is TRUE:
            if arch == 0 and o.kind == "panic":
                return None     # validated: offset + address of a 32-bit memory fits 64 bits
            if arch == 0:
                return None
            if o.kind == "err" and C.trap(o) == "MemoryOutOfBounds" and not events(o, "LinearMemory::write"):
                return (arch, "ovf")
            return ("bad", "an address beyond 2^64 must trap with MemoryOutOfBounds")
        if o.kind == "panic":
            return ("bad", "can panic: %s" % str(o.trap)[:100])
        acc = [e for e in o.evs if "LinearMemory::" in e[0] and not e[0].endswith("::len")]
        want = "::read_%d" % bits if kind == "load" else "::write_%d" % bits
        if len(acc) != 1 or not acc[0][0].endswith(want):
            return ("bad", "expected one %d-byte %s of the memory, found %s" % (bits // 8, kind, [e[0].split("::")[-1] for e in acc]))
        e = acc[0]
        if e[1][0] is not fld(fld(mem, None, 1), None, 0) and mem not in set(subterms(e[1][0])):
            return ("bad", "the access goes to %s" % show(e[1][0]))
        if e[1][1] is not ea:
            return ("bad", "the effective address is %s, not offset + address" % show(e[1][1]))
        if kind == "store":
            x = e[1][2]
            x = x.a[0] if x.k in ("at",) else x
            v = val
            if bits < W[ty]:
                v = trunc(bits, val, W[ty])
            if not self.bytes_of(x, v, bits, ty):
                return ("bad", "the bytes written are %s" % show(x))
        call = [a for a, b in o.conds if a.k == "discr" and a.a[0].k == "call" and a.a[0].a[0] == e[0]]
        if len(call) != 1:
            return ("bad", "the outcome of the access is not examined")
        res = call[0].a[0]
        d = [b for a, b in o.conds if a is call[0]][0].a[1]
        if d == 1:
            if o.kind == "err" and o.trap.k in ("fld", "call") and res in set(subterms(o.trap)):
                return (arch, "err")
            return ("bad", "a failed access must end with its trap")
        if o.kind != "ok":
            return ("bad", "a successful access must continue")
        if kind == "load":
            s = SZ[ty]
            x = o.loc.get(s, s)
            if x.k != "push":
                return ("bad", "no value pushed")
            raw = [y for y in subterms(x.a[1]) if y.k == "fld" and y.a[0] is res]
            if not raw:
                return ("bad", "the value pushed is not the value read")
            v = self.value(raw[0], ty, bits, sg)
            if x.a[1] is not v:
                return ("bad", "the value pushed is %s, not %s" % (show(x.a[1]), show(v)))
            st[s] = E.spush(st[s], v)
        for s in (S32, S64, S128):
            if o.loc.get(s, s) is not st[s]:
                return ("bad", "operand stack %s" % show(s))
        for k in o.loc:
            if k in (S32, S64, S128, IP):
                continue
            if kind == "store" and mem in set(subterms(k)):
                continue
            return ("bad", "changes %s" % show(k))
        return (arch, "ok")

    def value(self, raw, ty, bits, sg):
        if ty == "v128":
            ctx = self.O.M.ctx
            d = [t["def"] for t in ctx.types if t["k"] == "struct" and t.get("def", "").endswith("::Value128")][0]
            return E.agg(d, None, (raw,))
        v = E.from_bytes(bits, raw)
        if bits == W[ty]:
            return v
        return (sext if sg == "_s" else zext)(W[ty], bits, v)

    def bytes_of(self, x, v, bits, ty):
        if ty == "v128":
            return x is fld(v, None, 0) or x is E.to_bytes(bits, v)
        return x is E.to_bytes(bits, v)



def run(chk):
    chk.rule("access", "the sequence emitted for each load/store operator, composed from the executor's value-flow summaries, performs on every trace "
             "exactly one backend access of the operator's width, at offset + address, in the memory the operator names; an address beyond 2^64 or a "
             "failed access ends with the trap and no effect; otherwise the value is the little-endian value, sign- or zero-extended as the operator says", floor=23)
    chk.rule("memory", "all operators reach memories through the same module table")
    chk.assume = ["validation (wasmparser): the memory index exists, operands are present, and the offset of a 32-bit memory fits 32 bits",
                  "the backend methods read_N/write_N (property P36)"]
    Check(chk).run()
    Check(chk, True).run()
