"""Herbrand terms with value-numbering: hash-consed expressions in a syntactic normal form.

Integers are bit-vectors of an explicit width; signedness is a property of the operator, so that `as u32`/`as i32`
vanish.  Two expressions that are equal by the rewriting below are the same object."""
import struct

_tab = {}


class T:
    __slots__ = ("k", "a", "s", "n")
    cnt = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.s = None
        T.cnt += 1
        t.n = T.cnt
        _tab[key] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if t.s is not None:
        return t.s
    k, a = t.k, t.a
    if k == "c":
        w, v = a
        r = ("true" if v else "false") if w == 1 else "%d" % (v - (1 << w) if v >> (w - 1) and w > 8 else v)
        if w not in (1, 32, 64):
            r += "_%d" % w
    elif k == "cf":
        r = "%s#%x" % a
    elif k == "v":
        r = a[0]
    elif k == "op":
        r = "%s(%s)" % (a[0] if not isinstance(a[1], int) else "%s%d" % (a[0], a[1]), ",".join(show(x, d + 1) for x in a[2:]))
    elif k == "discr":
        r = "discr(%s)" % show(a[0], d + 1)
    elif k == "agg":
        r = "%s%s{%s}" % (a[0].split("::")[-1], "" if a[1] is None else "#%s" % (a[1],), ",".join(show(x, d + 1) for x in a[2]))
    elif k == "fld":
        r = "%s.%s%s" % (show(a[0], d + 1), "" if a[1] is None else "%s:" % a[1], a[2])
    elif k == "upd":
        r = "%s with {%s}" % (show(a[0], d + 1), ",".join("%s=%s" % (show(x, d + 1), show(y, d + 1)) for x, y in a[1]))
    else:
        r = "%s(%s)" % (k, ",".join(show(x, d + 1) for x in a))
    t.s = r
    return r


def key(t):
    return show(t)


def c(w, v):
    return mk("c", w, v & ((1 << w) - 1))


TRUE = c(1, 1)
FALSE = c(1, 0)
UNIT = mk("agg", "()", None, ())
UNINIT = mk("uninit")


def isc(t):
    return t.k == "c"


def sval(t):
    w, v = t.a
    return v - (1 << w) if v >> (w - 1) else v


COMM = {"add", "mul", "and", "or", "xor"}


def op(name, w, *args):
    """bit-vector / float operator in normal form; w is the operand width (int) or float type (str)"""
    if isinstance(w, str):
        return fop(name, w, *args)
    m = (1 << w) - 1
    if name == "sub":
        a, b = args
        if isc(b):
            return op("add", w, a, c(w, -b.a[1]))
        if a is b:
            return c(w, 0)
        return op("add", w, a, op("neg", w, b))
    if name == "neg":
        (a,) = args
        if isc(a):
            return c(w, -a.a[1])
        if a.k == "op" and a.a[0] == "neg":
            return a.a[2]
        if a.k == "op" and a.a[0] == "add":
            return op("add", w, *[op("neg", w, x) for x in a.a[2:]])
        return mk("op", "neg", w, a)
    if name in COMM:
        flat, k = [], None
        for x in args:
            xs = x.a[2:] if x.k == "op" and x.a[0] == name and x.a[1] == w else (x,)
            for y in xs:
                if isc(y):
                    v = y.a[1]
                    if k is None:
                        k = v
                    elif name == "add":
                        k = (k + v) & m
                    elif name == "mul":
                        k = (k * v) & m
                    elif name == "and":
                        k &= v
                    elif name == "or":
                        k |= v
                    else:
                        k ^= v
                else:
                    flat.append(y)
        if name == "add":
            # cancel x + neg x
            out = []
            for y in flat:
                n = y.a[2] if y.k == "op" and y.a[0] == "neg" else mk("op", "neg", w, y)
                if n in out:
                    out.remove(n)
                else:
                    out.append(y)
            flat = out
            if k == 0:
                k = None
        elif name == "mul":
            if k == 0:
                return c(w, 0)
            if k == 1:
                k = None
        elif name == "and":
            flat = list(dict.fromkeys(flat))
            if k == 0:
                return c(w, 0)
            if k == m:
                k = None
            if k is not None and not k & (k + 1) and any(umax(y, w) <= k for y in flat):
                k = None        # the mask keeps every bit its operand can have
        elif name in ("or", "xor"):
            if name == "or":
                flat = list(dict.fromkeys(flat))
                if k == m:
                    return c(w, m)
            else:
                out = []
                for y in flat:
                    if y in out:
                        out.remove(y)
                    else:
                        out.append(y)
                flat = out
            if k == 0:
                k = None
        if not flat:
            if k is None:
                k = {"add": 0, "mul": 1, "and": m, "or": 0, "xor": 0}[name]
            return c(w, k)
        if name == "xor" and w == 1 and k == 1 and len(flat) == 1:
            return op("not", 1, flat[0])
        if w == 1 and name == "xor" and k == 1:
            return op("not", 1, op("xor", 1, *flat))
        flat.sort(key=key)
        if k is not None:
            flat.append(c(w, k))
        if len(flat) == 1:
            return flat[0]
        if name == "and" and w == 1 and any(op("not", 1, x) in flat for x in flat):
            return FALSE
        return mk("op", name, w, *flat)
    if name == "not":
        (a,) = args
        if isc(a):
            return c(w, ~a.a[1])
        if a.k == "op" and a.a[0] == "not":
            return a.a[2]
        return mk("op", "not", w, a)
    if name in ("eq", "ne"):
        a, b = args
        if name == "ne":
            return op("not", 1, op("eq", w, a, b))
        if a is b:
            return TRUE
        if isc(a) and isc(b):
            return c(1, a.a[1] == b.a[1])
        if isc(a):
            a, b = b, a
        if isc(b):
            bv = b.a[1]
            if w == 1:
                return a if bv else op("not", 1, a)
            if a.k == "op" and a.a[0] == "zext":
                iw = a.a[2].a[1] if a.a[2].k == "op" and False else a.a[3]
                if bv >> iw:
                    return FALSE
                return op("eq", iw, a.a[2], c(iw, bv))
            if a.k == "op" and a.a[0] == "sext":
                iw = a.a[3]
                s = sval(b)
                if -(1 << (iw - 1)) <= s < (1 << (iw - 1)):
                    return op("eq", iw, a.a[2], c(iw, s))
                return FALSE
            if a.k == "op" and a.a[0] == "add" and isc(a.a[-1]):
                rest = a.a[2:-1]
                return op("eq", w, op("add", w, *rest) if len(rest) > 1 else rest[0], c(w, bv - a.a[-1].a[1]))
            if a.k == "ite":
                x, y = a.a[1], a.a[2]
                if isc(x) and isc(y):
                    ex, ey = x.a[1] == bv, y.a[1] == bv
                    if ex and ey:
                        return TRUE
                    if ex:
                        return a.a[0]
                    if ey:
                        return op("not", 1, a.a[0])
                    return FALSE
        else:
            if a.k == b.k == "op" and a.a[0] == b.a[0] == "add":
                # a common summand cancels
                la, lb = list(a.a[2:]), list(b.a[2:])
                hit = False
                for x in list(la):
                    if x in lb:
                        la.remove(x)
                        lb.remove(x)
                        hit = True
                if hit:
                    def tot(l):
                        return c(w, 0) if not l else l[0] if len(l) == 1 else op("add", w, *l)
                    return op("eq", w, tot(la), tot(lb))
            if a.k == b.k == "op" and a.a[0] == b.a[0] and a.a[0] in ("zext", "sext"):
                ia, ib = a.a[3], b.a[3]
                ext = zext if a.a[0] == "zext" else sext
                m = max(ia, ib)
                if m < w:
                    return op("eq", m, ext(m, ia, a.a[2]), ext(m, ib, b.a[2]))
            if key(b) < key(a):
                a, b = b, a
        return mk("op", "eq", w, a, b)
    if name in ("lt_s", "lt_u", "le_s", "le_u", "gt_s", "gt_u", "ge_s", "ge_u"):
        a, b = args
        r, s = name.split("_")
        if r == "gt":
            return op("lt_" + s, w, b, a)
        if r == "le":
            return op("not", 1, op("lt_" + s, w, b, a))
        if r == "ge":
            return op("not", 1, op("lt_" + s, w, a, b))
        if a is b:
            return FALSE
        if isc(a) and isc(b):
            return c(1, (sval(a) < sval(b)) if s == "s" else a.a[1] < b.a[1])
        if s == "u":
            if isc(b) and b.a[1] == 0:
                return FALSE
            if isc(b) and b.a[1] == 1:
                return op("eq", w, a, c(w, 0))
            if isc(a) and a.a[1] == m:
                return FALSE
            if isc(a) and a.a[1] == 0:
                return op("ne", w, b, c(w, 0))
            za = a.k == "op" and a.a[0] == "zext"
            zb = b.k == "op" and b.a[0] == "zext"
            if za and zb and a.a[3] == b.a[3]:
                return op("lt_u", a.a[3], a.a[2], b.a[2])
            if za and isc(b):
                if b.a[1] >> a.a[3]:
                    return TRUE
                return op("lt_u", a.a[3], a.a[2], c(a.a[3], b.a[1]))
            if zb and isc(a):
                if a.a[1] >> b.a[3]:
                    return FALSE
                return op("lt_u", b.a[3], c(b.a[3], a.a[1]), b.a[2])
        else:
            sa = a.k == "op" and a.a[0] == "sext"
            sb = b.k == "op" and b.a[0] == "sext"
            if sa and sb and a.a[3] == b.a[3]:
                return op("lt_s", a.a[3], a.a[2], b.a[2])
        return mk("op", "lt_" + s, w, a, b)
    if name in ("shl", "shr_s", "shr_u", "rotl", "rotr"):
        a, b = args
        b = strip_amt(b, w)
        if isc(b):
            n = b.a[1] % w
            if n == 0:
                return a
            if isc(a):
                v = a.a[1]
                return c(w, {"shl": v << n, "shr_u": v >> n, "shr_s": sval(a) >> n,
                             "rotl": (v << n) | (v >> (w - n)), "rotr": (v >> n) | (v << (w - n))}[name])
            b = c(w, n)
            if name == "rotr":
                return op("rotl", w, a, c(w, w - n))
            if name == "shr_s" and a.k == "op" and a.a[0] == "shl" and a.a[3] is b:
                return sext(w, w - n, trunc(w - n, a.a[2], w))
            if name == "shr_u" and a.k == "op" and a.a[0] == "shl" and a.a[3] is b:
                return zext(w, w - n, trunc(w - n, a.a[2], w))
            if name == "shl" and False:
                pass
        return mk("op", name, w, a, b)
    if name in ("div_s", "div_u", "rem_s", "rem_u"):
        a, b = args
        if isc(a) and isc(b) and b.a[1] != 0:
            if name == "div_u":
                return c(w, a.a[1] // b.a[1])
            if name == "rem_u":
                return c(w, a.a[1] % b.a[1])
            x, y = sval(a), sval(b)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return c(w, q if name == "div_s" else x - q * y)
        if name in ("div_u",) and isc(b) and b.a[1] == 1:
            return a
        return mk("op", name, w, *args)
    if name in ("ovf_add_u", "ovf_sub_u", "ovf_mul_u", "ovf_add_s", "ovf_sub_s", "ovf_mul_s"):
        a, b = args
        s = name.endswith("_s")
        x, y = (sval(a), sval(b)) if s and isc(a) and isc(b) else (a.a[1], b.a[1]) if isc(a) and isc(b) else (None, None)
        if x is not None:
            o = name[4:7]
            r = x + y if o == "add" else x - y if o == "sub" else x * y
            return c(1, not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if s else not 0 <= r <= m)
        if name.startswith("ovf_sub_u"):
            return op("lt_u", w, a, b)
        if isc(b) and b.a[1] == 0 or (isc(a) and a.a[1] == 0):
            if "sub" not in name or (isc(b) and b.a[1] == 0):
                return FALSE
        if name.startswith("ovf_mul") and (isc(a) and a.a[1] == 1 or isc(b) and b.a[1] == 1):
            return FALSE
        if "sub" not in name and key(b) < key(a) and not isc(a) or isc(a):
            a, b = b, a
        # zero-extended small operands cannot overflow
        if not s and name == "ovf_add_u":
            if umax(a, w) + umax(b, w) <= m:
                return FALSE
        return mk("op", name, w, a, b)
    return mk("op", name, w, *args)


def umax(t, w):
    """an upper bound of the unsigned value (containers have at most isize::MAX elements)"""
    m = (1 << w) - 1
    if isc(t):
        return t.a[1]
    if t.k == "len":
        return (1 << 63) - 1
    if t.k == "op":
        n = t.a[0]
        if n == "zext":
            return umax(t.a[2], t.a[3])
        if n == "add":
            s = 0
            for x in t.a[2:]:
                if isc(x) and x.a[1] >> (w - 1) and w == 64:
                    continue        # minus a small constant (no wrap: lengths are checked before they are reduced)
                s += umax(x, w)
            return min(s, m)
        if n == "mul":
            s = 1
            for x in t.a[2:]:
                s *= umax(x, w)
            return min(s, m)
        if n == "and":
            return min(umax(x, w) for x in t.a[2:])
        if n in ("shr_u",) and isc(t.a[3]):
            return umax(t.a[2], w) >> (t.a[3].a[1] % w)
        if n == "rem_u" and isc(t.a[3]) and t.a[3].a[1]:
            return t.a[3].a[1] - 1
        if n == "div_u" and isc(t.a[3]) and t.a[3].a[1]:
            return umax(t.a[2], w) // t.a[3].a[1]
        if n in ("clz", "ctz", "popcnt"):
            return w
    return m


def strip_amt(b, w):
    """shift amounts are taken modulo the width: drop widenings, truncations and masks that do not matter"""
    while b.k == "op":
        n = b.a[0]
        if n in ("zext", "sext"):
            if (1 << b.a[3]) >= w:
                b = b.a[2]
                continue
        if n == "trunc" and (1 << b.a[1]) >= w:
            b = b.a[2]
            continue
        if n == "and" and isc(b.a[-1]) and (b.a[-1].a[1] & (w - 1)) == w - 1:
            r = b.a[2:-1]
            b = r[0] if len(r) == 1 else mk("op", "and", b.a[1], *r)
            continue
        break
    if isc(b):
        return c(w, b.a[1] % w)
    return b


def zext(w, iw, a):
    if w == iw:
        return a
    if isc(a):
        return c(w, a.a[1])
    if a.k == "op" and a.a[0] == "zext":
        return mk("op", "zext", w, a.a[2], a.a[3])
    if a.k == "op" and a.a[0] == "trunc" and a.a[3] == w and umax(a.a[2], w) < (1 << iw):
        return a.a[2]
    return mk("op", "zext", w, a, iw)


def sext(w, iw, a):
    if w == iw:
        return a
    if isc(a):
        return c(w, sval(a))
    if a.k == "op" and a.a[0] == "sext":
        return mk("op", "sext", w, a.a[2], a.a[3])
    if a.k == "op" and a.a[0] == "zext":
        return mk("op", "zext", w, a.a[2], a.a[3])
    if iw == 1:
        pass
    return mk("op", "sext", w, a, iw)


def trunc(w, a, iw):
    if w == iw:
        return a
    if isc(a):
        return c(w, a.a[1])
    if a.k == "op":
        n = a.a[0]
        if n in ("zext", "sext"):
            b, bw = a.a[2], a.a[3]
            if bw == w:
                return b
            if bw > w:
                return trunc(w, b, bw)
            return zext(w, bw, b) if n == "zext" else sext(w, bw, b)
        if n == "trunc":
            return trunc(w, a.a[2], a.a[3])
        if n in COMM and n != "x":
            return op(n, w, *[trunc(w, x, iw) for x in a.a[2:]])
        if n == "neg":
            return op("neg", w, trunc(w, a.a[2], iw))
        if n == "shl" and isc(a.a[3]):
            k = a.a[3].a[1]
            return op("shl", w, trunc(w, a.a[2], iw), c(w, k)) if k < w else c(w, 0)
        if n == "not":
            return op("not", w, trunc(w, a.a[2], iw))
    return mk("op", "trunc", w, a, iw)


def f2d(ty, bits):
    return struct.unpack("<f" if ty == "f32" else "<d", struct.pack("<I" if ty == "f32" else "<Q", bits))[0]


def d2f(ty, v):
    if ty == "f32":
        try:
            return struct.unpack("<I", struct.pack("<f", v))[0]
        except OverflowError:
            return 0x7f800000 if v > 0 else 0xff800000
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def cfv(t):
    return f2d(t.a[0], t.a[1])


def fnext(ty, bits, up):
    """neighbouring float of a finite non-zero float"""
    w = 32 if ty == "f32" else 64
    neg = bits >> (w - 1)
    return bits + (1 if up != bool(neg) else -1)


def ffinite(t):
    v = cfv(t)
    return v == v and v not in (float("inf"), float("-inf"))


def fop(name, ty, *args):
    if all(isinstance(x, T) and x.k == "cf" for x in args) and args:
        if name in ("add", "sub", "mul", "div") and all(ffinite(x) for x in args):
            a, b = cfv(args[0]), cfv(args[1])
            if name != "div" or b != 0:
                r = a + b if name == "add" else a - b if name == "sub" else a * b if name == "mul" else a / b
                if r == r and r != 0:
                    return mk("cf", ty, d2f(ty, r))
        if name == "neg":
            return mk("cf", ty, args[0].a[1] ^ (1 << (31 if ty == "f32" else 63)))
        if name in ("lt", "le", "eq"):
            a, b = cfv(args[0]), cfv(args[1])
            return TRUE if (a < b if name == "lt" else a <= b if name == "le" else a == b) else FALSE
    if name in ("itof_s", "itof_u") and isc(args[0]):
        v = sval(args[0]) if name == "itof_s" else args[0].a[1]
        if ty == "f64" or abs(v) < 1 << 53:
            return mk("cf", ty, d2f(ty, float(v)))
        # f32 from a wide integer: round once
        n = abs(v)
        sh = n.bit_length() - 24
        q, r = n >> sh, n & ((1 << sh) - 1)
        h = 1 << (sh - 1)
        if r > h or (r == h and q & 1):
            q += 1
        return mk("cf", ty, d2f(ty, float((q << sh) * (1 if v > 0 else -1))))
    if name == "le":
        # comparisons with a constant are written with < and its neighbour
        a, b = args
        if b.k == "cf" and ffinite(b) and cfv(b) != 0:
            return mk("op", "lt", ty, a, mk("cf", ty, fnext(ty, b.a[1], True)))
        if a.k == "cf" and ffinite(a) and cfv(a) != 0:
            return mk("op", "lt", ty, mk("cf", ty, fnext(ty, a.a[1], False)), b)
    if name in ("add", "mul"):
        a, b = args
        if key(b) < key(a):
            a, b = b, a
        return mk("op", name, ty, a, b)
    if name == "gt":
        return fop("lt", ty, args[1], args[0])
    if name == "ge":
        return fop("le", ty, args[1], args[0])
    if name == "ne":
        return op("not", 1, fop("eq", ty, *args))
    if name == "eq":
        a, b = args
        if key(b) < key(a):
            a, b = b, a
        return mk("op", "eq", ty, a, b)
    return mk("op", name, ty, *args)


def bits_of(ty, t):
    """f32/f64 -> bit pattern"""
    w = 32 if ty == "f32" else 64
    if t.k == "cf":
        return c(w, t.a[1])
    if t.k == "op" and t.a[0] == "frombits":
        return t.a[2]
    return mk("op", "bits", ty, t)


def from_bits(ty, t):
    if isc(t):
        return mk("cf", ty, t.a[1])
    if t.k == "op" and t.a[0] == "bits" and t.a[1] == ty:
        return t.a[2]
    return mk("op", "frombits", ty, t)


def ite(cond, a, b):
    if isc(cond):
        return a if cond.a[1] else b
    if a is b:
        return a
    if cond.k == "op" and cond.a[0] == "not":
        return ite(cond.a[2], b, a)
    return mk("ite", cond, a, b)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def subst(t, m, memo=None):
    """replace subterms by the map m (term -> term) and renormalise"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    a = tuple(subst(x, m, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    if a == t.a:
        r = t
    else:
        r = rebuild(t.k, a)
    memo[t] = r
    return r


def rebuild(k, a):
    if k == "op":
        n, w = a[0], a[1]
        if n == "zext":
            return zext(w, a[3], a[2])
        if n == "sext":
            return sext(w, a[3], a[2])
        if n == "trunc":
            return trunc(w, a[2], a[3])
        if n == "bits":
            return bits_of(w, a[2])
        if n == "frombits":
            return from_bits(w, a[2])
        return op(n, w, *a[2:])
    if k == "ite":
        return ite(*a)
    if k == "fld":
        return fld(*a)
    if k == "discr":
        return discr(*a)
    f = REBUILD.get(k)
    if f is not None:
        return f(*a)
    return mk(k, *a)


REBUILD = {}


def fld(x, var, i):
    """field i of value x (as variant var, or None for structs/tuples/arrays by constant index)"""
    if x.k == "agg":
        fs = x.a[2]
        if i < len(fs):
            return fs[i]
        return mk("fld", x, var, i)
    if x.k == "upd":
        for kk, v in x.a[1]:
            if kk == (var, i):
                return v
        return fld(x.a[0], var, i)
    if x.k == "ite":
        return ite(x.a[0], fld(x.a[1], var, i), fld(x.a[2], var, i))
    return mk("fld", x, var, i)


def setfld(x, var, i, v):
    if x.k == "agg" and i < len(x.a[2]):
        fs = list(x.a[2])
        fs[i] = v
        return mk("agg", x.a[0], x.a[1], tuple(fs))
    d = {}
    base = x
    if x.k == "upd":
        base = x.a[0]
        d = dict(x.a[1])
    if base.k == "fld" or True:
        orig = fld(base, var, i) if base.k != "uninit" else None
    if orig is v:
        d.pop((var, i), None)
    else:
        d[(var, i)] = v
    if not d:
        return base
    return mk("upd", base, tuple(sorted(d.items(), key=lambda kv: (str(kv[0])))))


def _upd(base, items):
    for (var, i), v in items:
        base = setfld(base, var, i, v)
    return base


REBUILD["upd"] = _upd


def discr(x, variants):
    """discriminant of enum value x; variants = tuple of discriminant values"""
    if x.k == "agg" and x.a[1] is not None:
        return c(64, variants[x.a[1]])
    if x.k == "upd":
        return discr(x.a[0], variants)
    if x.k == "ite":
        a, b = discr(x.a[1], variants), discr(x.a[2], variants)
        return ite(x.a[0], a, b)
    return mk("discr", x, variants)


def sw(d, cases):
    """the case of d's value (None: any other value)"""
    if isc(d):
        other = None
        for lab, v in cases:
            if lab is None:
                other = v
            elif lab.a[1] == d.a[1]:
                return v
        if other is not None:
            return other
        return mk("undef")
    vs = [v for _, v in cases]
    if all(v is vs[0] for v in vs):
        return vs[0]
    if len(cases) == 2 and {c_[0] for c_ in cases} == {TRUE, FALSE}:
        m = dict(cases)
        return ite(d, m[TRUE], m[FALSE])
    return mk("sw", d, tuple(cases))


REBUILD["sw"] = sw
