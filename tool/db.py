"""Program database: the facts the driver wrote for each crate, linked by symbol."""
import re
import json, os


def fill(deff, blocks):
    """The standard library's ways to fill a vector write into its spare room through a raw pointer; they are read as what they are
    specified to do: push each element the iterator yields. (`pushl`/`pushr`: push to a local vector / through a reference to one;
    `pushn`: through a reference to its length, `emptyvec`.) Returns None when the body is not of the known form."""
    if deff == "alloc::vec::Vec::<T, A>::extend_trusted::{closure#0}":
        for b in blocks:
            for s in b[0]:
                if s[1] == "=" and s[3][0] == "bin" and s[3][1] == "Add" and isinstance(s[2], list) and s[2][1] == "*":
                    ln = s[2][:-1] + [[".", 0, s[2][-1][2]]]
                    return [[[[s[0], "pushn", ln, ["m", 2]]], [s[0], "ret"]]]
        return None
    ext = deff == "alloc::vec::Vec::<T, A>::extend_desugared"
    if not ext and not re.search(r"::SpecFromIterNested<.*::from_iter$", deff):
        return None
    line = blocks[0][1][0]
    push = lambda v: [line, "pushr", 1, v] if ext else [line, "pushl", 0, v]
    init = [] if ext else [[line, "=", 0, ["emptyvec"]]]
    for b in blocks:
        t = b[1]
        if t[1] == "call" and t[2] and t[2][0] == "core::iter::traits::iterator::Iterator::next":
            it = 2 if ext else 1
            st = [s for s in b[0] if s[1] == "=" and s[3][0] == "ref" and s[3][2] == it]
            if len(st) != 1:
                return None
            d = blocks[t[5]]
            sw = d[1]
            if sw[1] != "sw" or {x[0] for x in sw[3]} != {0, 1}:
                return None
            some = blocks[dict(sw[3])[1]]
            use = [s for s in some[0] if s[1] == "=" and s[3][0] == "use" and isinstance(s[3][1][1], list) and s[3][1][1][0] == t[4] and s[3][1][1][1][0] == "d"]
            while not use and some[1][1] == "goto":
                some = blocks[some[1][2]]
                use = [s for s in some[0] if s[1] == "=" and s[3][0] == "use" and isinstance(s[3][1][1], list) and s[3][1][1][0] == t[4] and s[3][1][1][1][0] == "d"]
            if not use:
                return None
            t2 = list(t)
            t2[5] = 2
            return [[init, [line, "goto", 1]], [st, t2], [d[0], [sw[0], "sw", sw[2], [[1, 3], [0, 4]], 5] + sw[5:]],
                    [[use[0], push(["m", use[0][2]])], [line, "goto", 1]], [[], [line, "ret"]], [[], [line, "unreach"]]]
    for b in blocks:
        t = b[1]
        if not ext and t[1] == "call" and t[2] and t[2][0].endswith("::SpecExtend::spec_extend") and t[3][0][0] == "m" and isinstance(t[3][0][1], int):
            t2 = list(t)
            t2[3], t2[5] = [t[3][0], ["m", 1]], 1
            return [[init + [[line, "=", t[3][0][1], ["ref", 1, 0]]], t2], [[], [line, "ret"]]]
    return None


class Fn:
    __slots__ = ("name", "deff", "sym", "crate", "ctx", "b", "file", "line", "argc", "spread", "locals",
                 "blocks", "names", "_loops", "poly", "kind", "_dom", "_pred")

    def __init__(self, ctx, info, b, poly=False):
        self.ctx = ctx
        self.name = info["name"]
        self.deff = info["def"]
        self.sym = info.get("sym")
        self.crate = info["crate"]
        self.kind = info.get("kind", "item")
        self.b = b
        self.file = b["file"]
        self.line = b["line"]
        self.argc = b["argc"]
        self.spread = b["spread"]
        self.locals = b["locals"]
        self.blocks = fill(self.deff, b["blocks"]) or b["blocks"] if self.crate == "alloc" else b["blocks"]
        self.names = b["names"]
        self._loops = None
        self._dom = None
        self._pred = None
        self.poly = poly

    def __repr__(self):
        return "<Fn %s>" % self.name

    def succs(self, i, unwind=False):
        t = self.blocks[i][1]
        k = t[1]
        if k == "goto":
            return [t[2]]
        if k == "sw":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "drop":
            r = [t[3]]
            if unwind and t[4] is not None:
                r.append(t[4])
            return r
        if k == "call":
            r = [t[5]] if t[5] is not None else []
            if unwind and t[6] is not None:
                r.append(t[6])
            return r
        if k == "assert":
            r = [t[5]]
            if unwind and t[6] is not None:
                r.append(t[6])
            return r
        if k == "asm":
            return [t[2]] if t[2] is not None else []
        return []

    def loop_blocks(self, h):
        """the blocks of the loop at header h: on a path from h back to h"""
        fw, st = set(), [h]
        while st:
            x = st.pop()
            for y in self.succs(x):
                if y not in fw:
                    fw.add(y)
                    st.append(y)
        pred = {}
        for x in fw | {h}:
            for y in self.succs(x):
                pred.setdefault(y, []).append(x)
        # backwards from h inside the blocks reachable from h
        bw, st = set(), [h]
        while st:
            x = st.pop()
            for y in pred.get(x, ()):
                if y not in bw and y in fw | {h}:
                    bw.add(y)
                    st.append(y)
        return bw | {h}

    def loop_mods(self, h):
        """places that statements of the loop at h may change: (base local, through a pointer?)"""
        out = set()

        def put(pl):
            if isinstance(pl, int):
                out.add((pl, False))
            else:
                out.add((pl[0], "*" in pl[1:]))
        for b in self.loop_blocks(h):
            stmts, t = self.blocks[b][0], self.blocks[b][1]
            for s in stmts:
                if s[1] in ("=", "sd"):
                    put(s[2])
                if s[1] == "=" and s[3][0] in ("ref", "addr") and s[3][1]:
                    put(s[3][2])
            if t[1] == "call" and t[4] is not None:
                put(t[4])
            if t[1] == "drop":
                put(t[2])
        return out

    def live_at(self, h, b):
        """may the value local b has at the start of block h be read?"""
        def base(pl):
            return pl if isinstance(pl, int) else pl[0] if isinstance(pl, list) and pl and isinstance(pl[0], int) else None

        def reads(x):
            if not isinstance(x, (list, tuple)):
                return False
            if len(x) >= 2 and x[0] in ("c", "m") and base(x[1]) == b:
                return True
            return any(reads(y) for y in x)

        def rvalue(r):
            if r[0] in ("use", "cbin", "bin", "un", "cast", "agg", "rep"):
                return reads(r)
            return reads(r) or any(base(y) == b for y in r[1:] if isinstance(y, (int, list)) and not isinstance(y, bool))

        def dest(pl):
            """True: read through, None: overwritten"""
            if pl == b:
                return None
            return base(pl) == b
        seen, todo = set(), [h]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            stmts, t = self.blocks[i][0], self.blocks[i][1]
            dead = False
            for s in stmts:
                if s[1] == "=":
                    if rvalue(s[3]):
                        return True
                    d = dest(s[2])
                elif s[1] == "sd":
                    d = dest(s[2]) is not False
                else:
                    d = reads(s)
                if d:
                    return True
                if d is None:
                    dead = True
                    break
            if dead:
                continue
            k = t[1]
            if k == "call":
                if reads(t[2]) or reads(t[3]):
                    return True
                if t[4] is not None:
                    d = dest(t[4])
                    if d:
                        return True
                    if d is None:
                        continue
            elif k == "ret":
                if b == 0:
                    return True
            elif k == "drop":
                if base(t[2]) == b:
                    return True
            elif k not in ("goto", "unreach", "resume") and (reads(t) or k not in ("sw", "assert")):
                return True
            todo.extend(self.succs(i))
        return False

    def loop_headers(self):
        """blocks that are the target of a back edge of a DFS (reducible code: the loop headers)"""
        if self._loops is None:
            hd, color = set(), {}
            stack = [(0, iter(self.succs(0)))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for s in it:
                    c = color.get(s, 0)
                    if c == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                    if c == 1:
                        hd.add(s)
                else:
                    color[n] = 2
                    stack.pop()
            self._loops = hd
        return self._loops


class Ctx:
    """one facts file"""

    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.types = d["types"]
        for t in self.types:
            if t["k"] == "float":
                t["w"] = int(t["s"][1:])
        self.syms = d["syms"]
        self.roots = d["roots"]
        self.vis = d["vis"]
        self.impls = d["impls"]
        self.fns = {}
        for k, b in d["bodies"].items():
            self.fns[int(k)] = Fn(self, self.syms[int(k)], b)
        self.poly = []
        for p in d["poly"]:
            self.poly.append(Fn(self, {"name": p["def"], "def": p["def"], "crate": self.crate}, p, True))

    def ty(self, i):
        return self.types[i]


class DB:
    def __init__(self, dirname, crates):
        self.ctxs = {}
        self.by_sym = {}
        self.by_name = {}
        self.by_def = {}
        self.poly_def = {}
        for c in crates:
            p = os.path.join(dirname, c + ".json")
            cx = Ctx(p)
            self.ctxs[c] = cx
            for f in cx.fns.values():
                self.by_sym.setdefault(f.sym, f)
                self.by_name.setdefault(f.name, f)
                self.by_def.setdefault(f.deff, [])
                if all(g.sym != f.sym for g in self.by_def[f.deff]):
                    self.by_def[f.deff].append(f)
            for f in cx.poly:
                self.poly_def.setdefault(f.deff, f)

    def fn_of(self, ctx, symi):
        """body of a resolved callee (symbol index of a facts file) or None"""
        f = ctx.fns.get(symi)
        if f is not None:
            return f
        s = ctx.syms[symi]
        f = self.by_sym.get(s["sym"])
        if f is None and s["kind"] in ("item", "shim"):
            f = self.by_name.get(s["name"])
        return f

    def local_fns(self, crate):
        cx = self.ctxs[crate]
        seen = set()
        for f in cx.fns.values():
            if f.crate == crate and f.sym not in seen:
                seen.add(f.sym)
                yield f
        for f in cx.poly:
            yield f

    def one(self, name):
        """the unique function with this def path; KeyError if there is none (missing anchor)"""
        l = self.by_def.get(name)
        if not l:
            p = self.poly_def.get(name)
            if p:
                return p
            raise KeyError("anchor missing: no function %s" % name)
        return l[0]
