"""Models of standard-library functions: the trusted semantics of containers, iterators, smart pointers and memory moves."""
from engine import (model, MODELS, Call, ref, agg, some, ok, err, NONE, OPT, RES, U, slen, spush, spop, slast, sel, sstore,
                    strunc, ssub, FNTRAIT)
from terms import *

V = "alloc::vec::Vec::<T, A>::"
V0 = "alloc::vec::Vec::<T>::"
IT = "core::iter::traits::iterator::Iterator::"
EMPTY = agg("vec", None, ())


def vec_place(C, r):
    return C.load(r)


@model(V0 + "new", "<alloc::vec::Vec<T> as core::default::Default>::default")
def _(C):
    return C.ret(EMPTY)


@model(V0 + "with_capacity", V0 + "try_with_capacity", V + "with_capacity_in")
def _(C):
    C.event("alloc")
    return C.ret(EMPTY) if not C.sym["def"].endswith("::try_with_capacity") else NotImplemented


@model(V + "len")
def _(C):
    return C.ret(slen(C.load(C.args[0])))


@model(V + "is_empty")
def _(C):
    return C.ret(op("eq", 64, slen(C.load(C.args[0])), U(0)))


@model(V + "push")
def _(C):
    C.store(C.args[0], spush(C.load(C.args[0]), C.args[1]))
    return C.ret(UNIT)


@model(V + "pop")
def _(C):
    x = C.load(C.args[0])

    def nonempty(st):
        C.store(C.args[0], spop(x), st)
        return C.setret(st, some(slast(x)))
    return C.fork(op("eq", 64, slen(x), U(0)), lambda st: C.setret(st, NONE), nonempty)


@model(V + "clear")
def _(C):
    C.store(C.args[0], EMPTY)
    return C.ret(UNIT)


@model(V + "truncate")
def _(C):
    x = C.load(C.args[0])
    n = C.args[1]
    l = slen(x)

    def shrink(st):
        C.store(C.args[0], strunc(x, n), st)
        return C.setret(st, UNIT)
    return C.fork(op("lt_u", 64, n, l), shrink, lambda st: C.setret(st, UNIT))


@model(V + "resize", V + "resize_with")
def _(C):
    x = C.load(C.args[0])
    C.event("alloc")
    if slen(x) is C.args[1]:
        return C.ret(UNIT)
    C.store(C.args[0], mk("rsz", x, C.args[1], C.e.snap(C.st, C.args[2])))
    return C.ret(UNIT)


@model("<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend")
def _(C):
    x = C.args[1]
    t = C.ty(1)
    if t.get("def") != OPT:
        return NotImplemented

    def put(st):
        C.event("alloc")
        C.store(C.args[0], spush(C.load(C.args[0], st), fld(x, 1, 0)), st)
        return C.setret(st, UNIT)
    if x is NONE:
        return C.ret(UNIT)
    if x.k == "agg":
        C.store(C.args[0], spush(C.load(C.args[0]), x.a[2][0]))
        return C.ret(UNIT)
    return C.fork(op("eq", 64, C.e.discr(x, t), c(64, 1)), put, lambda st: C.setret(st, UNIT))


@model("alloc::vec::from_elem")
def _(C):
    C.event("alloc")
    if C.args[1].k == "c" and C.args[1].a[1] <= 16:
        return C.ret(agg("vec", None, (C.args[0],) * C.args[1].a[1]))
    return C.ret(mk("seqrep", C.args[0], C.args[1]))


@model(V + "capacity")
def _(C):
    # the capacity is a property of the buffer, not of the contents
    r = C.args[0]
    v = mk("cap", r if r.k != "ref" else mk("at", *[show(r)]))
    C.e.tyinfo[v] = 64
    C.event("cap", ret=v)
    return C.ret(v)


@model(V + "reserve", V + "reserve_exact", V + "shrink_to_fit")
def _(C):
    C.event("alloc")
    return C.ret(UNIT)


@model(V + "try_reserve", V + "try_reserve_exact")
def _(C):
    C.event("alloc")
    cnd = mk("v", "alloc_ok", C.st.n)
    C.st.n += 1
    return C.fork(cnd, lambda st: C.setret(st, ok(UNIT)), lambda st: C.setret(st, err(mk("v", "TryReserveError", 0))))


@model(V + "as_slice", V + "as_mut_slice", "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
       "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut", "alloc::slice::<impl core::borrow::Borrow<[T]> for alloc::vec::Vec<T, A>>::borrow",
       "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref", "<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow")
def _(C):
    r = C.args[0]
    if r.k != "ref":
        r = ref(r, (), None)
    return C.ret(r)


@model(V + "into_boxed_slice", "alloc::slice::<impl [T]>::into_vec")
def _(C):
    return C.ret(box(C.st, C.args[0]))


def box(st, v):
    return mk("box", v)


@model("alloc::boxed::Box::<T>::new")
def _(C):
    h = mk("H", "box", C.st.n)
    C.st.n += 1
    C.st.mem[h] = C.args[0]
    return C.ret(ref(h))


@model("alloc::boxed::box_new_uninit")
def _(C):
    h = mk("H", "box", C.st.n)
    C.st.n += 1
    C.st.mem[h] = mk("uninit")
    return C.ret(ref(h))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(C):
    p = C.e.ptr_of(C.args[0])
    if p.k != "ref":
        return NotImplemented
    v = C.load(p)
    for _ in range(3):
        while v.k == "upd" and len(v.a[1]) == 1:
            v = v.a[1][0][1]
    if v.k != "agg" or v.a[0] != "[]":
        return NotImplemented
    return C.ret(agg("vec", None, v.a[2]))


@model("alloc::sync::Arc::<T>::new", "alloc::rc::Rc::<T>::new")
def _(C):
    return C.ret(mk("arc", C.args[0]))


@model("<alloc::sync::Arc<T, A> as core::ops::deref::Deref>::deref", "<alloc::rc::Rc<T, A> as core::ops::deref::Deref>::deref",
       "<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref", "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref",
       "<alloc::sync::Arc<T, A> as core::convert::AsRef<T>>::as_ref")
def _(C):
    v = C.e.ptr_of(C.load(C.args[0]))
    if v.k in ("ref",):
        return C.ret(v)
    if v.k == "arc":
        return C.ret(ref(mk("K", v.a[0])))
    return C.ret(ref(v, (), None))


@model("<alloc::sync::Arc<T, A> as core::clone::Clone>::clone", "<alloc::rc::Rc<T, A> as core::clone::Clone>::clone",
       "<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone", "<alloc::rcs::rc::Rc<T, A> as core::clone::Clone>::clone",
       "core::clone::impls::<impl core::clone::Clone for &T>::clone")
def _(C):
    return C.ret(C.load(C.args[0]))


@model("<alloc::boxed::Box<T, A> as core::clone::Clone>::clone", "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone",
       "<alloc::boxed::Box<[T], A> as core::clone::Clone>::clone", "<alloc::boxed::Box<str, A> as core::clone::Clone>::clone",
       "alloc::slice::<impl [T]>::to_vec", "<alloc::string::String as core::clone::Clone>::clone",
       "<alloc::collections::btree::map::BTreeMap<K, V, A> as core::clone::Clone>::clone")
def _(C):
    return C.ret(mk("clone", C.load(C.args[0])) if False else C.load(C.args[0]))


@model("<alloc::sync::Arc<T, A> as core::cmp::PartialEq>::eq", "<alloc::rcs::arc::Arc<T, A> as core::cmp::PartialEq>::eq", "<alloc::rcs::rc::Rc<T, A> as core::cmp::PartialEq>::eq")
def _(C):
    a, b = C.load(C.args[0]), C.load(C.args[1])
    return C.ret(peq(C, a, b))


@model("<alloc::sync::Arc<T, A> as core::cmp::PartialEq>::ne", "<alloc::rcs::arc::Arc<T, A> as core::cmp::PartialEq>::ne", "<alloc::rcs::rc::Rc<T, A> as core::cmp::PartialEq>::ne")
def _(C):
    a, b = C.load(C.args[0]), C.load(C.args[1])
    return C.ret(op("not", 1, peq(C, a, b)))


def peq(C, a, b):
    if a is b:
        return TRUE
    if key(b) < key(a):
        a, b = b, a
    return mk("op", "deepeq", 64, a, b)


@model("alloc::sync::Arc::<T, A>::ptr_eq", "alloc::rc::Rc::<T, A>::ptr_eq", "alloc::rcs::arc::Arc::<T, A>::ptr_eq", "alloc::rcs::rc::Rc::<T, A>::ptr_eq", "core::ptr::eq")
def _(C):
    a, b = C.args[0], C.args[1]
    if C.sym["def"] != "core::ptr::eq":
        a, b = C.load(a), C.load(b)
    if a is b:
        return C.ret(TRUE)
    if key(b) < key(a):
        a, b = b, a
    return C.ret(mk("op", "ptreq", 64, a, b))


# ---------------------------------------------------------------- slices and indexing
S = "core::slice::<impl [T]>::"


def slice_len(C, r):
    return C.e.ptr_len(C.st, r)


def as_ref_(r):
    return r if r.k == "ref" else ref(r, (), None)


def elem(r, i):
    r = as_ref_(r)
    return ref(r.a[0], r.a[1] + (("i", i),), None)


def rng(r, start, n):
    r = as_ref_(r)
    if r.a[1] and r.a[1][-1][0] == "sr":
        p = r.a[1][-1]
        return ref(r.a[0], r.a[1][:-1] + (("sr", op("add", 64, p[1], start), n),), n)
    return ref(r.a[0], r.a[1] + (("sr", start, n),), n)


def range_of(C, i, ty, n):
    """(start, end, checks) of an index value of a range type over a sequence of length n"""
    d = ty.get("def", "")
    f = lambda k: fld(i, None, k)
    if d.endswith("ops::range::Range"):
        return f(0), f(1), [op("lt_u", 64, f(1), f(0)), op("lt_u", 64, n, f(1))]
    if d.endswith("ops::range::RangeTo"):
        return U(0), f(0), [op("lt_u", 64, n, f(0))]
    if d.endswith("ops::range::RangeFrom"):
        return f(0), n, [op("lt_u", 64, n, f(0))]
    if d.endswith("ops::range::RangeFull"):
        return U(0), n, []
    if d.endswith("ops::range::RangeInclusive"):
        e = op("add", 64, f(1), U(1))
        return f(0), e, [op("eq", 64, f(1), U(-1)), op("lt_u", 64, e, f(0)), op("lt_u", 64, n, e)]
    if d.endswith("ops::range::RangeToInclusive"):
        e = op("add", 64, f(0), U(1))
        return U(0), e, [op("eq", 64, f(0), U(-1)), op("lt_u", 64, n, e)]
    return None


def sub_call(C, st):
    return Call(C.e, st, C.fr, C.args, C.argt, C.dest, C.target, C.line, C.work, C.outs, C.sym, C.odef, C.body, C.fn)


def chain_checks(C, st, checks, bad, good):
    """checks are failure conditions"""
    if not checks:
        return good(st)
    C2 = sub_call(C, st)
    return C2.fork(checks[0], lambda s: bad(s, checks[0]), lambda s: chain_checks(C, s, checks[1:], bad, good))


IDX = ["<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index", "<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut",
       "core::slice::index::<impl core::ops::index::Index<I> for [T]>::index", "core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut",
       "core::array::<impl core::ops::index::Index<I> for [T; N]>::index", "core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut"]


@model(*IDX)
def _(C):
    r, i = C.args
    r = as_ref_(C.e.ptr_of(r))
    ty = C.ty(1)
    n = C.e.ptr_len(C.st, r)
    st0 = C.st
    if C.sym["def"].startswith("core::array"):
        t0 = C.fn.ctx.types[C.argt[0]]
        ta = C.fn.ctx.types[t0["e"]]
        if isinstance(ta.get("n"), int):
            n = U(ta["n"])
    if ty["k"] == "uint":
        return C.fork(op("lt_u", 64, i, n), lambda st: C.setret(st, elem(r, i)), lambda st: C.panic("index", st, (i, n)))
    x = range_of(C, i, ty, n)
    if x is None:
        return NotImplemented
    s, e, checks = x
    return chain_checks(C, C.st, checks, lambda st, c_: C.panic("slice-index", st, (s, e, n)),
                        lambda st: C.setret(st, rng(r, s, op("sub", 64, e, s))))


@model(S + "get", S + "get_mut")
def _(C):
    r, i = C.args
    r = as_ref_(C.e.ptr_of(r))
    ty = C.ty(1)
    n = C.e.ptr_len(C.st, r)
    if ty["k"] == "uint":
        return C.fork(op("lt_u", 64, i, n), lambda st: C.setret(st, some(elem(r, i))), lambda st: C.setret(st, NONE))
    x = range_of(C, i, ty, n)
    if x is None:
        return NotImplemented
    s, e, checks = x
    return chain_checks(C, C.st, checks, lambda st, c_: C.setret(st, NONE),
                        lambda st: C.setret(st, some(rng(r, s, op("sub", 64, e, s)))))


@model(S + "get_disjoint_mut")
def _(C):
    r, ix = C.args
    r = as_ref_(C.e.ptr_of(r))
    if ix.k != "agg" or len(ix.a[2]) != 2:
        return NotImplemented
    i, j = ix.a[2]
    n = C.e.ptr_len(C.st, r)
    bad = lambda st: C.setret(st, err(mk("call", "disjoint", (i, j))))
    return chain_checks(C, C.st, [op("not", 1, op("lt_u", 64, i, n)), op("not", 1, op("lt_u", 64, j, n)), op("eq", 64, i, j)], lambda st, c_: bad(st),
                        lambda st: C.setret(st, ok(agg(ix.a[0], None, (elem(r, i), elem(r, j))))))


@model(S + "len")
def _(C):
    return C.ret(C.e.ptr_len(C.st, C.args[0]))


@model(S + "is_empty")
def _(C):
    return C.ret(op("eq", 64, C.e.ptr_len(C.st, C.args[0]), U(0)))


@model(S + "first", S + "first_mut")
def _(C):
    n = C.e.ptr_len(C.st, C.args[0])
    return C.fork(op("eq", 64, n, U(0)), lambda st: C.setret(st, NONE), lambda st: C.setret(st, some(elem(C.args[0], U(0)))))


@model(S + "last", S + "last_mut")
def _(C):
    r = as_ref_(C.e.ptr_of(C.args[0]))
    n = C.e.ptr_len(C.st, r)
    return C.fork(op("eq", 64, n, U(0)), lambda st: C.setret(st, NONE),
                  lambda st: C.setret(st, some(lastref(C, st, r, n))))


def lastref(C, st, r, n):
    v = C.e.load(st, r)
    if v.k in ("push", "pop", "v", "fld", "deref", "store", "upd", "lp", "after", "agg"):
        # the last element, by value, as an immutable view
        if not C.sym["def"].endswith("mut"):
            return ref(mk("K", slast(v)))
    return elem(r, op("sub", 64, n, U(1)))


@model(S + "split_at", S + "split_at_mut")
def _(C):
    r, m = C.args
    n = C.e.ptr_len(C.st, r)
    return C.fork(op("lt_u", 64, n, m), lambda st: C.panic("split_at", st, (m, n)),
                  lambda st: C.setret(st, agg("()", None, (rng(r, U(0), m), rng(r, m, op("sub", 64, n, m))))))


@model(S + "split_at_checked", S + "split_at_mut_checked")
def _(C):
    r, m = C.args
    n = C.e.ptr_len(C.st, r)
    return C.fork(op("lt_u", 64, n, m), lambda st: C.setret(st, NONE),
                  lambda st: C.setret(st, some(agg("()", None, (rng(r, U(0), m), rng(r, m, op("sub", 64, n, m)))))))


@model(S + "copy_from_slice", S + "clone_from_slice")
def _(C):
    d, s = C.args
    ld, ls = C.e.ptr_len(C.st, d), C.e.ptr_len(C.st, s)
    sv = C.e.load(C.st, s)

    def good(st):
        C.st = st
        C.event("write", "copy_from_slice")
        C.e.store(st, as_ref_(d), sv)
        return C.setret(st, UNIT)
    return C.fork(op("eq", 64, ld, ls), good, lambda st: C.panic("copy_from_slice", st, (ld, ls)))


@model(S + "fill")
def _(C):
    C.event("write", "fill")
    r = as_ref_(C.args[0])
    C.store(r, mk("seqrep", C.args[1], C.e.ptr_len(C.st, r)))
    return C.ret(UNIT)


@model(S + "copy_within")
def _(C):
    r, src, dst = C.args
    r = as_ref_(r)
    n = C.e.ptr_len(C.st, r)
    x = range_of(C, src, C.ty(1), n)
    if x is None:
        return NotImplemented
    s, e, checks = x
    cnt = op("sub", 64, e, s)
    v = C.load(r)

    def good(st):
        C.st = st
        C.event("write", "copy_within")
        C.e.store(st, r, mk("cpw", v, s, cnt, dst))
        return C.setret(st, UNIT)
    return chain_checks(C, C.st, checks + [op("lt_u", 64, op("sub", 64, n, cnt), dst)],
                        lambda st, c_: C.panic("copy_within", st, (s, e, dst, n)), good)


@model("core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
       S + "iter", S + "iter_mut", "core::slice::iter::Iter::<'a, T>::new", "core::slice::iter::IterMut::<'a, T>::new")
def _(C):
    r = as_ref_(C.e.ptr_of(C.args[0]))
    return C.ret(agg("slice_iter", None, (r, U(0), C.e.ptr_len(C.st, r))))


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
       "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next")
def _(C):
    itr = C.args[0]
    it = C.load(itr)
    if it.k != "agg" or it.a[0] != "slice_iter":
        return opaque_next(C)
    r, i, n = it.a[2]

    def more(st):
        C.e.store(st, itr, agg("slice_iter", None, (r, op("add", 64, i, U(1)), n)))
        return C.setret(st, some(elem(r, i)))
    return C.fork(op("lt_u", 64, i, n), more, lambda st: C.setret(st, NONE))


def opaque_next(C):
    it = C.load(C.args[0])
    cnd = mk("v", "has_next", C.st.n)
    C.st.n += 1
    v = mk("nextof", it)

    def more(st):
        C.e.store(st, C.args[0], mk("rest", it))
        return C.setret(st, some(v))
    return C.fork(cnd, more, lambda st: C.setret(st, NONE))


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back",
       "<core::slice::iter::IterMut<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def _(C):
    itr = C.args[0]
    it = C.load(itr)
    if it.k != "agg" or it.a[0] != "slice_iter":
        return opaque_next(C)
    r, i, n = it.a[2]
    m = op("sub", 64, n, U(1))

    def more(st):
        C.e.store(st, itr, agg("slice_iter", None, (r, i, m)))
        return C.setret(st, some(elem(r, m)))
    return C.fork(op("lt_u", 64, i, n), more, lambda st: C.setret(st, NONE))


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::size_hint",
       "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::size_hint")
def _(C):
    it = C.load(C.args[0])
    if it.k != "agg":
        return NotImplemented
    r, i, n = it.a[2]
    l = op("sub", 64, n, i)
    return C.ret(agg("()", None, (l, some(l))))


@model("core::slice::iter::<impl core::iter::traits::exact_size::ExactSizeIterator for core::slice::iter::Iter<'_, T>>::len",
       "<core::slice::iter::Iter<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len")
def _(C):
    it = C.load(C.args[0])
    if it.k != "agg":
        return NotImplemented
    r, i, n = it.a[2]
    return C.ret(op("sub", 64, n, i))


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked",
       "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked")
def _(C):
    it = C.load(C.args[0])
    if it.k != "agg":
        return NotImplemented
    r, i, n = it.a[2]
    return C.ret(elem(r, op("add", 64, i, C.args[1])))


@model("<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::next",
       "<core::array::iter::IntoIter<T, N> as core::iter::traits::iterator::Iterator>::next")
def _(C):
    it = C.load(C.args[0])
    if it.k != "agg" or it.a[0] != "into_iter":
        return opaque_next(C)
    x, i, n = it.a[2]

    def more(st):
        C.e.store(st, C.args[0], agg("into_iter", None, (x, op("add", 64, i, U(1)), n)))
        return C.setret(st, some(sel(x, i)))
    return C.fork(op("lt_u", 64, i, n), more, lambda st: C.setret(st, NONE))


@model("<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter",
       "core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter")
def _(C):
    x = C.args[0]
    return C.ret(agg("into_iter", None, (x, U(0), slen(x))))


@model("<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::size_hint")
def _(C):
    it = C.load(C.args[0])
    if it.k != "agg" or it.a[0] != "into_iter":
        return NotImplemented
    x, i, n = it.a[2]
    l = op("sub", 64, n, i)
    return C.ret(agg("()", None, (l, some(l))))


# ---------------------------------------------------------------- memory moves
@model("core::mem::replace")
def _(C):
    old = C.load(C.args[0])
    C.store(C.args[0], C.args[1])
    return C.ret(old)


@model("core::mem::swap")
def _(C):
    a, b = C.load(C.args[0]), C.load(C.args[1])
    C.store(C.args[0], b)
    C.store(C.args[1], a)
    return C.ret(UNIT)


@model("core::option::Option::<T>::take")
def _(C):
    old = C.load(C.args[0])
    C.store(C.args[0], NONE)
    return C.ret(old)


@model("core::ptr::read", "core::intrinsics::read_via_copy")
def _(C):
    return C.ret(C.load(C.args[0]))


@model("core::intrinsics::ptr_offset_from_unsigned", "core::intrinsics::ptr_offset_from")
def _(C):
    a, b = [C.e.ptr_of(x) if isinstance(x, T) and x.k == "agg" else x for x in C.args[:2]]
    if a.k == "ipt" and b.k == "ipt" and a.a[0] is b.a[0]:
        return C.ret(op("sub", 64, a.a[1], b.a[1]))
    return NotImplemented


@model("<alloc::vec::set_len_on_drop::SetLenOnDrop<'_> as core::ops::drop::Drop>::drop")
def _(C):
    return C.ret(UNIT)


@model("core::ptr::write", "core::intrinsics::write_via_move")
def _(C):
    C.store(C.args[0], C.args[1])
    return C.ret(UNIT)


@model("core::mem::drop", "core::mem::forget", "core::hint::cold_path", "core::intrinsics::cold_path", "core::intrinsics::assert_inhabited",
       "core::hint::assert_unchecked", "core::ub_checks::assert_unsafe_precondition")
def _(C):
    if C.sym["def"] == "core::mem::drop":
        C.event("drop")
    return C.ret(UNIT)


@model("core::hint::black_box", "core::hint::must_use", "core::intrinsics::likely", "core::intrinsics::unlikely", "core::intrinsics::black_box",
       "core::convert::identity")
def _(C):
    return C.ret(C.args[0])


@model("core::intrinsics::discriminant_value")
def _(C):
    t = C.fn.ctx.types[C.argt[0]]
    e = C.fn.ctx.types[t["e"]]
    return C.ret(C.e.discr(C.load(C.args[0]), e))


@model("core::intrinsics::three_way_compare")
def _(C):
    return NotImplemented


@model("core::clone::Clone::clone")
def _(C):
    return NotImplemented


def prim_clone(C):
    return C.ret(C.load(C.args[0]))


for _t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char f32 f64".split():
    MODELS["core::clone::impls::<impl core::clone::Clone for %s>::clone" % _t] = prim_clone


def prim_default(ty):
    def f(C):
        if ty == "bool":
            return C.ret(FALSE)
        if ty in ("f32", "f64"):
            return C.ret(mk("cf", ty, 0))
        return C.ret(c(64 if ty.endswith("size") else int(ty[1:]), 0))
    return f


for _t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool f32 f64".split():
    MODELS["<%s as core::default::Default>::default" % _t] = prim_default(_t)


def prim_farith(ty, o):
    return lambda C: C.ret(fop(o, ty, C.args[0], C.args[1]))


for _t in ("f32", "f64"):
    for _n, _o in (("Add", "add"), ("Mul", "mul"), ("Sub", "sub"), ("Div", "div")):
        MODELS["<%s as core::ops::arith::%s>::%s" % (_t, _n, _o)] = prim_farith(_t, _o)


def intrinsic_un(name):
    return NotImplemented


@model("core::intrinsics::transmute")
def _(C):
    tf, tt = C.ty(0), C.retty()
    return C.ret(C.e.transmute(C.args[0], tf, tt, C.fn.ctx))


@model("core::cell::RefCell::<T>::borrow", "core::cell::RefCell::<T>::borrow_mut")
def _(C):
    C.event("call")
    return NotImplemented


@model("core::array::from_fn")
def _(C):
    return NotImplemented


@model("core::result::Result::<T, E>::inspect_err")
def _(C):
    return NotImplemented


@model("core::intrinsics::integer_max", "core::intrinsics::integer_min")
def _(C):
    t = C.ty(0)
    w = C.e.width(t)
    a, b = C.args
    if key(b) < key(a):
        a, b = b, a
    l = op("lt_s" if t["k"] == "int" else "lt_u", w, a, b)
    mx = C.sym["def"].endswith("max")
    return C.fork(l, lambda st: C.setret(st, b if mx else a), lambda st: C.setret(st, a if mx else b))


# log records are switched off: what is written to a log is no part of any property
@model("<log::Level as core::cmp::PartialOrd<log::LevelFilter>>::partial_cmp")
def m_log_level(k):
    return k.ret(some(agg("core::cmp::Ordering", 2, ())))


@model("<log::Level as core::cmp::PartialOrd<log::LevelFilter>>::le")
def m_log_level_le(k):
    return k.ret(FALSE)


def step_fwd(w):
    def f(C):
        return C.ret(op("add", w, C.args[0], C.args[1] if w == 64 else trunc(w, C.args[1], 64)))
    return f


for _t, _w in (("usize", 64), ("u64", 64), ("i64", 64), ("isize", 64), ("u32", 32), ("i32", 32), ("u8", 8), ("u16", 16)):
    MODELS["<%s as core::iter::range::Step>::forward_unchecked" % _t] = step_fwd(_w)


def items_of(C, it):
    """the elements an iterator over a vector or slice still yields, when they are known one by one"""
    if it.k == "agg" and it.a[0].split("::")[-1] in ("Cloned", "Copied") and len(it.a[2]) == 1:
        return items_of(C, it.a[2][0])
    if it.k == "agg" and it.a[0].split("::")[-1] == "Chain" and len(it.a[2]) == 2:
        r = []
        for x in it.a[2]:
            if x.k != "agg" or not x.a[0].endswith("Option"):
                return None
            l = items_of(C, x.a[2][0]) if x.a[2] else []
            if l is None:
                return None
            r += l
        return r
    if it.k != "agg" or it.a[0] not in ("into_iter", "slice_iter") or not all(isc(z) for z in it.a[2][1:]):
        return None
    x, i, n = it.a[2]
    if it.a[0] == "slice_iter":
        if x.k != "ref":
            return None
        x = C.load(ref(x.a[0], x.a[1]))
    if n.a[1] - i.a[1] > 40 or n.a[1] < i.a[1]:
        return None
    return [sel(x, U(j)) for j in range(i.a[1], n.a[1])]


@model("<alloc::vec::Vec<T, A1> as alloc::vec::spec_extend::SpecExtend<T, alloc::vec::into_iter::IntoIter<T, A2>>>::spec_extend",
       "<alloc::vec::Vec<T, A> as alloc::vec::spec_extend::SpecExtend<&'a T, core::slice::iter::Iter<'a, T>>>::spec_extend")
def _(C):
    l = items_of(C, C.args[1])
    if l is None:
        return NotImplemented
    v = C.load(C.args[0])
    for y in l:
        v = spush(v, y)
    C.store(C.args[0], v)
    return C.ret(agg("()", None, ()))


@model("alloc::vec::Vec::<T, A>::extend_trusted")
def _(C):
    l = items_of(C, C.args[1])
    if l is None:
        return NotImplemented
    v = C.load(C.args[0])
    if v.k == "agg" and v.a[0] != "vec" and v.a[0].split("::")[-1] == "Vec" and isc(v.a[2][1]) and v.a[2][1].a[1] == 0:
        v = EMPTY
    if v.k == "agg" and v.a[0] != "vec":
        return NotImplemented
    for y in l:
        v = spush(v, y)
    C.store(C.args[0], v)
    return C.ret(agg("()", None, ()))


@model("alloc::vec::Vec::<T, A>::extend_from_slice")
def _(C):
    p = C.args[1]
    if p.k != "ref":
        return NotImplemented
    x = C.load(ref(p.a[0], p.a[1]))
    if x.k != "agg" or x.a[0] not in ("[]", "vec"):
        return NotImplemented
    v = C.load(C.args[0])
    for y in x.a[2]:
        v = spush(v, y)
    C.store(C.args[0], v)
    return C.ret(agg("()", None, ()))
