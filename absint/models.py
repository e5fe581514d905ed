"""Models of core/std functions that work on raw slices, iterators, NonZero and intrinsics."""
import re
from .lin import *
from .lin import atom as mk_atom
from .vals import *
from .mem import Unsupported, Dead, subst, kph

M = {}
RX = []


def norm_path(p):
    return re.sub(r"(?<![\w])(?:\w+::)+(std|core|alloc)::", r"\1::", p)


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def model_rx(rx):
    def d(f):
        RX.append((re.compile(rx), f))
        return f
    return d


class Models:
    def __init__(self):
        self.cache = {}

    def lookup(self, x):
        key = x["path"], x["kind"]
        r = self.cache.get(key, 0)
        if r == 0:
            p = norm_path(x["path"])
            r = M.get(p)
            if r is None and x["crate"] in ("core", "std", "alloc", "zerocopy") or x["kind"] == "intrinsic":
                for rx, f in RX:
                    if rx.search(p):
                        r = f
                        break
            self.cache[key] = r
        return r


# ------------------------------------------------------------------ helpers
def opt(e, dty, v=None):
    """Option aggregate of type dty"""
    if v is None:
        return Agg(dty, 0, ())
    return Agg(dty, 1, (v,))


def split(e, st, c):
    """-> (states where c, states where not c)"""
    if c is True:
        return [st], []
    if c is False:
        return [], [st]
    a = [st.with_F(F) for F in e.assume(st.F, c)]
    b = [st.with_F(F) for F in e.assume(st.F, neg(c))]
    return a, b


def need(e, st, fr, c, what):
    """obligation c, else a panic is recorded; -> states where c holds"""
    if e.rec:
        e.obl["index"] += 1
    if e.prove(st.F, c):
        return [st]
    e.panic(fr, what, st)
    return [st.with_F(F) for F in e.assume(st.F, c)]


def rng_kind(e, ty):
    t = e.T[ty]
    if e.P.is_int(ty):
        return "idx"
    if t["k"] == "adt":
        return t["path"].rsplit("::", 1)[-1]
    return None


def range_bounds(e, ty, v, n):
    """(start, end, extra condition) of a range value against a slice of length n"""
    k = rng_kind(e, ty)
    f = v.f if isinstance(v, Agg) else (e.expand(v).f if isinstance(v, Unk) else ())
    if k == "Range":
        return f[0], f[1], True
    if k == "RangeFrom":
        return f[0], n, True
    if k == "RangeTo":
        return ZERO, f[0], True
    if k == "RangeFull":
        return ZERO, n, True
    if k == "RangeInclusive":
        return f[0], f[1] + 1, True
    if k == "RangeToInclusive":
        return ZERO, f[0] + 1, True
    raise Unsupported("range " + str(k))


def slice_ref(e, st, r, ty=None):
    if not isinstance(r, Ref):
        r = e.as_ref(r, ty)
    if r.s is None:
        # reference to an array used as a slice
        if r.path and r.path[-1][0] == "w":
            return Ref(r.obj, r.path[:-1], r.path[-1][1], r.path[-1][2])
        a = e.read(e.get(st, r.obj), r.path, st.F)
        if isinstance(a, Arr):
            return Ref(r.obj, r.path, ZERO, a.n)
        raise Unsupported("not a slice")
    return r


def do_index(e, st, fr, r, ity, iv, checked, dty, what="index"):
    r = slice_ref(e, st, r)
    k = rng_kind(e, ity)
    if k == "idx":
        c = c_le(iv - r.n + 1)
        res = Ref(r.obj, r.path + (("i", r.s + iv),))
    else:
        a, b, _ = range_bounds(e, ity, iv, r.n)
        c = c_and(c_le(a - b), c_le(b - r.n))
        res = Ref(r.obj, r.path, r.s + a, b - a)
    if checked:
        y, n = split(e, st, c)
        return [(s, opt(e, dty, res)) for s in y] + [(s, opt(e, dty)) for s in n]
    return [(s, res) for s in need(e, st, fr, c, "slice index out of range")]


@model("core::slice::index::<impl core::ops::Index<I> for [T]>::index",
       "core::slice::index::<impl core::ops::IndexMut<I> for [T]>::index_mut",
       "core::array::<impl core::ops::Index<I> for [T; N]>::index",
       "core::array::<impl core::ops::IndexMut<I> for [T; N]>::index_mut")
def m_index(e, st, fr, x, a, tys, dty):
    return do_index(e, st, fr, a[0], tys[1], a[1], False, dty)


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(e, st, fr, x, a, tys, dty):
    return do_index(e, st, fr, a[0], tys[1], a[1], True, dty)


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def m_getu(e, st, fr, x, a, tys, dty):
    return do_index(e, st, fr, a[0], tys[1], a[1], False, dty)


@model("core::slice::<impl [T]>::len", "core::str::<impl str>::len")
def m_len(e, st, fr, x, a, tys, dty):
    return [(st, slice_ref(e, st, a[0]).n)]


@model("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty")
def m_empty(e, st, fr, x, a, tys, dty):
    return [(st, c_eq(slice_ref(e, st, a[0]).n))]


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
def m_asptr(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    return [(st, Ref(r.obj, r.path + (("i", r.s),)))]


@model("core::slice::from_raw_parts", "core::slice::from_raw_parts_mut")
def m_frp(e, st, fr, x, a, tys, dty):
    r = a[0]
    if isinstance(r, Agg):
        r = e.as_ref(r, None)
    n = a[1]
    if isinstance(r, Ref):
        if r.path and r.path[-1][0] == "i":
            return [(st, Ref(r.obj, r.path[:-1], r.path[-1][1], n))]
        if r.path and r.path[-1][0] == "as":
            # bytes of an object: recover the object's type from the path's holder
            v = e.read(e.get(st, r.obj), r.path[:-1], st.F)
            ty = getattr(v, "ty", None)
            if ty is not None and e.T[ty].get("size") is not None and n.const == e.T[ty]["size"]:
                return [(st, Ref(r.obj, r.path[:-1] + (("B", ty),), ZERO, n))]
            if isinstance(v, Arr) and n == v.n and e.T[v.ety]["s"] == "u8":
                return [(st, Ref(r.obj, r.path[:-1], ZERO, n))]
    raise Unsupported("from_raw_parts")


def split_at(e, st, fr, a, tup, checked, dty):
    r = slice_ref(e, st, a[0])
    m = a[1]
    c = c_le(m - r.n)
    v1, v2 = Ref(r.obj, r.path, r.s, m), Ref(r.obj, r.path, r.s + m, r.n - m)
    if checked:
        y, n = split(e, st, c)
        return [(s, opt(e, dty, Agg(e.T[dty]["args"][0], None, (v1, v2)))) for s in y] + [(s, opt(e, dty)) for s in n]
    return [(s, Agg(dty, None, (v1, v2))) for s in need(e, st, fr, c, "split_at out of range")]


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut",
       "core::slice::<impl [T]>::split_at_unchecked", "core::slice::<impl [T]>::split_at_mut_unchecked")
def m_split(e, st, fr, x, a, tys, dty):
    return split_at(e, st, fr, a, None, False, dty)


@model("core::slice::<impl [T]>::split_at_checked", "core::slice::<impl [T]>::split_at_mut_checked")
def m_splitc(e, st, fr, x, a, tys, dty):
    return split_at(e, st, fr, a, None, True, dty)


def arr_ty_of_opt(e, dty, pos):
    """inner types of Option<(..)>/Option<&[T;N]>"""
    t = e.T[dty]["args"][0]
    return t


@model("core::slice::<impl [T]>::split_first_chunk", "core::slice::<impl [T]>::split_first_chunk_mut",
       "core::slice::<impl [T]>::split_last_chunk", "core::slice::<impl [T]>::split_last_chunk_mut")
def m_sfc(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    tup = e.T[dty]["args"][0]
    last = "last_chunk" in x["path"]
    at = e.T[e.T[e.T[tup]["e"][1 if last else 0]]["to"]]
    N = e.arr_len(at)
    c = c_le(N - r.n)
    if last:
        v = (Ref(r.obj, r.path, r.s, r.n - N), Ref(r.obj, r.path + (("w", r.s + r.n - N, N),)))
    else:
        v = (Ref(r.obj, r.path + (("w", r.s, N),)), Ref(r.obj, r.path, r.s + N, r.n - N))
    y, n = split(e, st, c)
    return [(s, opt(e, dty, Agg(tup, None, v))) for s in y] + [(s, opt(e, dty)) for s in n]


@model("core::slice::<impl [T]>::first_chunk", "core::slice::<impl [T]>::first_chunk_mut",
       "core::slice::<impl [T]>::last_chunk", "core::slice::<impl [T]>::last_chunk_mut")
def m_fc(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    at = e.T[e.T[e.T[dty]["args"][0]]["to"]]
    N = e.arr_len(at)
    s0 = r.s + r.n - N if "last_chunk" in x["path"] else r.s
    y, n = split(e, st, c_le(N - r.n))
    return [(s, opt(e, dty, Ref(r.obj, r.path + (("w", s0, N),)))) for s in y] + [(s, opt(e, dty)) for s in n]


@model_rx(r"core::array::<impl core::convert::TryFrom<&'a (mut )?\[T\]> for &'a (mut )?\[T; N\]>::try_from")
def m_tryfrom_arr(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    okty = e.field_tys(dty, 0)[0]
    N = e.arr_len(e.T[e.T[okty]["to"]])
    y, n = split(e, st, c_eq(N - r.n))
    ety = e.field_tys(dty, 1)[0]
    return [(s, Agg(dty, 0, (Ref(r.obj, r.path + (("w", r.s, N),)),))) for s in y] + \
           [(s, Agg(dty, 1, (e.mk_unk(ety, s.fresh("tryfromslice")),))) for s in n]


@model_rx(r"core::array::<impl core::convert::TryFrom<&(mut )?\[T\]> for \[T; N\]>::try_from")
def m_tryfrom_arr2(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    okty = e.field_tys(dty, 0)[0]
    N = e.arr_len(e.T[okty])
    y, n = split(e, st, c_eq(N - r.n))
    ety = e.field_tys(dty, 1)[0]
    out = []
    for s in y:
        arr = e.arr_of(s, r)
        out.append((s, Agg(dty, 0, (e.sub(arr, r.s, N, s.F),))))
    return out + [(s, Agg(dty, 1, (e.mk_unk(ety, s.fresh("tryfromslice")),))) for s in n]


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut",
       "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def m_first(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    i = r.s + r.n - 1 if "::last" in x["path"] else r.s
    y, n = split(e, st, c_le(ONE - r.n))
    return [(s, opt(e, dty, Ref(r.obj, r.path + (("i", i),)))) for s in y] + [(s, opt(e, dty)) for s in n]


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_first_mut",
       "core::slice::<impl [T]>::split_last", "core::slice::<impl [T]>::split_last_mut")
def m_sf(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    tup = e.T[dty]["args"][0]
    if "split_last" in x["path"]:
        v = (Ref(r.obj, r.path + (("i", r.s + r.n - 1),)), Ref(r.obj, r.path, r.s, r.n - 1))
    else:
        v = (Ref(r.obj, r.path + (("i", r.s),)), Ref(r.obj, r.path, r.s + 1, r.n - 1))
    y, n = split(e, st, c_le(ONE - r.n))
    return [(s, opt(e, dty, Agg(tup, None, v))) for s in y] + [(s, opt(e, dty)) for s in n]


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_cfs(e, st, fr, x, a, tys, dty):
    d, s = slice_ref(e, st, a[0]), slice_ref(e, st, a[1])
    out = []
    for q in need(e, st, fr, c_eq(d.n - s.n), "copy_from_slice length mismatch"):
        c = e.content(e.arr_of(q, s), s.s, d.n, q.F)
        e.write_seg(q, d, ZERO, d.n, c)
        out.append((q, Agg(dty, None, ())))
    return out


@model("core::slice::<impl [T]>::copy_within")
def m_cw(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    b0, b1, _ = range_bounds(e, tys[1], a[1], r.n)
    n = b1 - b0
    out = []
    for q in need(e, st, fr, c_and(c_and(c_le(b0 - b1), c_le(b1 - r.n)), c_le(a[2] + n - r.n)), "copy_within out of range"):
        c = e.content(e.arr_of(q, r), r.s + b0, n, q.F)
        e.write_seg(q, r, a[2], n, c)
        out.append((q, Agg(dty, None, ())))
    return out


@model("core::slice::<impl [T]>::fill", "core::slice::specialize::<impl core::slice::specialize::SpecFill<T> for [T]>::spec_fill")
def m_fill(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    e.write_seg(st, r, ZERO, r.n, ("rep", a[1]))
    return [(st, Agg(dty, None, ()))]


@model("core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::swap", "core::slice::<impl [T]>::rotate_left",
       "core::slice::<impl [T]>::rotate_right")
def m_rev(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    nm = x["path"].rsplit("::", 1)[-1]
    if nm == "swap":
        out = []
        for q in need(e, st, fr, c_and(c_le(a[1] - r.n + 1), c_le(a[2] - r.n + 1)), "swap out of range"):
            arr = e.arr_of(q, r)
            u, v = e.arr_read(arr, r.s + a[1], q.F), e.arr_read(arr, r.s + a[2], q.F)
            e.write_seg(q, r, a[1], ONE, ("v", (v,)))
            e.write_seg(q, r, a[2], ONE, ("v", (u,)))
            out.append((q, Agg(dty, None, ())))
        return out
    n = r.n.const
    if n is None or n > 256 or (nm != "reverse" and a[1].const is None):
        e.write_seg(st, r, ZERO, r.n, ("unk", st.fresh(nm), ZERO))
        return [(st, Agg(dty, None, ()))]
    arr = e.arr_of(st, r)
    vs = [e.arr_read(arr, r.s + j, st.F) for j in range(n)]
    if nm == "reverse":
        vs.reverse()
    else:
        k = a[1].const
        if k > n:
            e.panic(fr, "rotate out of range")
            return []
        vs = vs[k:] + vs[:k] if nm == "rotate_left" else vs[n - k:] + vs[:n - k]
    if vs:
        e.write_seg(st, r, ZERO, r.n, ("v", tuple(vs)))
    return [(st, Agg(dty, None, ()))]


# ------------------------------------------------------------------ iterators
@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "core::slice::iter::<impl core::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl core::iter::IntoIterator for &'a mut [T]>::into_iter",
       "core::array::<impl core::iter::IntoIterator for &'a [T; N]>::into_iter",
       "core::array::<impl core::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "core::slice::Iter::<'a, T>::new", "core::slice::IterMut::<'a, T>::new")
def m_iter(e, st, fr, x, a, tys, dty):
    r = slice_ref(e, st, a[0])
    return [(st, ItV(dty, r, ZERO, r.n))]


def it_load(e, st, r):
    v = e.load(st, r)
    if isinstance(v, Unk):
        o = v.o
        v = ItV(v.ty, Ref(("ext", ("it", o), e.T[e.T[v.ty]["args"][0]] and v.ty)), ZERO, ZERO)
        raise Unsupported("unknown iterator")
    if not isinstance(v, ItV):
        raise Unsupported("iterator state")
    return v


@model("<core::slice::Iter<'a, T> as core::iter::Iterator>::next", "<core::slice::IterMut<'a, T> as core::iter::Iterator>::next")
def m_next(e, st, fr, x, a, tys, dty):
    it = it_load(e, st, a[0])
    y, n = split(e, st, c_le(it.pos - it.end + 1))
    out = []
    for s in y:
        e.store(s, a[0], ItV(it.ty, it.ref, it.pos + 1, it.end))
        out.append((s, opt(e, dty, Ref(it.ref.obj, it.ref.path + (("i", it.ref.s + it.pos),)))))
    return out + [(s, opt(e, dty)) for s in n]


@model("<core::slice::Iter<'a, T> as core::iter::DoubleEndedIterator>::next_back",
       "<core::slice::IterMut<'a, T> as core::iter::DoubleEndedIterator>::next_back")
def m_nextb(e, st, fr, x, a, tys, dty):
    it = it_load(e, st, a[0])
    y, n = split(e, st, c_le(it.pos - it.end + 1))
    out = []
    for s in y:
        e.store(s, a[0], ItV(it.ty, it.ref, it.pos, it.end - 1))
        out.append((s, opt(e, dty, Ref(it.ref.obj, it.ref.path + (("i", it.ref.s + it.end - 1),)))))
    return out + [(s, opt(e, dty)) for s in n]


@model("<core::slice::Iter<'a, T> as core::iter::Iterator>::nth", "<core::slice::IterMut<'a, T> as core::iter::Iterator>::nth")
def m_nth(e, st, fr, x, a, tys, dty):
    it = it_load(e, st, a[0])
    y, n = split(e, st, c_le(it.pos + a[1] - it.end + 1))
    out = []
    for s in y:
        e.store(s, a[0], ItV(it.ty, it.ref, it.pos + a[1] + 1, it.end))
        out.append((s, opt(e, dty, Ref(it.ref.obj, it.ref.path + (("i", it.ref.s + it.pos + a[1]),)))))
    for s in n:
        e.store(s, a[0], ItV(it.ty, it.ref, it.end, it.end))
        out.append((s, opt(e, dty)))
    return out


@model("<core::slice::Iter<'a, T> as core::iter::Iterator>::size_hint",
       "<core::slice::IterMut<'a, T> as core::iter::Iterator>::size_hint")
def m_sh(e, st, fr, x, a, tys, dty):
    it = it_load(e, st, a[0])
    n = it.end - it.pos
    oty = e.T[dty]["e"][1]
    return [(st, Agg(dty, None, (n, opt(e, oty, n))))]


@model_rx(r"<core::slice::Iter(Mut)?<.*> as core::iter::ExactSizeIterator>::len$|<core::slice::Iter(Mut)?<.*> as core::iter::Iterator>::count$|core::slice::Iter(Mut)?::<.*>::len$")
def m_itlen(e, st, fr, x, a, tys, dty):
    it = a[0] if isinstance(a[0], ItV) else it_load(e, st, a[0])
    return [(st, it.end - it.pos)]


@model_rx(r"core::iter::ExactSizeIterator::len$")
def m_esl(e, st, fr, x, a, tys, dty):
    v = e.load(st, a[0])
    if isinstance(v, ItV):
        return [(st, v.end - v.pos)]
    return None


@model_rx(r"<core::slice::Iter(Mut)?<.*> as core::iter::Iterator>::__iterator_get_unchecked$")
def m_igu(e, st, fr, x, a, tys, dty):
    it = it_load(e, st, a[0])
    return [(st, Ref(it.ref.obj, it.ref.path + (("i", it.ref.s + it.pos + a[1]),)))]


@model_rx(r"core::slice::Iter(Mut)?::<.*>::(as_slice|into_slice|as_mut_slice)$")
def m_itslice(e, st, fr, x, a, tys, dty):
    it = a[0] if isinstance(a[0], ItV) else it_load(e, st, a[0])
    return [(st, Ref(it.ref.obj, it.ref.path, it.ref.s + it.pos, it.end - it.pos))]


@model_rx(r"<core::slice::Iter<.*> as core::clone::Clone>::clone$")
def m_itclone(e, st, fr, x, a, tys, dty):
    return [(st, it_load(e, st, a[0]))]


# chunks_exact / chunks: represented by the core struct's own code is pointer-free for Chunks
# ------------------------------------------------------------------ equality
def val_eq(e, st, a, b, ty=None):
    """condition for structural equality of two values"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return c_eq(a - b)
    if isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
        return e.cond_eq(a, b)
    if a == b:
        return True
    return ("b", ("eq",) + tuple(sorted((a, b), key=lambda v: v.h if isinstance(v, V) else hash(v))), True)


def arr_eq(e, st, a, b):
    if a == b:
        return True
    n = a.n.const
    if n is not None and n <= 64 and e.P.is_int(a.ety):
        c = True
        for j in range(n):
            c = c_and(c, val_eq(e, st, e.arr_read(a, K(j), st.F), e.arr_read(b, K(j), st.F)))
        return c
    return ("b", ("arreq",) + tuple(sorted((a, b), key=lambda v: v.h)), True)


@model_rx(r"core::array::equality::<impl core::cmp::PartialEq.*>::(eq|ne)$|core::slice::cmp::<impl core::cmp::PartialEq.*>::(eq|ne)$|core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)$")
def m_aeq(e, st, fr, x, a, tys, dty):
    r0, r1 = slice_ref(e, st, a[0]), slice_ref(e, st, a[1])
    u = e.sub(e.arr_of(st, r0), r0.s, r0.n, st.F)
    v = e.sub(e.arr_of(st, r1), r1.s, r1.n, st.F)
    neq = x["path"].endswith("::ne")
    if not e.prove(st.F, c_eq(r0.n - r1.n)):
        y, n = split(e, st, c_eq(r0.n - r1.n))
        out = [(s, neq) for s in n]
        for s in y:
            c = arr_eq(e, s, u, v)
            out.append((s, neg(c) if neq else c))
        return out
    c = arr_eq(e, st, u, v)
    return [(st, neg(c) if neq else c)]


@model("core::intrinsics::raw_eq")
def m_raweq(e, st, fr, x, a, tys, dty):
    u, v = e.load(st, a[0]), e.load(st, a[1])
    return [(st, arr_eq(e, st, u, v) if isinstance(u, Arr) else val_eq(e, st, u, v))]


# ------------------------------------------------------------------ NonZero and integers
@model("core::num::NonZero::<T>::new")
def m_nznew(e, st, fr, x, a, tys, dty):
    y, n = split(e, st, c_ne(a[0]))
    return [(s, opt(e, dty, a[0])) for s in y] + [(s, opt(e, dty)) for s in n]


@model_rx(r"^core::convert::num::<impl core::convert::TryFrom<\w+> for core::num::NonZero<\w+>>::try_from$")
def m_nztry(e, st, fr, x, a, tys, dty):
    y, n = split(e, st, c_ne(a[0]))
    ety = e.field_tys(dty, 1)[0]
    return [(s, Agg(dty, 0, (a[0],))) for s in y] + [(s, Agg(dty, 1, (e.mk_unk(ety, ("nzerr",)),))) for s in n]


@model("core::num::NonZero::<T>::get")
def m_nzget(e, st, fr, x, a, tys, dty):
    return [(st, a[0])]


@model("core::num::NonZero::<T>::new_unchecked")
def m_nznewu(e, st, fr, x, a, tys, dty):
    return [(s, a[0]) for s in need(e, st, fr, c_ne(a[0]), "NonZero::new_unchecked of zero")]


@model("<core::num::NonZero<T> as core::cmp::PartialEq>::eq", "<core::num::NonZero<T> as core::cmp::PartialEq>::ne")
def m_nzeq(e, st, fr, x, a, tys, dty):
    u, v = e.load(st, a[0]), e.load(st, a[1])
    c = c_eq(u - v)
    return [(st, neg(c) if x["path"].endswith("ne") else c)]


@model("core::intrinsics::bswap")
def m_bswap(e, st, fr, x, a, tys, dty):
    w, s = e.P.int_info(dty)
    b = lin_bits(e.known_bits(a[0], st.F), w)
    by = [b[i:i + 8] for i in range(0, w, 8)]
    by.reverse()
    return [(st, e.bits_to_int([q for z in by for q in z], dty, st.F))]


@model("core::intrinsics::ctpop")
def m_ctpop(e, st, fr, x, a, tys, dty):
    w, s = e.P.int_info(tys[0])
    if a[0].const is not None:
        return [(st, K(bin(a[0].const).count("1")))]
    return [(st, L(mk_atom(("ctpop", a[0]), 0, w)))]


@model_rx(r"core::intrinsics::(ctlz|cttz|ctlz_nonzero|cttz_nonzero)$")
def m_ctz(e, st, fr, x, a, tys, dty):
    w, s = e.P.int_info(tys[0])
    return [(st, L(mk_atom((x["path"], a[0]), 0, w)))]


@model("core::intrinsics::size_of_val", "core::mem::size_of_val")
def m_sov(e, st, fr, x, a, tys, dty):
    t = e.T[tys[0]]
    to = e.T[t["to"]] if t["k"] in ("ref", "ptr") else None
    if to is not None:
        if to["k"] in ("slice", "str"):
            r = slice_ref(e, st, a[0])
            es = 1 if to["k"] == "str" else e.T[to["e"]].get("size")
            if es is not None:
                return [(st, r.n.scale(es))]
        elif to.get("size") is not None:
            return [(st, K(to["size"]))]
    return [(st, e.mk_unk(dty, ("sizeof", tys[0])))]


@model("core::intrinsics::size_of", "core::intrinsics::min_align_of", "core::intrinsics::align_of")
def m_so(e, st, fr, x, a, tys, dty):
    if x["args"] and x["path"].endswith("size_of"):
        z = e.T[x["args"][0]].get("size")
        if z is not None:
            return [(st, K(z))]
        return [(st, e.mk_unk(dty, ("sizeof", x["args"][0])))]
    return [(st, L(mk_atom(("align", tuple(x["args"])), 1, 4096)))]


def int_minmax(e, st, a, b, mx):
    y, n = split(e, st, c_le(a - b))
    return [(s, b if mx else a) for s in y] + [(s, a if mx else b) for s in n]


@model("core::intrinsics::integer_min")
def m_imin(e, st, fr, x, a, tys, dty):
    return int_minmax(e, st, a[0], a[1], False)


@model("core::intrinsics::integer_max")
def m_imax(e, st, fr, x, a, tys, dty):
    return int_minmax(e, st, a[0], a[1], True)


@model_rx(r"core::intrinsics::saturating_(add|sub)$")
def m_sat(e, st, fr, x, a, tys, dty):
    lo, hi = e.P.int_range(dty)
    v = a[0] + a[1] if x["path"].endswith("add") else a[0] - a[1]
    out = []
    for s in split(e, st, c_le(v - hi))[0]:
        y, n = split(e, s, c_le(-v + lo))
        out += [(q, v) for q in y] + [(q, K(lo)) for q in n]
    for s in split(e, st, c_le(v - hi))[1]:
        out.append((s, K(hi)))
    return out


@model_rx(r"core::intrinsics::(wrapping|unchecked)_(add|sub|mul)$")
def m_wrapi(e, st, fr, x, a, tys, dty):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[x["path"].rsplit("_", 1)[-1]]
    return [(st, e.binop(st, fr, op, a[0], a[1], dty))]


@model_rx(r"core::intrinsics::(add|sub|mul)_with_overflow$")
def m_ovi(e, st, fr, x, a, tys, dty):
    op = x["path"].rsplit("::", 1)[-1].split("_")[0].capitalize() + "WithOverflow"
    return [(st, Agg(dty, None, e.binop(st, fr, op, a[0], a[1], tys[0])))]


@model_rx(r"core::intrinsics::(rotate_left|rotate_right)$")
def m_rot(e, st, fr, x, a, tys, dty):
    w, s = e.P.int_info(dty)
    if a[1].const is None:
        return [(st, e.mk_unk(dty, st.fresh("rot")))]
    k = a[1].const % w
    b = lin_bits(a[0], w)
    if "right" in x["path"]:
        k = w - k
    b = b[w - k:] + b[:w - k]
    return [(st, e.bits_to_int(b, dty, st.F))]


# ------------------------------------------------------------------ pointers and memory
@model("core::mem::replace")
def m_replace(e, st, fr, x, a, tys, dty):
    old = e.load(st, a[0])
    e.store(st, a[0], a[1])
    return [(st, old)]


@model_rx(r"core::sync::atomic::Atomic\w*(::<.*>)?::(load|store|swap|fetch_\w+|compare_(exchange|and_swap)\w*|try_update|update)$")
def m_atomic(e, st, fr, x, a, tys, dty):
    # shared with other threads and earlier calls: any value may be found
    return e.havoc_call(st, fr, "atomic", [], [], dty, ev=False)


@model("core::mem::swap")
def m_swap(e, st, fr, x, a, tys, dty):
    u, v = e.load(st, a[0]), e.load(st, a[1])
    e.store(st, a[0], v)
    e.store(st, a[1], u)
    return [(st, Agg(dty, None, ()))]


@model("core::ptr::read", "core::ptr::read_unaligned", "core::ptr::const_ptr::<impl *const T>::read",
       "core::ptr::mut_ptr::<impl *mut T>::read", "core::intrinsics::read_via_copy")
def m_pread(e, st, fr, x, a, tys, dty):
    return [(st, e.load(st, e.as_ref(a[0], None)))]


@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write", "core::intrinsics::write_via_move")
def m_pwrite(e, st, fr, x, a, tys, dty):
    e.store(st, e.as_ref(a[0], None), a[1])
    return [(st, Agg(dty, None, ()))]


@model("core::mem::forget", "core::mem::drop", "core::intrinsics::assert_inhabited", "core::intrinsics::cold_path",
       "core::hint::assert_unchecked", "core::intrinsics::assume", "core::hint::cold_path")
def m_nop(e, st, fr, x, a, tys, dty):
    return [(st, Agg(dty, None, ()))]


@model("core::hint::black_box", "core::intrinsics::black_box", "core::hint::must_use", "core::convert::identity")
def m_id(e, st, fr, x, a, tys, dty):
    return [(st, a[0])]


@model("core::intrinsics::likely", "core::intrinsics::unlikely")
def m_likely(e, st, fr, x, a, tys, dty):
    return [(st, a[0])]


@model_rx(r"::precondition_check$|core::ub_checks::")
def m_pre(e, st, fr, x, a, tys, dty):
    if e.T[dty]["k"] == "bool":
        return [(st, False)]
    return [(st, Agg(dty, None, ()))]


@model_rx(r"zerocopy::IntoBytes::as_(mut_)?bytes$")
def m_zc(e, st, fr, x, a, tys, dty):
    r = a[0]
    to = e.T[tys[0]]["to"]
    if e.T[to]["k"] == "slice" or r.s is not None:
        raise Unsupported("as_bytes of a slice")
    z = e.T[to].get("size")
    if z is None:
        raise Unsupported("as_bytes of unsized")
    return [(st, Ref(r.obj, r.path + (("B", to),), ZERO, K(z)))]


# ------------------------------------------------------------------ panics, formatting
@model_rx(r"^core::panicking::|::unwrap_failed$|::expect_failed$|_fail$|^core::slice::index::slice_\w*fail\w*$|::len_mismatch_fail|::panic_\w+$|^std::panicking::|^std::rt::panic|^core::cell::panic|::slice_error_fail|^std::process::(abort|exit)$|^core::intrinsics::abort$")
def m_panic(e, st, fr, x, a, tys, dty):
    nm = norm_path(x["path"])
    if nm.endswith("_default_msg"):
        nm = nm[:-12]
    e.panic(fr, "reachable " + nm, st)
    return []


@model_rx(r"^core::io::IoSlice(Mut)?::<.*>::new$")
def m_ioslice(e, st, fr, x, a, tys, dty):
    return [(st, Agg(dty, None, (a[0],)))]


@model_rx(r"^<?(std::(net|io|fs|process|thread|path|time|env|ffi)|core::io|alloc::io)::|^core::str::<impl str>::(parse|trim)|^<std::string::String as |^core::time::Duration")
def m_ext(e, st, fr, x, a, tys, dty):
    """operations on the outside world: effects recorded as events, results unconstrained"""
    return e.havoc_call(st, fr, norm_path(x["path"]), a, tys, dty)


@model_rx(r"^core::iter::Iterator::collect")
def m_collect(e, st, fr, x, a, tys, dty):
    return e.havoc_call(st, fr, norm_path(x["path"]), a, tys, dty, ev=False)


@model_rx(r"^core::fmt::|^std::fmt::|^alloc::fmt::|::fmt$|^core::hash::|::hash$|^alloc::string::|^core::any::type_name")
def m_fmt(e, st, fr, x, a, tys, dty):
    return e.havoc_call(st, fr, norm_path(x["path"]), a, tys, dty, ev=False)


from . import iters  # noqa: E402,F401  (registers the iterator models)
