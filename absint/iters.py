"""Models of the standard iterator adapters: one step of an adapter is a step of the iterators inside it.

The compiled bodies of the adapters work on raw pointers (the step of the slice iterator is inlined into them), so
they are replaced by their documented meaning. Consumers (fold, all, any ...) of slice and array iterators become an
ordinary loop over `next`, analysed like any loop of the program."""
from .lin import *
from .vals import *
from .mem import Unsupported
from .models import model_rx, opt, split, it_load, norm_path, slice_ref


def sub(r, k):
    return Ref(r.obj, r.path + (("f", k),))


def field(e, ty, name):
    for k, f in enumerate(e.T[ty]["variants"][0]["fields"]):
        if f["name"] == name:
            return k, f["ty"]
    raise Unsupported("iterator field " + name)


def item_of(e, ref, v):
    """the element a slice iterator hands out"""
    return v


def by_value(e, ty):
    return e.T[ty]["k"] == "adt" and e.T[ty]["path"].endswith("array::IntoIter")


def step(e, st, fr, r, ty, back=False, depth=0):
    """one step of the iterator at r -> [(state, item or None)]"""
    if depth > 8:
        raise Unsupported("iterator depth")
    t = e.T[ty]
    if t["k"] == "ref":
        return step(e, st, fr, e.as_ref(e.load(st, r), ty), t["to"], back, depth + 1)
    if t["k"] != "adt":
        raise Unsupported("iterator " + t["s"][:60])
    p = norm_path(t["path"])
    nm = p.rsplit("::", 1)[-1]
    v = e.load(st, r)
    if isinstance(v, ItV):
        y, n = split(e, st, c_le(v.pos - v.end + 1))
        out = []
        for s in y:
            at = v.end - 1 if back else v.pos
            e.store(s, r, ItV(v.ty, v.ref, v.pos if back else v.pos + 1, at if back else v.end))
            el = Ref(v.ref.obj, v.ref.path + (("i", v.ref.s + at),))
            out.append((s, e.load(s, el) if by_value(e, v.ty) else el))
        return out + [(s, None) for s in n]
    if not p.startswith(("core::", "std::")):
        raise Unsupported("iterator " + p)
    if nm == "Range":
        f0, f1 = e.load(st, sub(r, 0)), e.load(st, sub(r, 1))
        y, n = split(e, st, c_le(f0 - f1 + 1))
        out = []
        for s in y:
            if back:
                e.store(s, sub(r, 1), f1 - 1)
                out.append((s, f1 - 1))
            else:
                e.store(s, sub(r, 0), f0 + 1)
                out.append((s, f0))
        return out + [(s, None) for s in n]
    if nm == "Enumerate" and not back:
        i, ity = field(e, ty, "iter")
        c, _ = field(e, ty, "count")
        out = []
        for s, x in step(e, st, fr, sub(r, i), ity, False, depth + 1):
            if x is None:
                out.append((s, None))
                continue
            n = e.load(s, sub(r, c))
            e.store(s, sub(r, c), n + 1)
            out.append((s, ("pair", n, x)))
        return out
    if nm == "Enumerate":
        i, ity = field(e, ty, "iter")
        c, _ = field(e, ty, "count")
        out = []
        for s, x in step(e, st, fr, sub(r, i), ity, True, depth + 1):
            out.append((s, None if x is None else ("pair", e.load(s, sub(r, c)) + remaining(e, s, sub(r, i), ity), x)))
        return out
    if nm == "Zip" and back:
        (a, aty), (b, bty) = field(e, ty, "a"), field(e, ty, "b")
        if not st.F.eq0(remaining(e, st, sub(r, a), aty) - remaining(e, st, sub(r, b), bty)):
            raise Unsupported("zip from the back")
        out = []
        for s, x in step(e, st, fr, sub(r, a), aty, True, depth + 1):
            if x is None:
                out.append((s, None))
                continue
            for s2, y in step(e, s, fr, sub(r, b), bty, True, depth + 1):
                out.append((s2, None if y is None else ("pair", x, y)))
        return out
    if nm == "Zip" and not back:
        (a, aty), (b, bty) = field(e, ty, "a"), field(e, ty, "b")
        out = []
        for s, x in step(e, st, fr, sub(r, a), aty, False, depth + 1):
            if x is None:
                out.append((s, None))
                continue
            for s2, y in step(e, s, fr, sub(r, b), bty, False, depth + 1):
                out.append((s2, None if y is None else ("pair", x, y)))
        return out
    if nm == "Take" and not back:
        i, ity = field(e, ty, "iter")
        c, _ = field(e, ty, "n")
        n = e.load(st, sub(r, c))
        y, z = split(e, st, c_le(1 - n))
        out = [(s, None) for s in z]
        for s in y:
            e.store(s, sub(r, c), n - 1)
            out += step(e, s, fr, sub(r, i), ity, False, depth + 1)
        return out
    if nm == "Skip" and not back:
        i, ity = field(e, ty, "iter")
        c, _ = field(e, ty, "n")
        n = e.load(st, sub(r, c))
        if n.const == 0:
            return step(e, st, fr, sub(r, i), ity, False, depth + 1)
        w = e.load(st, sub(r, i))
        if not isinstance(w, ItV):
            raise Unsupported("skip")
        y, z = split(e, st, c_le(w.pos + n - w.end))
        out = []
        for s in y:
            e.store(s, sub(r, c), ZERO)
            e.store(s, sub(r, i), ItV(w.ty, w.ref, w.pos + n, w.end))
            out += step(e, s, fr, sub(r, i), ity, False, depth + 1)
        for s in z:
            e.store(s, sub(r, c), ZERO)
            e.store(s, sub(r, i), ItV(w.ty, w.ref, w.end, w.end))
            out.append((s, None))
        return out
    if nm == "Rev":
        i, ity = field(e, ty, "iter")
        return step(e, st, fr, sub(r, i), ity, not back, depth + 1)
    if nm in ("Copied", "Cloned"):
        i, ity = field(e, ty, "it")
        out = []
        for s, x in step(e, st, fr, sub(r, i), ity, back, depth + 1):
            if x is not None:
                if not isinstance(x, Ref):
                    raise Unsupported("copied item")
                x = e.load(s, x)
                if nm == "Cloned" and not (isinstance(x, Lin) or isinstance(x, bool)):
                    raise Unsupported("cloned item")
            out.append((s, x))
        return out
    if nm == "Chain" and not back:
        (a, aty), (b, bty) = field(e, ty, "a"), field(e, ty, "b")
        out = []
        todo = []
        va = e.load(st, sub(r, a))
        va = e.expand(va) if isinstance(va, Unk) else va
        if va.var == 1:
            inner = Ref(r.obj, r.path + (("f", a), ("f", 0)))
            for s, x in step(e, st, fr, inner, e.field_tys(aty, 1)[0], False, depth + 1):
                if x is not None:
                    out.append((s, x))
                else:
                    e.store(s, sub(r, a), Agg(aty, 0, ()))
                    todo.append(s)
        else:
            todo.append(st)
        for s in todo:
            vb = e.load(s, sub(r, b))
            if vb.var == 1:
                out += step(e, s, fr, Ref(r.obj, r.path + (("f", b), ("f", 0))), e.field_tys(bty, 1)[0], False, depth + 1)
            else:
                out.append((s, None))
        return out
    raise Unsupported("iterator " + p)


def remaining(e, st, r, ty):
    """number of items an iterator over a slice still has"""
    w = e.load(st, r)
    if isinstance(w, ItV):
        return w.end - w.pos
    nm = norm_path(e.T[ty]["path"]).rsplit("::", 1)[-1] if e.T[ty]["k"] == "adt" else ""
    if nm in ("Copied", "Cloned", "Enumerate", "Rev"):
        i, ity = field(e, ty, "it" if nm in ("Copied", "Cloned") else "iter")
        return remaining(e, st, sub(r, i), ity)
    raise Unsupported("length of an iterator")


def build(e, x, ty):
    """turn the ("pair", a, b) placeholders into values of the item type"""
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "pair":
        t = e.T[ty]
        if t["k"] != "tuple":
            raise Unsupported("iterator item")
        return Agg(ty, None, (build(e, x[1], t["e"][0]), build(e, x[2], t["e"][1])))
    return x


@model_rx(r"^<core::iter::(Enumerate|Zip|Take|Skip|Rev|Copied|Cloned|Chain)<.*> as core::iter::Iterator>::next$|^<core::array::IntoIter<.*> as core::iter::Iterator>::next$|ZipImpl<.*>>::next$")
def m_step(e, st, fr, x, a, tys, dty):
    it = e.field_tys(dty, 1)[0]
    st0 = st.copy()
    try:
        outs = step(e, st, fr, e.as_ref(a[0], tys[0]), e.T[tys[0]]["to"])
        return [(s, opt(e, dty, None if v is None else build(e, v, it))) for s, v in outs]
    except Unsupported:
        if "IntoIter" in x["path"]:
            raise
        st.mem, st.F = st0.mem, st0.F
        return None


@model_rx(r"^<core::(iter::Rev|array::IntoIter)<.*> as core::iter::DoubleEndedIterator>::next_back$")
def m_stepb(e, st, fr, x, a, tys, dty):
    it = e.field_tys(dty, 1)[0]
    return [(s, opt(e, dty, None if v is None else build(e, v, it)))
            for s, v in step(e, st, fr, e.as_ref(a[0], tys[0]), e.T[tys[0]]["to"], True)]


@model_rx(r"ZipImpl<.*>>::new$")
def m_zipnew(e, st, fr, x, a, tys, dty):
    return [(st, Agg(dty, None, (a[0], a[1], ZERO, ZERO)))]


@model_rx(r"^core::array::iter::<impl core::iter::IntoIterator for \[T; N\]>::into_iter$|^core::array::<impl core::iter::IntoIterator for \[T; N\]>::into_iter$|^core::array::IntoIter::<.*>::new$")
def m_arrinto(e, st, fr, x, a, tys, dty):
    v = a[0]
    if isinstance(v, Unk):
        v = e.expand(v)
    if not isinstance(v, Arr):
        raise Unsupported("array by value")
    o = ("H", "arr", st.ctr, v)
    st.mem[o] = v
    return [(st, ItV(dty, Ref(o, (), ZERO, v.n), ZERO, v.n))]


@model_rx(r"^<core::array::IntoIter<.*> as core::(iter::Iterator>::size_hint|iter::ExactSizeIterator>::len|ops::Drop>::drop)$")
def m_arrhint(e, st, fr, x, a, tys, dty):
    if x["path"].endswith("drop"):
        return [(st, Agg(dty, None, ()))]
    it = it_load(e, st, a[0])
    n = it.end - it.pos
    if x["path"].endswith("len"):
        return [(st, n)]
    return [(st, Agg(dty, None, (n, opt(e, e.T[dty]["e"][1], n))))]


# ------------------------------------------------------------------ consumers as loops
def closure_call(e, fty):
    """the instance that runs a closure of this type"""
    tab = e.P.__dict__.get("_closures")
    if tab is None:
        tab = {}
        for i, y in enumerate(e.I):
            b = y.get("body")
            if b and y["name"].endswith("}") and b["argc"] >= 1:
                t = b["locals"][1]
                while e.T[t]["k"] == "ref":
                    t = e.T[t]["to"]
                if e.T[t]["k"] == "closure":
                    tab.setdefault(t, i)
        e.P._closures = tab
    i = tab.get(fty)
    return None if i is None else {"i": i}


def ensure_ty(e, key, make):
    tab = e.P.__dict__.setdefault("_synth_ty", {})
    if key not in tab:
        e.T.append(make())
        tab[key] = len(e.T) - 1
    return tab[key]


def mv(l):
    return {"k": "mv", "pl": {"l": l, "p": []}}


def cp(l):
    return {"k": "cp", "pl": {"l": l, "p": []}}


def refmut(e, ty):
    return ensure_ty(e, ("refmut", ty), lambda: {"k": "ref", "to": ty, "mut": True, "s": "&mut " + e.T[ty]["s"], "size": 8})


STEPS = ("Iter", "IterMut", "IntoIter", "Enumerate", "Zip", "Take", "Skip", "Rev", "Copied", "Cloned", "Chain")


@model_rx(r"ZipImpl<.*>>::(fold|size_hint|nth|next_back|get_unchecked)$")
def m_zipother(e, st, fr, x, a, tys, dty):
    raise Unsupported(x["path"])


@model_rx(r"^<core::(slice::Iter(Mut)?|array::IntoIter|iter::(Enumerate|Zip|Take|Skip|Rev|Copied|Cloned|Chain))<.*> as core::iter::Iterator>::(fold|for_each|all|any|position|find)$|^core::iter::Iterator::(fold|for_each|all|any|position|find)$")
def m_consume(e, st, fr, x, a, tys, dty):
    op = x["path"].rsplit("::", 1)[-1]
    selfty = tys[0]
    byref = e.T[selfty]["k"] == "ref"
    ity = e.T[selfty]["to"] if byref else selfty
    if e.T[ity]["k"] != "adt" or not x.get("body"):
        return None
    if norm_path(e.T[ity]["path"]).rsplit("::", 1)[-1] not in STEPS:
        return None
    f = closure_call(e, tys[-1])
    if f is None:
        raise Unsupported("consumer " + x["path"])
    body = x.get("_loop")
    if body is None:
        body = x["_loop"] = consumer_body(e, x, op, f, ity, byref, tys, dty)
    y = dict(x)
    y["body"] = body
    n = len(e.I)
    k = e.P.__dict__.setdefault("_synth_inst", {})
    key = id(body)
    if key not in k:
        e.I.append(y)
        k[key] = n
    return e.call_fn(st, k[key], list(a), fr.stack)


def consumer_body(e, x, op, f, ity, byref, tys, dty):
    cl = e.I[f["i"]]["body"]
    if op in ("fold",):
        raise_if = 3
    lo = cl["locals"]
    if cl.get("spread") not in (None, False):
        raise Unsupported("closure with spread arguments")
    # closure parameters: 1 = environment, then the arguments
    want = 2 if op == "fold" else 1
    if cl["argc"] != want + 1:
        raise Unsupported("closure arity")
    item = lo[cl["argc"]]
    if op == "find":
        item = e.T[item]["to"] if e.T[item]["k"] == "ref" else item
    envty = lo[1]
    fty = tys[-1]
    L_ = [dty] + list(tys)
    base = len(L_)
    unit = ensure_ty(e, "unit", lambda: {"k": "tuple", "e": [], "s": "()", "size": 0})
    boolty = next(i for i, t in enumerate(e.T) if t["k"] == "bool")
    usz = next(i for i, t in enumerate(e.T) if t.get("s") == "usize")
    optty = ensure_ty(e, ("opt", item), lambda: {
        "k": "adt", "ak": "enum", "path": "core::option::Option", "s": "Option<" + e.T[item]["s"] + ">", "args": [item],
        "variants": [{"name": "None", "discr": 0, "fields": []},
                     {"name": "Some", "discr": 1, "fields": [{"name": "0", "ty": item, "pub": True}]}]})
    tup = ensure_ty(e, ("tup",) + tuple(lo[2:cl["argc"] + 1]), lambda: {
        "k": "tuple", "e": list(lo[2:cl["argc"] + 1]), "s": "(..)"})
    sref = tys[0] if byref else refmut(e, ity)
    L_ += [optty, sref, usz, item, envty, tup, lo[0], usz, boolty]
    OPT, SR, DI, IT, ENV, TUP, RES, CNT, _B = range(base, base + 9)
    sp = x.get("span")

    def as_(l, rv, p=()):
        return {"k": "as", "pl": {"l": l, "p": list(p)}, "rv": rv, "sp": sp}

    def next_(e2, s2, fr2, args, atys, d):
        return [(s, opt(e2, d, None if v is None else build(e2, v, item)))
                for s, v in step(e2, s2, fr2, e2.as_ref(args[0], None), ity)]

    def const(ty, v):
        return {"k": "use", "o": {"k": "const", "ty": ty, "val": {"v": v}}}
    F = 3 if op == "fold" else 2
    bb = []

    def add(s, t):
        t["sp"] = sp
        bb.append({"s": s, "t": t})
    # 0: entry
    s0 = []
    if op == "fold":
        s0.append(as_(0, {"k": "use", "o": mv(2)}))
    elif op == "position":
        s0.append(as_(CNT, const(usz, 0)))
    add(s0, {"k": "goto", "t": 1})
    # 1: next
    rv = {"k": "ref", "mut": True, "pl": {"l": 1, "p": ["*"] if byref else []}}
    add([as_(SR, rv)], {"k": "call", "f": {"py": next_}, "a": [cp(SR)], "d": {"l": OPT, "p": []}, "t": 2})
    add([as_(DI, {"k": "discr", "pl": {"l": OPT, "p": []}})],
        {"k": "switch", "o": mv(DI), "v": [[0, 5], [1, 3]], "else": 7})
    # 3: call the closure
    some = {"l": OPT, "p": [{"d": 1}, {"f": 0, "ty": item}]}
    pre = [as_(IT, {"k": "use", "o": {"k": "mv", "pl": some}})]
    if e.T[envty]["k"] == "ref":
        pre.append(as_(ENV, {"k": "ref", "mut": True, "pl": {"l": F, "p": []}}))
    else:
        pre.append(as_(ENV, {"k": "use", "o": cp(F)}))
    if op == "fold":
        fs = [mv(0), mv(IT)]
    elif op == "find":
        L_.append(lo[cl["argc"]])
        pre.append(as_(len(L_) - 1, {"k": "ref", "mut": False, "pl": {"l": IT, "p": []}}))
        fs = [mv(len(L_) - 1)]
    else:
        fs = [mv(IT)]
    pre.append(as_(TUP, {"k": "agg", "a": "tuple", "ty": tup, "v": None, "f": fs, "uf": None}))
    add(pre, {"k": "call", "f": f, "a": [mv(ENV), mv(TUP)], "d": {"l": RES, "p": []}, "t": 4})
    # 4: continue or stop
    if op == "fold":
        add([as_(0, {"k": "use", "o": mv(RES)})], {"k": "goto", "t": 1})
    elif op == "for_each":
        add([], {"k": "goto", "t": 1})
    elif op == "all":
        add([], {"k": "switch", "o": mv(RES), "v": [[0, 6]], "else": 1})
    elif op in ("any", "find"):
        add([], {"k": "switch", "o": mv(RES), "v": [[0, 1]], "else": 6})
    else:
        add([], {"k": "switch", "o": mv(RES), "v": [[0, 8]], "else": 6})
    # 5: exhausted
    if op == "fold":
        add([], {"k": "return"})
    elif op == "for_each":
        add([as_(0, {"k": "agg", "a": "tuple", "ty": dty, "v": None, "f": [], "uf": None})], {"k": "return"})
    elif op in ("all", "any"):
        add([as_(0, const(dty, op == "all"))], {"k": "return"})
    else:
        add([as_(0, {"k": "agg", "a": "adt", "ty": dty, "v": 0, "f": [], "uf": None})], {"k": "return"})
    # 6: stopped early
    if op in ("all", "any"):
        add([as_(0, const(dty, op == "any"))], {"k": "return"})
    elif op == "position":
        add([as_(0, {"k": "agg", "a": "adt", "ty": dty, "v": 1, "f": [cp(CNT)], "uf": None})], {"k": "return"})
    elif op == "find":
        add([as_(0, {"k": "agg", "a": "adt", "ty": dty, "v": 1, "f": [cp(IT)], "uf": None})], {"k": "return"})
    else:
        add([], {"k": "return"})
    add([], {"k": "unreachable"})
    if op == "position":
        add([as_(CNT, {"k": "bin", "op": "Add", "a": cp(CNT), "b": {"k": "const", "ty": usz, "val": {"v": 1}}})], {"k": "goto", "t": 1})
    return {"argc": len(tys), "locals": L_, "names": {}, "bbs": bb, "spread": None}


# ------------------------------------------------------------------ arrays made element by element
def each_elem(e, st, fr, f, env, n, items):
    """run a closure for every element in order -> [(state, [values])]"""
    b = e.I[f["i"]]["body"]
    byref = e.T[b["locals"][1]]["k"] == "ref"
    o = ("H", "env", st.ctr, len(fr.stack), f["i"])
    st.mem[o] = env
    cur = [(st, [])]
    for k in range(n):
        nxt = []
        for s, vs in cur:
            a = [Ref(o, ()) if byref else s.mem[o]] + ([items(s, k)] if b["argc"] == 2 else [])
            nxt += [(q, vs + [v]) for q, v in e.call_fn(s, f["i"], a, fr.stack)]
        if len(nxt) > 64:
            raise Unsupported("array closure with many outcomes")
        cur = nxt
    for s, _ in cur:
        s.mem.pop(o, None)
    return cur


@model_rx(r"^core::array::from_fn$")
def m_fromfn(e, st, fr, x, a, tys, dty):
    f = closure_call(e, tys[0])
    n = e.T[dty]["n"].get("v") if e.T[dty]["k"] == "array" else None
    if f is None or n is None:
        raise Unsupported("array::from_fn")
    ety = e.T[dty]["e"]
    if n > 1:
        # one generic element: if it neither depends on the index nor changes anything, all are alike
        key = ("fromfn", st.ctr, len(fr.stack), f["i"])
        idx = L(atom(key, 0, n - 1))
        t = st.copy()
        try:
            outs = each_elem(e, t, fr, f, a[0], 1, lambda s, k: idx)
        except Unsupported:
            outs = []
        if len(outs) == 1:
            s, (v,) = outs[0]
            if s.log is st.log and s.mem == st.mem and s.taint == st.taint and repr(key) not in repr(v) and "fromfn" not in repr(v):
                return [(s, Arr(ety, K(n), ("rep", v)))]
    if n > 72:
        raise Unsupported("array::from_fn of a large array")
    return [(s, Arr(ety, K(n), ("v", tuple(vs)))) for s, vs in each_elem(e, st, fr, f, a[0], n, lambda s, k: K(k))]


@model_rx(r"^core::array::<impl \[T; N\]>::map$")
def m_arrmap(e, st, fr, x, a, tys, dty):
    f = closure_call(e, tys[-1])
    v = e.expand(a[0]) if isinstance(a[0], Unk) else a[0]
    n = e.T[dty]["n"].get("v") if e.T[dty]["k"] == "array" else None
    if f is None or n is None or n > 72 or not isinstance(v, Arr):
        raise Unsupported("array::map")
    return [(s, Arr(e.T[dty]["e"], K(n), ("v", tuple(vs))))
            for s, vs in each_elem(e, st, fr, f, a[1], n, lambda s, k: e.arr_read(v, K(k), s.F))]
