"""Boundary contract of the Marshalable trait: calls on component types are summarised; each
implementation is verified against the same contract on its own."""
from .lin import *
from .lin import atom as mk_atom
from .vals import *
from .mem import Unsupported, Dead, subst, kph, sum_atom, mentions
from .models import slice_ref, split

WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}


def is_marsh(e, f):
    """(method, self type id, type string) if the callee is a Marshalable method"""
    if "u" in f:
        u = f["u"]
        if u.get("trait", "").endswith("Marshalable") and u["name"] in ("try_marshal", "try_unmarshal"):
            return u["name"], u["targs"][0], e.T[u["targs"][0]]["s"]
        return None
    x = e.I[f["i"]]
    if (x.get("trait") or "").endswith("Marshalable") and x["short"] in ("try_marshal", "try_unmarshal"):
        return x["short"], None, x.get("implself")
    return None


def size_bound(e, ty):
    return (1 << 40)


def enc_size(e, ts, v, ty=None):
    """encoded size of value v of type ts"""
    if ts in WIDTH:
        return K(WIDTH[ts])
    if ts == "()":
        return ZERO
    if isinstance(v, Arr):
        return v.n
    if is_dec(ts, v):
        return L(mk_atom(("nd", ts, v.o[2], v.o[3]), 0, 1 << 40))
    return L(mk_atom(("n", ts, v), 0, 1 << 40))


def is_dec(ts, v):
    """a value that was decoded from bytes: encoding it restores those bytes"""
    return isinstance(v, Unk) and isinstance(v.o, tuple) and len(v.o) == 4 and v.o[0] == "dec" and v.o[1] == ts


def res(e, dty, ok):
    return Agg(dty, 0, (ok,))


def err(e, st, dty, name):
    ety = e.field_tys(dty, 1)[0]
    return Agg(dty, 1, (e.mk_unk(ety, st.fresh(name)),))


def self_ts(e, ty, ts):
    return ts


def leaves(e, ty, d=0):
    """number of integer leaves of a record with a fixed layout, None otherwise"""
    t = e.T[ty]
    if t.get("s") in WIDTH:
        return 1
    if d > 4 or t["k"] != "adt" or t["ak"] != "struct" or not t["variants"]:
        return None
    n = 0
    for f in t["variants"][0]["fields"]:
        k = leaves(e, f["ty"], d + 1)
        if k is None:
            return None
        n += k
    return n


def marshal_hook(e, st, fr, f, args, atys, dty):
    m = is_marsh(e, f)
    if m is None:
        return None
    name, ty, ts = m
    if "i" in f and e.I[f["i"]].get("body") is not None:
        # small fixed-layout records are followed into their own implementation
        vt = e.T[atys[0]]["to"] if name == "try_marshal" else e.field_tys(dty, 0)[0]
        k = leaves(e, vt)
        if k is not None and k <= getattr(e, "inline_leaves", 1) and e.T[vt]["k"] == "adt":
            return None
    if name == "try_marshal":
        sty = e.T[atys[0]]["to"]
        ts = e.T[sty]["s"]
        v = e.load(st, e.as_ref(args[0], None))
        b = slice_ref(e, st, args[1])
        return encode(e, st, fr, sty, ts, v, b, dty)
    okty = e.field_tys(dty, 0)[0]
    ts = e.T[okty]["s"]
    return decode(e, st, fr, okty, ts, args[0], dty)


def encode(e, st, fr, sty, ts, v, b, dty):
    n = enc_size(e, ts, v, sty)
    out = []
    if n.const is None:
        # an unknown but nonnegative size
        pass
    ok, bad = split(e, st, c_le(n - b.n))
    # success
    for s in ok:
        if isinstance(v, Arr):
            c = e.content(v, ZERO, v.n, s.F)
        elif is_dec(ts, v):
            c = ("copy", v.o[2], v.o[3])
        else:
            c = ("enc", ts, v)
        s.ev(("ENC", ts, v, b, n))
        if n.const != 0:
            e.write_seg(s, b, ZERO, n, c)
        out.append((s, res(e, dty, n)))
    # failure: always possible for composite types (content dependent), only when short for integers
    fails = bad
    if not (ts in WIDTH or ts == "()" or isinstance(v, Arr)):
        fails = [st]
    for s in fails:
        s = s.copy()
        s.ev(("ENCERR", ts, v, b))
        o = s.fresh("encerr")
        if not (ts in WIDTH or ts == "()" or isinstance(v, Arr)):
            e.write_seg(s, b, ZERO, b.n, ("unk", (o, "w"), ZERO))
        out.append((s, err(e, s, dty, "encerr")))
    return out


def cursor(e, ub):
    """(slice field, position field or None) of a decoding cursor"""
    for (ty, j), g in e.rel.items():
        if ty == ub.ty:
            return g, j
    tys = e.field_tys(ub.ty)
    sl = [i for i, t in enumerate(tys) if e.T[t]["k"] == "ref" and e.T[e.T[t]["to"]]["k"] == "slice"]
    if len(sl) != 1 or any(e.P.is_int(t) for t in tys):
        raise Unsupported("cursor representation")
    return sl[0], None


def unread(e, st, ub):
    """the window of bytes a cursor has not consumed"""
    if isinstance(ub, Unk):
        ub = e.expand(ub)
    g, j = cursor(e, ub)
    w = slice_ref(e, st, ub.f[g])
    if j is not None:
        w = Ref(w.obj, w.path, w.s + ub.f[j], w.n - ub.f[j])
    return w


def at_start(e, ty, w, moved=False):
    """a cursor over exactly the window w; moved: one that has consumed bytes before"""
    tys = e.field_tys(ty)
    ub = Agg(ty, None, (w,) * len(tys))
    g, j = cursor(e, ub)
    q = ZERO
    if j is not None and moved:
        q = L(mk_atom(("consumed", ty), 0, 1 << 40))
        w = Ref(w.obj, w.path, w.s - q, w.n + q)
    return Agg(ty, None, tuple(w if i == g else q if i == j else e.mk_unk(t, ("cursor", i)) for i, t in enumerate(tys)))


def decode(e, st, fr, ty, ts, bref, dty):
    bref = e.as_ref(bref, None)
    ub = e.load(st, bref)
    if isinstance(ub, Unk):
        ub = e.expand(ub)
    gf, pf = cursor(e, ub)
    w = unread(e, st, ub)
    arr = e.arr_of(st, w)
    out = []

    def adv(s, n):
        f = list(ub.f)
        if pf is None:
            f[gf] = Ref(w.obj, w.path, w.s + n, w.n - n)
        else:
            f[pf] = f[pf] + n
        e.store(s, bref, Agg(ub.ty, ub.var, tuple(f)))

    def ok(s, v, n):
        adv(s, n)
        s.ev(("DEC", ts, v, w, n))
        out.append((s, res(e, dty, v)))

    def bad(s, exact):
        s = s.copy()
        s.ev(("DECERR", ts, w))
        if not exact:
            o = s.fresh("decerr")
            d = L(mk_atom(("adv", o), 0, 1 << 62))
            F = s.F.add_le(d - w.n)
            if F is None:
                return
            s.F = F
            adv(s, d)
        out.append((s, err(e, s, dty, "decerr")))

    if ts == "()":
        ok(st, Agg(ty, None, ()), ZERO)
        return out
    hit = enc_at(e, st, arr, w.s, ts)
    if hit is not None and (ts not in WIDTH):
        v, n = hit
        y, no = split(e, st, c_le(n - w.n))
        for s in y:
            ok(s, v, n)
        for s in no:
            bad(s, True)
        return out
    if ts in WIDTH or (e.T[ty]["k"] == "array" and e.T[e.T[ty]["e"]]["s"] == "u8"):
        n = K(WIDTH[ts]) if ts in WIDTH else e.arr_len(e.T[ty])
        y, no = split(e, st, c_le(n - w.n))
        for s in y:
            if ts in WIDTH:
                if hit is not None:
                    v = hit[0]
                else:
                    bits = []
                    for j in range(WIDTH[ts] - 1, -1, -1):
                        bits += lin_bits(e.arr_read(arr, w.s + j, s.F), 8)
                    v = e.bits_to_int(bits, ty, s.F)
            else:
                v = e.sub(arr, w.s, n, s.F)
            ok(s, v, n)
        for s in no:
            bad(s, True)
        return out
    # unknown bytes
    key = ("dec", ts, arr, w.s)
    v = e.mk_unk(ty, key)
    n = L(mk_atom(("nd", ts, arr, w.s), 0, 1 << 40))
    y, no = split(e, st, c_le(n - w.n))
    for s in y:
        ok(s, v, n)
    bad(st, False)
    return out


def enc_at(e, st, arr, pos, ts):
    """value encoded exactly at pos, if the buffer's contents say so"""
    F = st.F
    cuts = []

    def clear(end):
        return all(F.le0(end - x) for x in cuts)
    for s, n, c in reversed(arr.segs):
        if c[0] == "enc":
            if c[1] == ts and (s == pos or F.eq0(s - pos)) and clear(s + n):
                return c[2], n
        if c[0] == "star" and len(c[2]) == 1:
            it = c[2][0][2]
            if it[0] == "enc" and it[1] == ts:
                j = star_index(e, F, c[1], pos - s, n)
                if j is not None and clear(s + n):
                    v = subst(it[2], {kph().id: j})
                    d = subst(c[1], {kph().id: j})
                    # the j-th item ends inside the sequence
                    G = F.add_le(pos + d - s - n)
                    if G is not None:
                        st.F = G
                    return v, d
        if F.le0(s + n - pos):
            continue
        if F.le0(pos - s):
            # lies (or may lie) behind: must not overlap what is found in front of it
            cuts.append(s)
            continue
        return None
    if cuts and not (arr.base[0] == "enc"):
        return None
    b = arr.base
    if b[0] == "enc" and b[1] == ts and pos.const == 0:
        return b[2], arr.n
    if b[0] == "copy":
        return enc_at(e, st, b[1], b[2] + pos, ts)
    return None


def star_index(e, F, delta, off, total):
    """j such that off == sum(delta, j) and the j-th item lies inside"""
    p = kph().id
    d = delta.const
    off = F.reduce(off)
    if d is not None and d > 0:
        # off = d*j
        if all(k % d == 0 for _, k in off.t) and off.c % d == 0:
            j = Lin(tuple((a, k // d) for a, k in off.t), off.c // d)
            if F.le0(-j) and F.le0(off + d - total):
                return j
        return None
    # off is sum(delta, j) (plus explicit items)
    cand = []
    if off.const == 0:
        cand.append(ZERO)
    for j in range(1, 5):
        if sum_atom(delta, K(j)) == off:
            cand.append(K(j))
    for a, k in off.t:
        key = ATOMS[a].key
        if key[0] == "sum" and key[1] == delta and k == 1:
            cand.append(key[2])
            cand.append(key[2] + 1)
    tot = total.single()
    cnt = None
    if tot is not None and tot.key[0] == "sum":
        cnt = tot.key[2]
    elif total.t:
        for a, k in total.t:
            if ATOMS[a].key[0] == "sum":
                cnt = ATOMS[a].key[2]
    for j in cand:
        if F.eq0(sum_atom(delta, j) - off) or sum_atom(delta, j) == off:
            if cnt is not None and F.le0(-j) and F.le0(j + 1 - cnt):
                return j
    return None
