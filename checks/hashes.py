"""H01-H02: hash algorithm tables and the tagged digest codec of the tpm2 crate."""
from .core import *
from .client import leaf, is_copy
from .codec import fname, oracle, be_bits
from .errors import last, tpath, funcs, outcomes, eqk, cval
from .server import c_le, c_eq
from . import wire

# TCG algorithm registry: identifier -> digest length
SIZES = {0x4: 20, 0xB: 32, 0xC: 48, 0xD: 64, 0x12: 32, 0x27: 32, 0x28: 48, 0x29: 64}
ALGN, HAN = "TpmiAlgHash", "TpmtHa"


def hash_ty(P):
    return next((k for k, t in enumerate(P.T) if t["k"] == "adt" and last(t["path"]) == ALGN), None)


def vars_of(P, ty):
    """[(discriminant, name)]"""
    return [(v["discr"] if v["discr"] is not None else k, v["name"]) for k, v in enumerate(P.T[ty]["variants"])]


def supports(e, st, fr, f, args, atys, dty):
    """Limits::supports_hash as one unknown truth value per algorithm"""
    u = f.get("u")
    if not u or not u["path"].endswith("Limits::supports_hash"):
        return None
    h = args[1]
    out = []
    d = e.discr(h)
    for v, _ in vars_of(e.P, atys[1]):
        for F in e.assume(st.F, c_eq(d - v)):
            s = st.with_F(F)
            out.append((s, ("b", ("supports", v), True)))
    return out


def sup(F, v):
    """True / False / None: does this path know whether algorithm v is supported"""
    return F.bools.get(("supports", v))


def possible(e, F, val, P, ty):
    """[(discriminant, name, facts)]: variants of val this path allows"""
    d = e.discr(val)
    for v, n in vars_of(P, ty):
        for G in e.assume(F, c_eq(d - v)):
            if G.feasible():
                yield v, n, G


def go(P, i, **kw):
    return Run(P, i, hooks=(supports, contracts.marshal_hook), opts={"join": False, "inline_leaves": 6, "many": 300}, **kw)


def deref(run, a):
    return run.e.load(run.st, a) if isinstance(a, Ref) else a


def variant(e, v):
    """discriminant Lin of an enum value"""
    return e.discr(v)


# ------------------------------------------------------------------ H01
def H01(res, tier):
    P = prog("tpm2")
    ALG = oracle("consts.json")["ALG"]
    hty = hash_ty(P)
    if hty is None:
        res.bad("missing", "the hash algorithm type disappeared")
        return {}
    known = vars_of(P, hty)
    for v, n in known:
        res.n("algorithms")
        want = ALG.get(n.replace("_", "").lower())
        if want is not None and want != v:
            res.bad(f"id:{n}", f"{ALGN}::{n} has identifier {v:#x}, the specification assigns {want:#x}", "crates/tpm2/src/tpmi.rs")
        if v not in SIZES:
            res.notes.append(f"{n} is not in the table of hash algorithms")
    ids = {v for v, _ in known}
    for i, x in funcs(P):
        t, n = last(x.get("implself")), fname(x)
        b = x["body"]
        ls = b["locals"]
        a1 = tpath(P, ls[1]) if b["argc"] >= 1 else ""
        if t == ALGN and n == "digest_size" and b["argc"] == 1:
            sizes(res, P, i, hty)
        elif n == "from" and a1 == ALGN and tpath(P, ls[0]) == "Alg":
            to_alg(res, P, i, hty)
        elif n == "try_from" and t == ALGN and a1 in ("Alg", "u16"):
            from_alg(res, P, i, hty, ids)
        elif n in ("marshal_array", "unmarshal_array") and t in (ALGN, "Alg"):
            arrays(res, P, i, t, n, hty, ids)
        elif n == "max_digest_size" and (x.get("trait") or "").endswith("Limits") or n == "max_digest_size" and "Limits" in x["name"]:
            max_size(res, P, i, ids)
        elif t == HAN and n == "hash_alg":
            tag(res, P, i, hty)
        elif t == HAN and n == "digest":
            digest(res, P, i)
    ha = next((k for k, ty in enumerate(P.T) if ty["k"] == "adt" and last(ty["path"]) == HAN), None)
    if ha is not None:
        for v, n in vars_of(P, ha):
            f = next(y for y in P.T[ha]["variants"] if y["name"] == n)["fields"]
            res.n("tagged digests")
            if ALG.get(n.replace("_", "").lower(), v) != v:
                res.bad(f"tag:{n}", f"{HAN}::{n} has selector {v:#x}, the specification assigns {ALG[n.replace('_', '').lower()]:#x}", "crates/tpm2/src/tpmt.rs")
            k = arr_n(P, f[0]["ty"]) if f else None
            if v in SIZES and k is not None and k != SIZES[v]:
                res.bad(f"len:{n}", f"{HAN}::{n} carries {k} bytes, the algorithm's digest has {SIZES[v]}", "crates/tpm2/src/tpmt.rs")
    return dict(rule="for each hash algorithm the evaluated discriminants, the value computed by digest_size, both identifier conversions, the "
                "two-byte codec and the tagged digest are compared with one table; max_digest_size must equal the maximum over the supported "
                "algorithms on every path of yes/no answers of supports_hash", assumptions=["supports_hash answers the same for the same algorithm"],
                floors={"algorithms": 8, "digest sizes": 8, "maxima": 5, "conversions to identifiers": 8, "conversions from identifiers": 9})


def arr_n(P, ty):
    t = P.T[ty]
    while t["k"] == "ref":
        t = P.T[t["to"]]
    if t["k"] == "array":
        n = (t.get("n") or {}).get("v")
        return n if isinstance(n, int) else None
    return None


def sizes(res, P, i, hty):
    run = go(P, i)
    e = run.e
    res.funcs.add(run.name)
    for s, v in outcomes(res, run):
        for d, n, F in possible(e, s.F, run.args[0], P, hty):
            if d not in SIZES:
                continue
            res.n("digest sizes")
            if not (isinstance(v, Lin) and F.eq0(v - SIZES[d])):
                res.bad(f"size:{n}", f"digest_size of {n} is not {SIZES[d]}", short_span(P.I[i].get("span")))


def to_alg(res, P, i, hty):
    run = go(P, i)
    e = run.e
    res.funcs.add(run.name)
    for s, v in outcomes(res, run):
        l = leaf(v)
        for d, n, F in possible(e, s.F, run.args[0], P, hty):
            res.n("conversions to identifiers")
            if l is None or not F.eq0(l - d):
                res.bad(f"to:{n}", f"converting {n} to an identifier does not give {d:#x}", short_span(P.I[i].get("span")))


def decoded(res, P, run, e, s, v, arg, ids, what, where):
    """outcome of a conversion of the raw value arg: the algorithm with that identifier, or an error if there is none"""
    ok = is_ok(e, v, s.F)
    if ok is None:
        res.und(run.name, "result")
        return
    res.n("conversions from identifiers")
    if ok:
        d = e.discr(v.f[0])
        if not s.F.eq0(d - arg):
            res.bad(f"from:{what}", f"{what} can accept an identifier as a different algorithm", where)
        return
    for k in sorted(ids):
        if any(G.feasible() for G in e.assume(s.F, c_eq(arg - k))):
            res.bad(f"refuse:{what}", f"{what} can refuse the known identifier {k:#x}", where)


def from_alg(res, P, i, hty, ids):
    run = go(P, i)
    e = run.e
    res.funcs.add(run.name)
    a = run.args[0]
    a = leaf(e.expand(a) if isinstance(a, Unk) else a)
    for s, v in outcomes(res, run):
        decoded(res, P, run, e, s, v, a, ids, run.name, short_span(P.I[i].get("span")))


def arrays(res, P, i, t, n, hty, ids):
    run = go(P, i)
    e = run.e
    where = short_span(P.I[i].get("span"))
    res.funcs.add(run.name)
    if n == "unmarshal_array":
        src = e.load(run.st, run.args[0])
        src = e.expand(src) if isinstance(src, Unk) else src
        raw = e.arr_read(src, ZERO, Facts()).scale(256) + e.arr_read(src, K(1), Facts())
    for s, v in outcomes(res, run):
        if n == "marshal_array":
            me = deref(run, run.args[0])
            arr = e.load(s, run.args[1])
            arr = e.expand(arr) if isinstance(arr, Unk) else arr
            got = [lin_bits(e.arr_read(arr, K(k), s.F), 8) for k in (1, 0)]
            cs = [(d, nm, F) for d, nm, F in possible(e, s.F, me, P, hty)] if t == ALGN else [(leaf(e.expand(me) if isinstance(me, Unk) else me), t, s.F)]
            for d, nm, F in cs:
                res.n("identifier codecs")
                if isinstance(d, int):
                    bs = [e.known_bits(e.arr_read(arr, K(k), F), F) for k in (0, 1)]
                    ok = got == [lin_bits(K(d), 16)[:8], lin_bits(K(d), 16)[8:]] or F.eq0(bs[0] - (d >> 8)) and F.eq0(bs[1] - (d & 255)) \
                        or same_under(e, F, arr, e.discr(me))
                else:
                    ok = got[0] + got[1] == lin_bits(d, 16)
                if not ok:
                    res.bad(f"enc:{t}", f"{run.name} does not write the identifier of {nm} most significant byte first", where)
        elif t == "Alg":
            res.n("identifier codecs")
            l = leaf(v.f[0]) if is_ok(e, v, s.F) else None
            if l is None or not s.F.eq0(l - raw):
                res.bad("dec:Alg", f"{run.name} does not return the two bytes, most significant first", where)
        else:
            decoded(res, P, run, e, s, v, raw, ids, run.name, where)


def same_under(e, F, arr, d):
    """the two bytes are the bytes of the discriminant value d"""
    got = [lin_bits(e.arr_read(arr, K(k), F), 8) for k in (1, 0)]
    return got[0] + got[1] == lin_bits(d, 16)


def max_size(res, P, i, ids):
    run = go(P, i)
    e = run.e
    where = short_span(P.I[i].get("span"))
    res.funcs.add(run.name)
    for s, v in outcomes(res, run):
        if any("Limits" in t for t in s.taint):
            res.und(run.name, "limits")
            continue
        yes = [SIZES[d] for d in ids if sup(s.F, d) is True and d in SIZES]
        open_ = [SIZES[d] for d in ids if sup(s.F, d) is None and d in SIZES]
        res.n("maxima")
        if not isinstance(v, Lin):
            res.und(run.name, "value")
            continue
        m = max(yes, default=0)
        if not s.F.eq0(v - m):
            res.bad("max:value", f"max_digest_size can return {v} although the largest supported digest has {m} bytes", where)
        elif any(k > m for k in open_):
            res.bad("max:skipped", f"max_digest_size can return {m} without asking about an algorithm with a longer digest", where)


def tag(res, P, i, hty):
    run = go(P, i)
    e = run.e
    res.funcs.add(run.name)
    a = deref(run, run.args[0])
    ty = P.I[i]["body"]["locals"][1]
    ty = P.T[ty]["to"] if P.T[ty]["k"] == "ref" else ty
    for s, v in outcomes(res, run):
        for d, n, F in possible(e, s.F, a, P, ty):
            res.n("tagged digests")
            if not F.eq0(e.discr(v) - d):
                res.bad(f"alg:{n}", f"hash_alg of a {n} digest is a different algorithm", short_span(P.I[i].get("span")))


def digest(res, P, i):
    run = go(P, i)
    e = run.e
    res.funcs.add(run.name)
    a = deref(run, run.args[0])
    ty = P.I[i]["body"]["locals"][1]
    ty = P.T[ty]["to"] if P.T[ty]["k"] == "ref" else ty
    for s, v in outcomes(res, run):
        for d, n, F in possible(e, s.F, a, P, ty):
            res.n("tagged digests")
            src = payload_ref(e, s, a, P, ty, d)
            if not whole(e, F, v, src, SIZES.get(d)):
                res.bad(f"digest:{n}", f"digest() of a {n} value is not its whole digest", short_span(P.I[i].get("span")))


def payload_ref(e, s, a, P, ty, d):
    k = next(j for j, v in enumerate(P.T[ty]["variants"]) if (v["discr"] if v["discr"] is not None else j) == d)
    if isinstance(a, Unk):
        a = e.expand(a, k)
    return a.f[0] if isinstance(a, Agg) and a.f else None


def whole(e, F, r, src, n):
    """slice / array reference r is exactly the array src refers to"""
    if isinstance(r, Unk):
        r = e.as_ref(r, None)
    if isinstance(src, Unk):
        src = e.as_ref(src, None)
    if not isinstance(r, Ref) or not isinstance(src, Ref) or r.obj != src.obj:
        return False
    if r.s is None:
        return r == src
    return F.eq0(r.s - (src.s or ZERO)) and F.eq0(r.n - n)


# ------------------------------------------------------------------ H02
def window(e, r):
    """(object, start, length) of a slice or array reference"""
    if isinstance(r, Unk):
        r = e.as_ref(r, None)
    if not isinstance(r, Ref):
        return None
    if r.path and r.path[-1][0] == "w":
        return (r.obj, r.path[:-1]), r.path[-1][1], r.path[-1][2]
    if r.s is not None:
        return (r.obj, r.path), r.s, r.n
    return None


def is_win(e, F, r, b, s, n):
    w = window(e, r)
    return w is not None and w[0] == (b.obj, b.path) and F.eq0(w[1] - b.s - s) and F.eq0(w[2] - n)


def untouched(e, s, F, b, start):
    was = e.arr_of(St({}, Facts()), b)
    now = e.arr_of(s, b)
    return wire.same(e, F, wire.canon(e, now, b.s + start, b.s + b.n, F), wire.canon(e, was, b.s + start, b.s + b.n, F))


def H02(res, tier):
    P = prog("tpm2")
    hty = hash_ty(P)
    for i, x in funcs(P):
        t, n = last(x.get("implself")), fname(x)
        tr = last(x.get("trait"))
        if tr not in ("Marshal", "Unmarshal", "MarshalArray"):
            continue
        if t == HAN:
            {"marshal": enc_ha, "unmarshal": dec_ha, "marshaled_size": size_ha, "marshaled_size_max": max_ha}.get(n, lambda *a: None)(res, P, i, hty)
        elif x.get("implself") in ("T",) or len(x.get("implself") or "") == 1:
            {"marshal": enc_t, "unmarshal": dec_t, "marshaled_size": size_t, "marshaled_size_max": size_t}.get(n, lambda *a: None)(res, P, i)
        elif n == "marshal_array" and (x.get("implself") or "").startswith("[u8"):
            copy_t(res, P, i)
    size = {c["implself"]: (cval(c.get("val")), short_span(c["span"])) for c in P.d["consts"]
            if last(c.get("trait")) == "MarshalArray" and c["name"] == "SIZE" and c.get("implself")}
    for m in P.d["impls"]:
        if last(m.get("trait")) != "MarshalArray":
            continue
        at = {a["name"]: a["ty"] for a in m["assoc_types"]}
        k = arr_n(P, at["Array"]) if "Array" in at else None
        v, where = size.get(m["self"], (None, ""))
        if k is not None and v is not None:
            res.n("fixed sizes")
            if k != v:
                res.bad(f"fixed:{m['self']}", f"{m['self']} states a size of {v} bytes but is encoded into {k}", where)
    return dict(rule="every path of the tagged digest codec is compared with its layout: success only for a supported algorithm, identifier then "
                "digest written (or borrowed) and the rest of the buffer returned untouched; a refusal of an unsupported algorithm writes "
                "nothing; the blanket impls hand exactly the first N bytes to the fixed-size codec and return the rest; stated sizes equal the "
                "bytes written", assumptions=["supports_hash answers the same for the same algorithm", "MarshalArray::Array is [u8; SIZE] (checked for "
                                              "each impl of the crate, documented for others)"],
                floors={"encoder classes": 4, "decoder classes": 4, "generic codec classes": 4, "stated sizes": 5, "fixed sizes": 8})


def enc_ha(res, P, i, hty):
    run = go(P, i)
    e = run.e
    x = P.I[i]
    where = short_span(x.get("span"))
    res.funcs.add(run.name)
    ty = P.T[x["body"]["locals"][1]]["to"]
    me = deref(run, run.args[0])
    b = run.args[2]
    n_ok = set()
    for s, v in outcomes(res, run):
        ok = is_ok(e, v, s.F)
        if ok is None or any("unresolved" in t for t in s.taint):
            res.und(run.name, "result")
            continue
        for d, n, F in possible(e, s.F, me, P, ty):
            k = SIZES.get(d)
            if k is None:
                res.und(run.name, f"digest length of {n}")
                continue
            res.n("encoder classes")
            sp = sup(F, d)
            if not ok:
                if sp is not True and untouched(e, s, F, b, ZERO) is False:
                    res.bad(f"wrote:{n}", f"encoding a {n} digest writes to the buffer before it is known to be supported", where)
                if sp is not False and not F.le0(b.n - (k + 1)):
                    res.bad(f"refuse:{n}", f"a supported {n} digest can be refused although the buffer has room for it", where)
                continue
            n_ok.add(d)
            if sp is not True:
                res.bad(f"unsupported:{n}", f"a {n} digest can be encoded although the limits do not support it", where)
            if not F.le0(K(k + 2) - b.n):
                res.bad(f"short:{n}", f"encoding a {n} digest can succeed in a buffer shorter than {k + 2} bytes", where)
                continue
            arr = e.arr_of(s, b)
            bs = [e.known_bits(e.arr_read(arr, b.s + j, F), F) for j in (0, 1)]
            if not (F.eq0(bs[0] - (d >> 8)) and F.eq0(bs[1] - (d & 255)) or be_discr(e, F, arr, b, me)):
                res.bad(f"tag:{n}", f"the encoding of a {n} digest does not start with {d:#06x}", where)
            src = payload_ref(e, s, me, P, ty, d)
            w = e.arr_of(St({}, Facts()), src) if isinstance(src, Ref) else None
            sm = wire.same(e, F, wire.canon(e, arr, b.s + 2, b.s + 2 + k, F), wire.canon(e, w, ZERO, K(k), F)) if w is not None else False
            if sm is None:
                res.und(n, "written bytes not comparable")
            elif not sm:
                res.bad(f"bytes:{n}", f"the encoding of a {n} digest does not continue with its {k} bytes", where)
            if untouched(e, s, F, b, K(2 + k)) is False:
                res.bad(f"spill:{n}", f"encoding a {n} digest writes beyond its {2 + k} bytes", where)
            if not is_win(e, F, v.f[0], b, K(2 + k), b.n - (2 + k)):
                res.bad(f"rest:{n}", f"encoding a {n} digest does not return exactly the unused part of the buffer", where)
    for d, n in vars_of(P, ty):
        if d not in n_ok and not run.err:
            res.bad(f"never:{n}", f"a {n} digest is never encoded", where)


def be_discr(e, F, arr, b, me):
    got = [lin_bits(e.arr_read(arr, b.s + j, F), 8) for j in (1, 0)]
    return got[0] + got[1] == lin_bits(e.discr(me), 16)


def dec_ha(res, P, i, hty):
    run = go(P, i)
    e = run.e
    x = P.I[i]
    where = short_span(x.get("span"))
    res.funcs.add(run.name)
    ty = P.T[x["body"]["locals"][1]]["to"]
    b = run.args[2]
    arr0 = e.arr_of(St({}, Facts()), b)
    raw = e.arr_read(arr0, b.s, Facts()).scale(256) + e.arr_read(arr0, b.s + 1, Facts())
    n_ok = set()
    for s, v in outcomes(res, run):
        ok = is_ok(e, v, s.F)
        if ok is None or any("unresolved" in t for t in s.taint):
            res.und(run.name, "result")
            continue
        res.n("decoder classes")
        if not ok:
            for F in e.assume(s.F, c_le(K(2) - b.n)):
                for d, n in vars_of(P, ty):
                    for G in e.assume(F, c_eq(raw - d)):
                        if G.feasible() and sup(G, d) is not False and not G.le0(b.n - (SIZES.get(d, 0) + 1)):
                            res.bad(f"refuse:{n}", f"a complete encoding of a supported {n} digest can be refused", where)
            continue
        now = e.load(s, run.args[0])
        for d, n, F in possible(e, s.F, now, P, ty):
            k = SIZES.get(d)
            n_ok.add(d)
            if not F.le0(K(k + 2) - b.n):
                res.bad(f"short:{n}", f"a {n} digest can be decoded from fewer than {k + 2} bytes", where)
                continue
            if not F.eq0(raw - d):
                res.bad(f"tag:{n}", f"bytes that do not start with {d:#06x} can be decoded as a {n} digest", where)
            if sup(F, d) is not True:
                res.bad(f"unsupported:{n}", f"a {n} digest can be decoded although the limits do not support it", where)
            src = payload_ref(e, s, now, P, ty, d)
            if not is_win(e, F, src, b, K(2), K(k)):
                res.bad(f"bytes:{n}", f"the decoded {n} digest is not the {k} bytes after the identifier", where)
            if not is_win(e, F, v.f[0], b, K(2 + k), b.n - (2 + k)):
                res.bad(f"rest:{n}", f"decoding a {n} digest does not return exactly the unread part of the buffer", where)
    for d, n in vars_of(P, ty):
        if d not in n_ok and not run.err and not res.undecided:
            res.bad(f"never:{n}", f"a {n} digest is never decoded", where)


def size_ha(res, P, i, hty):
    run = go(P, i)
    e = run.e
    x = P.I[i]
    res.funcs.add(run.name)
    ty = P.T[x["body"]["locals"][1]]["to"]
    me = deref(run, run.args[0])
    for s, v in outcomes(res, run):
        for d, n, F in possible(e, s.F, me, P, ty):
            res.n("stated sizes")
            if not (isinstance(v, Lin) and F.eq0(v - (2 + SIZES.get(d, 0)))):
                res.bad(f"size:{n}", f"marshaled_size of a {n} digest is not {2 + SIZES.get(d, 0)}", short_span(x.get("span")))


def max_ha(res, P, i, hty):
    run = go(P, i)
    e = run.e
    x = P.I[i]
    res.funcs.add(run.name)
    for s, v in outcomes(res, run):
        a = next((a for a in ATOMS if a is not None and a.key[0] == "N" and "max_digest_size" in str(a.key[1])), None)
        if not isinstance(v, Lin):
            res.und(run.name, "value")
            continue
        res.n("stated sizes")
        lim = max([SIZES[d] for d in SIZES if sup(s.F, d) is not False], default=0)
        if not (a is not None and s.F.le0(L(a) + 2 - v)) and not s.F.le0(K(2 + lim) - v):
            res.bad("max", "marshaled_size_max can be smaller than the encoding of a supported digest", short_span(x.get("span")))


def array_call(s, name):
    return [ev for ev in s.events() if ev[0] == "call" and ev[1].endswith("::" + name)]


def narr(e, b, r):
    """the array length N of a window at the start of buffer b"""
    w = window(e, r)
    return w[2] if w is not None and w[0] == (b.obj, b.path) else None


def the_n():
    return next((L(a) for a in ATOMS if a is not None and a.key[0] == "N" and str(a.key[1]) == "N"), None)


def enc_t(res, P, i):
    run = go(P, i)
    e = run.e
    where = short_span(P.I[i].get("span"))
    res.funcs.add(run.name)
    b = run.args[2]
    for s, v in outcomes(res, run):
        ok = is_ok(e, v, s.F)
        if ok is None:
            res.und(run.name, "result")
            continue
        res.n("generic codec classes")
        cs = array_call(s, "marshal_array")
        N = the_n()
        if not ok:
            if cs or N is None or not s.F.le0(b.n - N + 1):
                res.bad("t:refuse", "the fixed-size encoder can refuse although the buffer is long enough", where)
            continue
        if len(cs) != 1 or cs[0][2][0] != run.args[0] or not is_win(e, s.F, cs[0][2][1], b, ZERO, N):
            res.bad("t:where", "the fixed-size encoder does not write the value exactly into the first N bytes", where)
        elif not is_win(e, s.F, v.f[0], b, N, b.n - N):
            res.bad("t:rest", "the fixed-size encoder does not return exactly the bytes after the first N", where)


def dec_t(res, P, i):
    run = go(P, i)
    e = run.e
    where = short_span(P.I[i].get("span"))
    res.funcs.add(run.name)
    b = run.args[2]
    for s, v in outcomes(res, run):
        ok = is_ok(e, v, s.F)
        if ok is None:
            res.und(run.name, "result")
            continue
        res.n("generic codec classes")
        cs = array_call(s, "unmarshal_array")
        N = the_n()
        if not ok:
            failed = len(cs) == 1 and call_failed(e, s, cs[0])
            if not failed and (N is None or not s.F.le0(b.n - N + 1)):
                res.bad("t:refuse", "the fixed-size decoder can refuse although the buffer is long enough and the value is good", where)
            continue
        if len(cs) != 1 or not is_win(e, s.F, cs[0][2][0], b, ZERO, N):
            res.bad("t:where", "the fixed-size decoder does not read exactly the first N bytes", where)
            continue
        if not is_win(e, s.F, v.f[0], b, N, b.n - N):
            res.bad("t:rest", "the fixed-size decoder does not return exactly the bytes after the first N", where)
        if call_failed(e, s, cs[0]):
            res.bad("t:ignored", "the fixed-size decoder reports success although the value was refused", where)
        got = e.load(s, run.args[0])
        o = cs[0][3]
        if not (isinstance(got, Unk) and got.o == (o, "v", 0, 0)):
            res.bad("t:value", "the fixed-size decoder does not store the decoded value", where)


def call_failed(e, s, ev):
    from .server import ev_ok
    return ev_ok(s.F, ev[3]) is False


def size_t(res, P, i):
    run = go(P, i)
    res.funcs.add(run.name)
    for s, v in outcomes(res, run):
        res.n("stated sizes")
        a = v.single() if isinstance(v, Lin) else None
        if isinstance(v, Lin) and v.const is not None or a is not None and v != L(a):
            res.bad(f"t:{fname(P.I[i])}", "the stated size of a fixed-size type is not its SIZE", short_span(P.I[i].get("span")))
        elif a is None or a.key[0] != "N":
            res.und(run.name, "value")


def copy_t(res, P, i):
    run = go(P, i)
    e = run.e
    res.funcs.add(run.name)
    for s, v in outcomes(res, run):
        res.n("generic codec classes")
        got, src = e.load(s, run.args[1]), e.load(run.st, run.args[0])
        if got != src and not (isinstance(got, Arr) and isinstance(src, Arr) and
                               wire.same(e, s.F, wire.canon(e, got, ZERO, got.n, s.F), wire.canon(e, src, ZERO, src.n, s.F)) is not False):
            res.bad("t:copy", "marshal_array of a byte array does not copy its bytes", short_span(P.I[i].get("span")))
