"""Codec relations: what an encoder writes, what the decoder makes of it, and back."""
from .core import *
from absint.mem import subst, kph


def codecs(P, own=True):
    """type string -> {method: instance} for every Marshalable implementation of this crate"""
    out = {}
    for i, x in enumerate(P.I):
        if (x.get("trait") or "").split("::")[-1] != "Marshalable" or x["crate"] != P.crate or not x.get("body"):
            continue
        if x["short"] in ("try_marshal", "try_unmarshal"):
            d = out.setdefault(x["implself"], {})
            # the generic instance wins over concrete instantiations of it
            if x["short"] not in d or "env" in x and x.get("args") == []:
                d.setdefault(x["short"], i)
    return out


def self_ty(P, inst):
    """type id of Self of a try_marshal instance"""
    return P.T[P.I[inst]["body"]["locals"][1]]["to"]


def buf_ty(P, inst):
    return P.T[P.I[inst]["body"]["locals"][1]]["to"]


def call(e, st, inst, args):
    return e.call_fn(st, inst, list(args), ())


def byte_list(bits):
    return [tuple(bits[i:i + 8]) for i in range(0, len(bits), 8)]


def canon(e, arr, s, end, F):
    """normal form of the bytes [s,end): list of ('b', bits) single bytes and
    ('enc',T,v) / ('unk',o,off,n) / ('star',...) blocks; None when undecidable"""
    out = []
    W = elem_bits(e.P, arr.ety)

    def emit(n, c):
        k = c[0]
        if k == "amb":
            return False
        if k == "enc" and c[1] in contracts.WIDTH:
            w = contracts.WIDTH[c[1]]
            bs = byte_list(lin_bits(c[2] if isinstance(c[2], Lin) else ZERO, 8 * w))
            for b in reversed(bs):
                out.append(("b", b))
            return True
        if k == "v":
            if n.const is None or n.const > len(c[1]):
                return False
            for x in c[1][:n.const]:
                out.append(single(x, W))
            return True
        if k == "rep":
            if n.const is not None and n.const <= 64:
                for _ in range(n.const):
                    out.append(single(c[1], W))
                return True
            out.append(("rep", c[1], n))
            return True
        if k == "copy":
            for (p, m, cc) in e.pieces(c[1], c[2], c[2] + n, F):
                if cc[0] == "copy" and cc[1] is c[1]:
                    return False
                if not emit(m, cc):
                    return False
            return True
        if k == "unk":
            if n.const is not None and n.const <= 16 and e.P.is_int(arr.ety):
                for j in range(n.const):
                    out.append(single(e.mk_unk(arr.ety, ("el", c[1], c[2] + j)), W))
                return True
            out.append(("unk", c[1], c[2], n))
            return True
        if k == "enc" and c[1] == "()":
            return True
        out.append((k,) + tuple(c[1:]) + (n,))
        return True

    for (p, n, c) in e.pieces(arr, s, end, F):
        if F.le0(n):
            continue
        if not emit(n, c):
            return None
    return merge(out, F) if any(x[0] == "unk" for x in out) else out


def elem_bits(P, ety):
    """the width of an integer element, None for other types"""
    return P.int_info(ety)[0] if P.is_int(ety) else None


def single(x, w):
    """one element of an array, an integer of w bits or anything else"""
    if isinstance(x, Lin):
        return ("b", tuple(lin_bits(x, w or 8)))
    if isinstance(x, Unk) and isinstance(x.o, tuple) and x.o[0] == "el":
        return ("unk", x.o[1], x.o[2], K(1))
    return ("x", x)


def merge(out, F):
    """adjacent windows of the same unknown as one"""
    res = []
    for x in [("unk", y[0], y[1], K(1)) if x[0] == "b" and (y := byte_src(x[1])) else x for x in out]:
        if res and x[0] == "unk" and res[-1][0] == "unk" and x[1] == res[-1][1] and F.eq0(res[-1][2] + res[-1][3] - x[2]):
            y = res.pop()
            res.append(("unk", y[1], y[2], y[3] + x[3]))
        else:
            res.append(x)
    return res


def vague(*xs):
    """does something stand for a value a loop was widened to: a difference in it shows nothing"""
    return any("(phi" in (t := repr(x)) or "'phia'" in t or "('phi" in t for x in xs)


def forced(F0, F, upto):
    """does F tell more than F0 about the length of a summarised repetition: the summary does not follow, so
    differences between it and what was done piece by piece show nothing"""
    for a in lin.ATOMS[:upto]:
        if a.key[0] == "k":
            x = L(a)
            if any(F.le0(y) and not F0.le0(y) for y in (ONE - x, x, x - 1)):
                return True
    return False


def same(e, F, a, b):
    """are two normal forms equal under F; None when that cannot be told"""
    if a is None or b is None:
        return None
    if len(a) != len(b):
        if any(x[0] == "unk" for x in a) != any(x[0] == "unk" for x in b):
            a, b = merge(a, F), merge(b, F)
        if len(a) != len(b):
            return None if vague(a, b) else False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] == y[0] == "b" and len(x[1]) == len(y[1]):
            if all(p == q or known(e, F, p) is not None and known(e, F, p) == known(e, F, q) for p, q in zip(x[1], y[1])):
                continue
        elif x[0] == y[0] and len(x) == len(y) and all(eqv(e, F, p, q) for p, q in zip(x[1:], y[1:])):
            continue
        return None if vague(x, y, *bit_atoms(x), *bit_atoms(y)) else False
    return True


def bit_atoms(x):
    return [ATOMS[b[1]] for b in x[1] if not isinstance(b, int) and b[0] == "x"] if x[0] == "b" else []


def known(e, F, b):
    if isinstance(b, int):
        return b
    return e.bit_known(b, F)


def eqv(e, F, p, q):
    if p == q:
        return True
    if isinstance(p, Lin) and isinstance(q, Lin):
        return F.eq0(p - q)
    if isinstance(p, tuple) and isinstance(q, tuple):
        return len(p) == len(q) and all(eqv(e, F, a, b) for a, b in zip(p, q))
    if isinstance(p, V) and isinstance(q, V):
        return same_val(e, F, p, q)
    return False


def same_val(e, F, p, q, d=0):
    if p == q:
        return True
    if d > 12:
        return False
    if isinstance(p, Lin) and isinstance(q, Lin):
        return F.eq0(p - q)
    if isinstance(p, Unk) and isinstance(q, Agg):
        p, q = q, p
    if isinstance(p, Agg) and isinstance(q, Unk) and p.ty == q.ty:
        if p.var is not None and e.is_enum(p.ty):
            if not F.eq0(e.discr(q) - e.discr(p)):
                return False
        q = e.expand(q, p.var)
    if isinstance(p, Agg) and isinstance(q, Agg):
        return p.ty == q.ty and p.var == q.var and all(same_val(e, F, a, b, d + 1) for a, b in zip(p.f, q.f))
    if isinstance(p, Arr) and isinstance(q, Arr):
        return F.eq0(p.n - q.n) and bool(same(e, F, canon(e, p, ZERO, p.n, F), canon(e, q, ZERO, q.n, F)))
    return False


def mk_buf(e, st, name, n=None):
    """an output buffer of unknown contents and unknown (or given) length"""
    o = ("buf", name)
    n = n if n is not None else L(lin.atom(("len", o), 0, (1 << 63) - 1))
    obj = ("ext", o, "out")
    st.mem[obj] = Arr(e.u8, n, ("unk", ("*", o), ZERO))
    return Ref(obj, (), ZERO, n)


def mk_unmarshal(e, st, name, w, bty, moved=False):
    obj = ("ext", ("ub", name), "ub")
    st.mem[obj] = contracts.at_start(e, bty, w, moved)
    return Ref(obj)


def holds_junk(form, names=("buf",)):
    """does a normal form contain original buffer contents"""
    def j(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "*" and isinstance(x[1], tuple) and x[1] and x[1][0] in names:
                return True
            return any(j(y) for y in x)
        return False

    def junk_bit(b):
        if isinstance(b, int):
            return False
        if b[0] == "x":
            return j(ATOMS[b[1]].key)
        return any(junk_bit(z) for z in b[1:] if not isinstance(z, str))
    for x in form:
        if x[0] == "b":
            if any(junk_bit(b) for b in x[1]):
                return True
        elif j(x[1:]):
            return True
    return False


def encode_run(P, inst, inv=True, pin=None):
    """abstract execution of one encoder: unknown value, unknown buffer; pin = (length field, its value)"""
    def setup(e, st, args):
        args[1] = mk_buf(e, st, "enc")
        if pin:
            v = e.load(st, args[0])
            v = e.expand(v) if isinstance(v, Unk) else v
            f = list(v.f)
            f[pin[0]] = K(pin[1])
            e.store(st, args[0], Agg(v.ty, v.var, tuple(f)))
    return Run(P, inst, setup=setup, inv=inv, opts={"unroll": 520} if pin else None)


def pinned(res, P, ts, sized, job):
    """where lists of any length were not decidable, lists of particular short lengths may be: job(res, pin) for each"""
    if not res.undecided or res.findings:
        return
    t0 = time.time()
    for ty, (lf, af, cap) in sized.items():
        if P.T[ty]["s"] != ts or lf != 0:
            continue
        w = P.T[P.T[ty]["variants"][0]["fields"][0]["ty"]]["size"]
        for k in sorted({k for k in (0, 1, 2, 3, 5, min(cap, 8)) if k <= cap}):
            if time.time() - t0 > 20 or res.findings:
                break
            r = Result()
            job(r, (lf, k, w))
            for f in r.findings.values():
                res.bad(f.key, f.msg + f" (with {k} elements)", f.loc)
            res.data += r.data
            res.n("retried with a particular length")


def enc_form(run, s, v):
    """(n, normal form of the n bytes written, buffer array)"""
    e = run.e
    n = v.f[0]
    b = run.args[1]
    arr = e.get(s, b.obj)
    return n, canon(e, arr, ZERO, n, s.F), arr


def roundtrip(res, P, ts, pin=None):
    """encode . decode . encode for one type"""
    c = codecs(P).get(ts, {})
    enc, dec = c.get("try_marshal"), c.get("try_unmarshal")
    if enc is None or dec is None:
        res.und(ts, "encoder or decoder missing")
        return
    where = short_span(P.I[dec].get("span"))
    run = encode_run(P, enc, pin=pin)
    e = run.e
    if run.err:
        res.und(ts, "encoder: " + run.err)
        return
    oks = 0
    bty = buf_ty(P, dec)
    for s, v in run.outs:
        if is_ok(e, v, s.F) is not True:
            continue
        oks += 1
        n, form, arr = enc_form(run, s, v)
        res.n("encoder success classes")
        form0 = form
        if form is None:
            res.und(ts, "layout not decidable")
            continue
        if holds_junk(form):
            res.bad(f"gap:{ts}", f"{run.name}: bytes inside the reported length are not written by the encoder", short_span(run.x.get("span")))
            continue
        st = s.copy()
        upto = len(lin.ATOMS)
        w = Ref(run.args[1].obj, (), ZERO, n)
        ub = mk_unmarshal(e, st, "rt", w, bty)
        try:
            outs = call(e, st, dec, [ub])
        except Unsupported as ex:
            res.und(ts, "decoder: " + str(ex))
            continue
        if not outs:
            res.bad(f"decode:{ts}", f"the decoder of {ts} never returns on bytes its encoder produced", where)
        for s2, v2 in outs:
            ok = is_ok(e, v2, s2.F)
            if ok is not True and (vague(*s2.F.cons) or forced(s.F, s2.F, upto)):
                res.und(ts, "decoder outcome not decidable")
                continue
            if ok is not True:
                res.bad(f"decode:{ts}", f"the decoder of {ts} can reject bytes its encoder produced", where)
                continue
            left = e.load(s2, ub)
            left = contracts.unread(e, s2, left) if isinstance(left, Agg) else None
            if left is not None and not s2.F.eq0(left.n) and (vague(left.n) or forced(s.F, s2.F, upto)):
                res.und(ts, "consumed length not decidable")
                continue
            if left is None or not s2.F.eq0(left.n):
                res.bad(f"consume:{ts}", f"the decoder of {ts} does not consume exactly the bytes its encoder wrote (left {left and left.n})", where)
                continue
            st3 = s2.copy()
            b3 = mk_buf(e, st3, "again", n)
            vo = ("ext", ("val", "again"), "v")
            st3.mem[vo] = v2.f[0]
            try:
                outs3 = call(e, st3, enc, [Ref(vo), b3])
            except Unsupported as ex:
                res.und(ts, "re-encoder: " + str(ex))
                continue
            hit = 0
            for s3, v3 in outs3:
                if is_ok(e, v3, s3.F) is not True:
                    # content-dependent failure of a component was excluded by the first encoding
                    continue
                hit += 1
                f3 = canon(e, e.get(s3, b3.obj), ZERO, v3.f[0], s3.F)
                form = canon(e, arr, ZERO, n, s3.F) or form0
                if f3 is None:
                    res.und(ts, "re-encoded layout not decidable")
                elif not s3.F.eq0(v3.f[0] - n) and vague(v3.f[0], n) or (sm := same(e, s3.F, form, f3)) is None:
                    res.und(ts, "re-encoded layout not comparable")
                elif (not s3.F.eq0(v3.f[0] - n) or not sm) and forced(s.F, s3.F, upto):
                    res.und(ts, "re-encoded pieces not comparable with a repetition")
                elif not s3.F.eq0(v3.f[0] - n) or not sm:
                    res.bad(f"value:{ts}", f"decoding what the encoder of {ts} wrote yields a different value ({diff(form, f3)})", where)
                else:
                    res.n("round trips proved")
            if not hit and forced(s.F, s2.F, upto):
                res.und(ts, "re-encoded pieces not comparable with a repetition")
            elif not hit:
                res.bad(f"value:{ts}", f"decoding what the encoder of {ts} wrote yields a value that cannot be encoded again", where)
    res.n("types")
    if not oks:
        res.bad(f"never:{ts}", f"the encoder of {ts} never succeeds", where)


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"item {i}: {str(x)[:150]} / {str(y)[:150]}"
    return f"{len(a)} / {len(b)} items"


def decode_run(P, inst, pin=None):
    """abstract execution of one decoder on unknown input of unknown length; pin = (_, length it begins with, width)"""
    def setup(e, st, args):
        w = mk_buf(e, st, "in")
        if pin:
            F = st.F.add_le(K(pin[2]) - w.n)
            for j, b in enumerate(pin[1].to_bytes(pin[2], "big")):
                F = F.add_eq(e.arr_read(e.arr_of(st, w), K(j), F) - b)
            st.F = F
        args[0] = mk_unmarshal(e, st, "dec", w, buf_ty(P, inst))
    return Run(P, inst, setup=setup, opts={"inline_leaves": 3, **({"unroll": 520} if pin else {})})


def canonical(res, P, ts, pin=None):
    """decode . encode for one type: the decoder consumes a prefix, leaves the suffix, and the value
    it returns encodes to exactly the consumed bytes"""
    c = codecs(P).get(ts, {})
    enc, dec = c.get("try_marshal"), c.get("try_unmarshal")
    if enc is None or dec is None:
        res.und(ts, "encoder or decoder missing")
        return
    where = short_span(P.I[dec].get("span"))
    run = decode_run(P, dec, pin)
    e = run.e
    if run.err:
        res.und(ts, "decoder: " + run.err)
        return
    res.n("types")
    inb = ("ext", ("buf", "in"), "out")
    total = L(lin.atom(("len", ("buf", "in")), 0, (1 << 63) - 1))
    for s, v in run.outs:
        F = s.F
        ub = e.load(s, run.args[0])
        w = contracts.unread(e, s, ub) if isinstance(ub, Agg) else None
        ok = is_ok(e, v, F)
        if ok is False:
            res.n("decoder failure classes")
            continue
        if ok is None:
            res.und(ts, "outcome not decidable")
            continue
        res.n("decoder success classes")
        if not isinstance(w, Ref) or w.obj != inb or not F.eq0(w.s + w.n - total) or not F.le0(-w.n) or not F.le0(-w.s):
            res.bad(f"suffix:{ts}", f"after decoding {ts} the unread input is not a suffix of the input", where)
            continue
        used = w.s
        s2 = s.copy()
        b = mk_buf(e, s2, "again", used)
        vo = ("ext", ("val", "again"), "v")
        s2.mem[vo] = v.f[0]
        try:
            outs = call(e, s2, enc, [Ref(vo), b])
        except Unsupported as ex:
            res.und(ts, "encoder: " + str(ex))
            continue
        hit = 0
        for s3, v3 in outs:
            if is_ok(e, v3, s3.F) is not True:
                continue
            hit += 1
            a = canon(e, e.get(s3, b.obj), ZERO, v3.f[0], s3.F)
            if a is None:
                res.und(ts, "layout not decidable")
                continue
            ok = same_flat(e, s3.F, a, e.get(s3, inb), used)
            if (ok is False or s3.F.ne0(v3.f[0] - used)) and vague(used, v3.f[0]):
                res.und(ts, "consumed length not decidable")
            elif ok is False or s3.F.ne0(v3.f[0] - used):
                res.bad(f"consumed:{ts}", f"decoding {ts} does not consume each byte of its own encoding once and in order ({a!r:.200})", where)
            elif ok is None:
                res.und(ts, f"consumed bytes of a repetition not compared ({a!r:.200}; used {used!r:.60})")
            else:
                res.n("decodings proved canonical")
        if not hit and vague(used, *s.F.cons):
            res.und(ts, "consumed length not decidable")
        elif not hit:
            res.bad(f"consumed:{ts}", f"a decoded {ts} cannot be encoded into as many bytes as were consumed", where)


def same_flat(e, F, a, inb_arr, used):
    """do the items of a re-encoding spell the input bytes from position 0 on?
    True / False (a definite difference) / None"""
    p = ZERO
    org = inb_arr.base[1]
    for x in a:
        if x[0] == "b":
            y = byte_src(x[1])
            if y is not None and y[0] == org and F.eq0(y[1] - p):
                p = p + 1
                continue
            src = lin_bits(e.mk_unk(e.u8, ("el", org, p)), 8)
            for q, r in zip(x[1], src):
                if q == r:
                    continue
                kq, kr = known(e, F, q), known(e, F, r)
                if kq is None or kr is None or kq != kr:
                    vx, vs = bits_val(e, x[1], F), bits_val(e, src, F)
                    if vx is not None and vs is not None and F.eq0(vx - vs):
                        break
                    y = byte_src(x[1])
                    if y is not None and y[0] == org and not F.eq0(y[1] - p):
                        # another input byte (its position may still coincide if both are unknown)
                        return False if F.ne0(y[1] - p) else None
                    return False if kq is not None and kr is not None else None
            p = p + 1
        elif x[0] == "unk":
            if x[1] != org:
                return None
            if not F.eq0(x[2] - p):
                return False if F.ne0(x[2] - p) else None
            p = p + x[3]
        elif x[0] == "star" and x[1].const:
            d = x[1].const
            k = L(kph_atom())
            at = 0
            for (off, n, c) in x[2]:
                if n.const is None or off.const != at or c[0] != "enc" or c[1] not in contracts.WIDTH or not isinstance(c[2], Lin):
                    return None
                for j, bits in enumerate(reversed(byte_list(lin_bits(c[2], 8 * n.const)))):
                    y = byte_src(bits)
                    if y is None or y[0] != org or not F.eq0(y[1] - k.scale(d) - p - at - j):
                        return None
                at += n.const
            if at != d:
                return None
            p = p + x[-1]
        else:
            return None
    return True if F.eq0(p - used) else None


def kph_atom():
    from absint.mem import kph
    return kph()


def bits_val(e, bits, F):
    try:
        return e.bits_to_int(list(bits), e.u8, F)
    except Exception:
        return None


def chain(res, ts, e, s, where, inb):
    """decode events take consecutive windows of the input"""
    def walk(evs, pos, F):
        for ev in evs:
            if ev[0] == "star":
                for body, b in ev[1].bodies:
                    walk(body, None, b.F)
                pos = None
            elif ev[0] == "DEC":
                w, n = ev[3], ev[4]
                if w.obj != inb:
                    continue
                if pos is not None and F.ne0(w.s - pos):
                    res.bad(f"order:{ts}", f"decoding {ts} reads {ev[1]} at {w.s!r:.60} although the previous item ended at {pos!r:.60}", where)
                    return
                pos = w.s + n
    walk(s.events(), ZERO, s.F)


def byte_src(bits):
    """(origin, offset) if the bits are exactly one unknown input byte (or wider integer)"""
    b = bits[0]
    if isinstance(b, int) or b[0] != "x" or any(bits[k] != ("x", b[1], k) for k in range(len(bits))):
        return None
    k = ATOMS[b[1]].key
    if ATOMS[b[1]].hi >= 1 << len(bits):
        return None  # a part of a wider one
    if k[0] == "u" and isinstance(k[1], tuple) and k[1][0] == "el":
        return k[1][1], k[1][2]
    return None


# ------------------------------------------------------------------ layouts as text
def int_newtypes(P):
    """type string -> wire width for transparent wrappers of one integer"""
    out = {}
    for t in P.T:
        if t["k"] == "adt" and t["ak"] == "struct" and t["variants"] and len(t["variants"][0]["fields"]) == 1:
            f = P.T[t["variants"][0]["fields"][0]["ty"]]
            if f.get("s") in contracts.WIDTH:
                out[t["s"]] = f["s"]
    return out


def prim(P, ts):
    w = int_newtypes(P).get(ts, ts) if ts not in contracts.WIDTH else ts
    if w in contracts.WIDTH:
        return f"u{8 * contracts.WIDTH[w]}"
    return ts


def opath(P, ty, o):
    """(name path, type) of an origin below the encoded value; None when it is something else"""
    root = ("*", ("arg", 0))
    if o == root:
        return "", ty
    if isinstance(o, tuple) and len(o) == 3 and o[0] == "el":
        r = opath(P, ty, o[1])
        if r is None:
            return None
        # the k-th element in the k-th round, a fixed one, or something else
        i = o[2]
        t = str(i.const) if i.const is not None else "" if (a := i.single()) is not None and a.id == kph().id else f"?{i!r:.40}"
        return r[0] + f"[{t}]", P.T[r[1]].get("e")
    if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], int):
        r = opath(P, ty, o[0])
        if r is None:
            return None
        fs = P.T[r[1]]["variants"][0]["fields"]
        f = fs[o[1]]
        nm = (f["name"] if len(fs) > 1 or not f["name"].isdigit() else "") if f["pub"] else ""
        return (r[0] + "." + nm if r[0] and nm else r[0] or nm), f["ty"]
    if isinstance(o, tuple) and len(o) == 4 and o[1] == "v":
        r = opath(P, ty, o[0])
        if r is None:
            return None
        v = P.T[r[1]]["variants"][o[2]]
        f = v["fields"][o[3]]
        nm = v["name"] + (f".{o[3]}" if len(v["fields"]) > 1 else "")
        return (r[0] + "." + nm if r[0] else nm), f["ty"]
    return None


def lin_text(P, ty, x, F, e):
    """text of an integer expression over the encoded value"""
    if x.const is not None:
        return f"={x.const:#x}"
    k = x.single()
    if k is not None:
        key = k.key
        if key[0] == "u":
            r = opath(P, ty, key[1])
            if r is not None:
                return r[0] or "_"
        if key[0] == "d":
            c = const_of(F, x)
            if c is not None:
                return f"={c:#x}"
    c = const_of(F, x)
    if c is not None:
        return f"={c:#x}"
    return "?"


def const_of(F, x):
    """the constant F forces x to have"""
    for c in {F.lo(x), F.hi(x)}:
        if c is not None and c == int(c) and F.eq0(x - int(c)):
            return int(c)
    return None


def grammar(P, ts, enc):
    """sorted texts, one per success class of the encoder; None when undecidable"""
    run = encode_run(P, enc)
    if run.err:
        return None, run.err
    e = run.e
    ty = self_ty(P, enc)
    out = set()
    for s, v in run.outs:
        if is_ok(e, v, s.F) is not True:
            continue
        arr = e.get(s, run.args[1].obj)
        ps = join_bytes(e.pieces(arr, ZERO, v.f[0], s.F))
        xs = [c[2] for _, _, c in ps if c[0] == "enc" and isinstance(c[2], Lin)]
        xs += [L(ATOMS[b[1]]) for _, _, c in ps if c[0] == "v" for x in c[1] if isinstance(x, Lin)
               for b in lin_bits(x, 8) if not isinstance(b, int) and b[0] == "x"]
        for F in split_disc(e, s.F, list(dict.fromkeys(xs))):
            items = []
            for p, m, c in ps:
                if F.le0(m):
                    continue
                t = item_text(P, ty, e, F, m, c)
                if t is None:
                    return None, f"piece {c!r:.100}"
                items += t
            out.add(" ".join(items))
    # a class with an empty list is an instance of the general one
    for x in list(out):
        y = " ".join(w for w in re.sub(r"\([^()]*\)\*<=\S+", "", x).split() if ":bytes<=" not in w)
        if y != x and y in out:
            out.discard(y)
    return sorted(out), None


def join_bytes(ps):
    """adjacent runs of single bytes as one run"""
    out = []
    for p, m, c in ps:
        if c[0] == "v" and m.const is not None:
            c = ("v", tuple(c[1][:m.const]))
            if out and out[-1][2][0] == "v" and out[-1][1].const == len(out[-1][2][1]):
                q, k, d = out.pop()
                out.append((q, k + m, ("v", d[1] + c[1])))
                continue
        out.append((p, m, c))
    return out


def whole_int(P, ty, e, F, xs, w):
    """text of the integer field whose big-endian bytes the first w elements are, else None"""
    xs = xs[:w]
    if len(xs) < w or not all(isinstance(x, Lin) for x in xs) or all(x.const is not None for x in xs):
        return None
    bits = []
    tot = ZERO
    for x in reversed(xs):
        bits += lin_bits(x, 8)
    for x in xs:
        tot = tot.scale(256) + x
    for v in (bits_lin(bits), tot):
        k = v.single()
        if k is None or k.key[0] != "u":
            continue
        r = opath(P, ty, k.key[1])
        if r is not None and P.T[r[1]]["s"] in (f"u{8 * w}", f"i{8 * w}"):
            return f"{r[0] or '_'}:u{8 * w}"
    return None


def spell(text):
    """constants and byte arrays spelled byte by byte: how they were written does not matter"""
    text = re.sub(r"(\S+):bytes(\d+)(?!\S)", lambda m: " ".join(f"{m.group(1)}[{j}]:u8" for j in range(int(m.group(2)))) if int(m.group(2)) <= 64 else m.group(0), text)
    def f(m):
        v, w = int(m.group(1), 16), int(m.group(2)) // 8
        return " ".join(f"={b:#x}:u8" for b in (v % (1 << 8 * w)).to_bytes(w, "big"))
    return re.sub(r"(?<!\S)=(0x[0-9a-f]+):u(\d+)(?!\S)", f, text)


def split_disc(e, F, xs):
    """refine F so that every discriminant among xs is a constant"""
    out = [F]
    for x in xs:
        k = x.single()
        if k is None or k.key[0] != "d" or const_of(F, x) is not None:
            continue
        vals = [v["discr"] for v in e.T[k.key[1]]["variants"]]
        out = [g for f in out for g in (f.add_eq(x - d) for d in vals if not f.ne0(x - d)) if g is not None]
    return out


def item_text(P, ty, e, F, m, c):
    k = c[0]
    if k == "enc":
        if c[1] in contracts.WIDTH:
            return [f"{lin_text(P, ty, c[2], F, e)}:u{8 * contracts.WIDTH[c[1]]}"]
        o = c[2].o if isinstance(c[2], Unk) else None
        r = opath(P, ty, o) if o is not None else None
        if isinstance(c[2], Agg) and not c[2].f and not e.is_enum(c[2].ty):
            return []
        if r is None:
            if isinstance(c[2], Agg) and prim(P, c[1]) != c[1] and isinstance(c[2].f[0], Lin):
                return [f"{lin_text(P, ty, c[2].f[0], F, e)}:{prim(P, c[1])}"]
            return None
        return [f"{r[0] or '_'}:{prim(P, c[1])}"]
    if k == "unk":
        r = opath(P, ty, c[1])
        if r is None or not F.eq0(c[2]):
            return None
        if m.const is not None:
            return [f"{r[0] or '_'}:bytes{m.const}"]
        cap = e.arr_len(e.T[r[1]]).const if e.T[r[1]]["k"] == "array" else None
        return [f"{r[0] or '_'}:bytes<={cap}"]
    if k == "v":
        out = []
        xs = list(c[1][:m.const])
        while xs:
            for w in (8, 4, 2, 1):
                if w == 1 or whole_int(P, ty, e, F, xs, w):
                    break
            if w == 1:
                out.append(f"{lin_text(P, ty, xs[0], F, e)}:u8")
            else:
                out.append(whole_int(P, ty, e, F, xs, w))
            xs = xs[w:]
        return out
    if k == "star":
        sub = []
        for (off, n, cc) in c[2]:
            t = item_text(P, ty, e, F, n, cc)
            if t is None:
                return None
            sub += t
        cap = None
        if len(c[2]) == 1 and c[2][0][2][0] == "enc":
            v = c[2][0][2][2]
            o = v.o if isinstance(v, Unk) else v.single().key[1] if isinstance(v, Lin) and v.single() is not None and v.single().key[0] == "u" else None
            if isinstance(o, tuple) and o[0] == "el":
                r = opath(P, ty, o[1])
                if r is not None and e.T[r[1]]["k"] == "array":
                    cap = e.arr_len(e.T[r[1]]).const
        if len(sub) == 1 and sub[0].endswith("[]:u8"):
            return [f"{sub[0][:-5] or '_'}:bytes<={cap}"]
        return ["(" + " ".join(sub) + f")*<={cap}"]
    return None
