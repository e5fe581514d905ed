"""C01-C09: the codecs of all crates and of every type the derive macros generate."""
import time

from absint.models import slice_ref

from . import wire
from .core import *

FOUND = ("tpm2", "tpm2_rs_marshalable", "tpm2_rs_base", "vp_probe")
CODEC = ("tpm2_rs_marshalable", "tpm2_rs_base", "tpm2_client", "vp_probe")
ENC = ("try_marshal", "try_marshal_variant", "marshal", "marshal_array")
ASSUME = [
    "lengths of caller buffers are at most isize::MAX, as Rust guarantees",
    "rustc's MIR construction, type checking and constant evaluation are correct",
    "core library functions behave as documented (modelled in absint/models.py)",
]


def pub_roots(P):
    return [i for i in P.roots if P.I[i].get("pub") and P.I[i].get("body")]


def fname(x):
    return x.get("short") or x["name"].split("::")[-1]


def is_dbg(x):
    return (x.get("trait") or "").split("::")[-1] in ("Debug", "Display", "Hash")


def scan(c, i, want):
    """one abstract execution from a public root; want: which obligations to report"""
    res = Result()
    P = prog(c)
    run = Run(P, i)
    res.n("public functions analysed")
    res.funcs.add(run.name)
    if run.err:
        res.und(run.name, run.err)
    if "panic" in want:
        report_panics(res, run)
    if "lossy" in want:
        for (fn, a, b), occ in run.e.narrowings().items():
            res.bad(f"lossy:{fn}:{a}->{b}", f"{fn} narrows {a} to {b} where the value can change (reached from {run.name})",
                    short_span(occ[0][0]))
    if "inv" in want:
        def bad(ty, j, f, mx):
            n = P.T[ty]["s"]
            res.bad(f"inv:{n}:{run.name}", f"{run.name} can produce a {n} whose recorded length {f!r:.80} exceeds its capacity {mx}",
                    short_span(run.x.get("span")))
        for s, v in run.outs:
            if any(t.startswith("opaque") for t in s.taint):
                continue
            check_inv_value(run.e, s, v, bad)
            for val in s.mem.values():
                check_inv_value(run.e, s, val, bad)
        for k in run.e.inv_viol:
            res.bad(f"inv:{k}", f"a record is built with a length above its capacity: {k}", "")
        res.n("length invariants checked", run.e.inv_ok)
    for s, v in run.outs:
        res.n("outcome classes")
    return res


def enc_bounds(c, i):
    """an encoder's reported count never exceeds the buffer"""
    res = Result()
    P = prog(c)
    bounds(res, P, i)
    for ts, cs in wire.codecs(P).items():
        if cs.get("try_marshal") == i:
            wire.pinned(res, P, ts, sized(P), lambda r, pin: bounds(r, P, i, pin))
    return res


def bounds(res, P, i, pin=None):
    run = wire.encode_run(P, i, pin=pin)
    res.n("encoders analysed")
    res.funcs.add(run.name)
    report_panics(res, run)
    if run.err:
        res.und(run.name, run.err)
        return res
    b = run.args[1]
    for s, v in run.outs:
        if is_ok(run.e, v, s.F) is not True:
            continue
        n = v.f[0]
        res.n("success classes")
        if any(t.startswith("opaque") for t in s.taint):
            res.und(run.name, s.taint[0])
            continue
        if not s.F.le0(n - b.n):
            res.bad(f"overrun:{run.name}", f"{run.name} can report {n!r:.80} bytes for a buffer shorter than that", short_span(run.x.get("span")))
            continue
        if (n - b.n).const is not None and s.F.lo(b.n) != s.F.hi(b.n):
            # as many bytes as the buffer happens to hold, for several lengths of it
            ids = {a for a, _ in b.n.t}
            others = [a for a, l in s.F.equalities().items() if a in ids or {x for x, _ in l.t} & ids]
            if not others:
                res.bad(f"cut:{run.name}", f"{run.name} reports as many bytes as the buffer has room for: a short buffer is a partial success", short_span(run.x.get("span")))
                continue
        form = wire.canon(run.e, run.e.get(s, b.obj), ZERO, n, s.F)
        if form is None:
            res.und(run.name, "written bytes not decidable")
        elif wire.holds_junk(form):
            res.bad(f"partial:{run.name}", f"{run.name} reports success without having written all the bytes it counts", short_span(run.x.get("span")))
        # nothing behind the reported bytes is touched
        e, a0 = run.e, run.e.get(run.st, b.obj)
        for st_, ln_, c_ in e.pieces(e.get(s, b.obj), n, b.n, s.F):
            old = e.pieces(a0, st_, st_ + ln_, s.F)
            if c_[0] == "amb" or len(old) != 1 or c_ != old[0][2] and wire.vague(n, c_):
                res.und(run.name, "bytes behind the encoding not decidable")
            elif c_ != old[0][2] and not s.F.le0(ln_):
                res.bad(f"beyond:{run.name}", f"{run.name} changes buffer bytes behind those it reports", short_span(run.x.get("span")))
            else:
                res.n("untouched remainders")
    return res


def C01(res, tier):
    jobs = []
    for c in FOUND:
        P = prog(c)
        for i in pub_roots(P):
            x = P.I[i]
            if fname(x) in ENC or "client_" in x["name"] or "server_" in x["name"]:
                continue
            jobs.append((scan, (c, i, ("panic",))))
    P = prog("tpm2_client")
    for i in pub_roots(P):
        if (P.I[i].get("trait") or "").endswith("Marshalable") and fname(P.I[i]) == "try_unmarshal":
            jobs.append((scan, ("tpm2_client", i, ("panic",))))
    parallel(jobs, res)
    return {
        "rule": "abstract interpretation of every public function other than encoders (all decoders, constructors and accessors, "
                "for unknown inputs of unknown length, component decoders replaced by the trait contract): no path to an "
                "overflow check, bounds check, slice-length check, unwrap/expect or explicit panic is feasible",
        "assumptions": ASSUME,
        "floors": {"public functions analysed": 300},
    }


def C02(res, tier):
    jobs = []
    for c in FOUND + ("tpm2_client",):
        P = prog(c)
        for i in pub_roots(P):
            x = P.I[i]
            if fname(x) in ("try_marshal", "try_marshal_variant"):
                jobs.append((enc_bounds, (c, i)))
            elif fname(x) in ENC:
                jobs.append((scan, (c, i, ("panic",))))
    parallel(jobs, res)
    return {
        "rule": "abstract interpretation of every encoder on an unknown value and a buffer of unknown length: no feasible panic; "
                "every Ok(n) outcome has n <= buffer length, all n bytes written and the bytes behind them as before",
        "assumptions": ASSUME,
        "floors": {"encoders analysed": 150},
    }


def _rt(c, ts):
    res = Result()
    P = prog(c)
    wire.roundtrip(res, P, ts)
    wire.pinned(res, P, ts, sized(P), lambda r, pin: wire.roundtrip(r, P, ts, pin))
    return res


def _wrap(c, ts):
    """wrapping a structure into its TPM2B and unwrapping it again"""
    res = Result()
    P = prog(c)
    m = {P.I[i]["short"]: i for i in pub_roots(P) if (P.I[i].get("trait") or "").endswith("Tpm2bStruct") and P.I[i]["implself"] == ts}
    if len(m) < 2:
        return res
    where = short_span(P.I[m["from_struct"]].get("span"))
    run = Run(P, m["from_struct"])
    e = run.e
    if run.err:
        res.und(ts, run.err)
        return res
    src = e.load(run.st, e.as_ref(run.args[0], None))
    res.n("wrapper types")
    for s, v in run.outs:
        if is_ok(e, v, s.F) is not True:
            if not any(x[0] == "ENCERR" for x in s.events()) and is_ok(e, v, s.F) is False and not any(x[0] == "ENC" for x in s.events()):
                res.bad(f"wrap:{ts}", f"wrapping into {ts} can fail without the structure's encoding failing", where)
            continue
        st = s.copy()
        o = ("ext", ("val", "wrapped"), "v")
        st.mem[o] = v.f[0]
        try:
            outs = wire.call(e, st, m["to_struct"], [Ref(o)])
        except Unsupported as ex:
            res.und(ts, str(ex))
            continue
        for s2, v2 in outs:
            ok = is_ok(e, v2, s2.F)
            if ok is not True:
                res.bad(f"unwrap:{ts}", f"unwrapping what was wrapped into {ts} can fail", where)
            elif not wire.same_val(e, s2.F, v2.f[0], src):
                res.bad(f"unwrap:{ts}", f"unwrapping {ts} yields a different structure than was wrapped", where)
            else:
                res.n("wrap/unwrap proved")
    return res


def C03(res, tier):
    jobs = [(_rt, (c, ts)) for c in CODEC for ts in wire.codecs(prog(c))]
    jobs += [(_wrap, (c, ts)) for c in CODEC for ts in wire.codecs(prog(c))]
    parallel(jobs, res)
    return {
        "rule": "for every Marshalable type the encoder is interpreted on an unknown value; the decoder is then interpreted on "
                "the resulting symbolic byte layout: it must succeed, consume exactly the reported count, and the decoded value "
                "must encode to the identical layout",
        "assumptions": ASSUME,
        "floors": {"types": 140, "round trips proved": 200},
    }


def _unwrap(c, i):
    """unwrapping decodes from exactly the recorded bytes of the sized buffer"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    ty = P.T[x["body"]["locals"][1]]["to"]
    S = sized(P)
    if ty not in S:
        return res
    ln, ar = S[ty][0], S[ty][1]
    seen = []

    def hook(e, st, fr, f, args, atys, dty):
        m = contracts.is_marsh(e, f)
        if m is None or m[0] != "try_unmarshal":
            return None
        try:
            ub = e.load(st, e.as_ref(args[-1], None))
            w = contracts.unread(e, st, ub)
        except Unsupported:
            w = None
        if not st.events():
            seen.append((st.F, w))
        return None

    run = Run(P, i, hooks=(hook, contracts.marshal_hook))
    e = run.e
    res.funcs.add(run.name)
    where = short_span(x.get("span"))
    if run.err:
        res.und(run.name, run.err)
        return res
    me = e.as_ref(run.args[0], None)
    v = e.load(run.st, me)
    v = e.expand(v) if isinstance(v, Unk) else v
    n = v.f[ln]
    for F, w in seen:
        res.n("unwrappings")
        if not isinstance(w, Ref) or w.s is None or w.obj != me.obj:
            res.und(run.name, "decoded bytes not resolved")
        elif not (w.path == me.path + (("f", ar),) and F.eq0(w.s) and F.eq0(w.n - n)):
            res.bad(f"unwrap:{run.name}", f"{run.name} decodes from other bytes than the recorded length's worth of leading ones", where)
    return res


# ------------------------------------------------------------------ C04
def _gram(c, ts):
    res = Result()
    P = prog(c)
    d = wire.codecs(P)[ts]
    want = oracle("probe_layouts.json" if c == "vp_probe" else "layouts.json").get(ts)
    res.n("types")
    where = short_span(P.I[d["try_marshal"]].get("span")) if "try_marshal" in d else ""
    if "try_marshal" not in d:
        return res
    got, why = wire.grammar(P, ts, d["try_marshal"])
    if got is None:
        res.und(ts, why)
        return res
    res.n("layout classes", len(got))
    if want is None:
        res.n("types without a specified layout")
        return res
    res.n("types compared with the specification")
    if any("<=*" in x for x in want):
        # the size of an in-memory record: not part of the specification
        got = [re.sub(r"<=\d+", "<=*", x) for x in got]
    got, want = [wire.spell(x) for x in got], [wire.spell(x) for x in want]
    for x in sorted(set(got) - set(want)):
        res.bad(f"layout:{ts}", f"{ts} is encoded as [{x}], the specification has {[w for w in want if w not in got][:3]}", where)
    for x in sorted(set(want) - set(got)):
        res.bad(f"layout:{ts}", f"{ts} is never encoded as [{x}], which the specification defines", where)
    return res


def oracle(name):
    import json
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", name)) as f:
        return json.load(f)


def C04(res, tier):
    jobs = [(_gram, (c, ts)) for c in ("tpm2_rs_base", "tpm2_client", "vp_probe") for ts in wire.codecs(prog(c))]
    parallel(jobs, res)
    return {
        "rule": "the symbolic byte layout of every success class of every encoder (member order, widths, selector values and "
                "position, list and buffer capacities) equals the layout transcribed from TPM 2.0 Part 2 in oracle/layouts.json; "
                "for the witness types of every shape the derive macro supports, members in declaration order",
        "assumptions": ASSUME + ["oracle/layouts.json transcribes Part 2 correctly", "decoders agree with encoders (C03)"],
        "floors": {"types compared with the specification": 100},
    }


# ------------------------------------------------------------------ C05
def variants(P, ty):
    """{variant index: (name, discriminant)}"""
    return {i: (v["name"], v["discr"]) for i, v in enumerate(P.T[ty]["variants"])}


def _union(c, i):
    res = Result()
    P = prog(c)
    x = P.I[i]
    b = x["body"]
    okty = [f["ty"] for f in P.T[b["locals"][0]]["variants"][0]["fields"]][0]
    ts = P.T[okty]["s"]
    where = short_span(x.get("span"))

    def setup(e, st, args):
        w = wire.mk_buf(e, st, "in")
        args[1] = wire.mk_unmarshal(e, st, "dec", w, P.T[b["locals"][2]]["to"])
    run = Run(P, i, setup=setup)
    res.n("unions")
    res.funcs.add(run.name)
    if run.err:
        res.und(run.name, run.err)
        return res
    e = run.e
    sel = run.args[0]
    bits = 8 * contracts.WIDTH[P.T[b["locals"][1]]["s"]]
    vs = {k: (n, d & ((1 << bits) - 1)) for k, (n, d) in variants(P, okty).items()}
    hit = set()
    for s, v in run.outs:
        if any(t.startswith("opaque") for t in s.taint):
            res.und(run.name, s.taint[0])
            continue
        ok = is_ok(e, v, s.F)
        evs = s.events()
        if ok is True:
            u = v.f[0]
            k = u.var if isinstance(u, Agg) else None
            if k is None:
                res.und(run.name, "variant not decidable")
                continue
            hit.add(k)
            res.n("variant outcomes")
            if not s.F.eq0(sel - vs[k][1]):
                res.bad(f"select:{ts}", f"decoding {ts} yields variant {vs[k][0]} for a selector other than {vs[k][1]:#x}", where)
        elif ok is False:
            failed = any(ev[0] == "DECERR" for ev in evs)
            res.n("refusals")
            if failed:
                continue
            er = v.f[0]
            d = er.var if isinstance(er, Agg) else None
            # refusal without a failed component: only for selectors of no variant, with the right error
            could = [n for k, (n, dd) in vs.items() if s.F.add_eq(sel - dd) is not None and not s.F.ne0(sel - dd)]
            if could and not reads_short(e, s, run):
                res.bad(f"refuse:{ts}", f"decoding {ts} refuses the selector of variant {could[0]}", where)
            elif not could and d is not None and P.T[er.ty]["variants"][d]["name"] != "UnknownSelector":
                res.bad(f"error:{ts}", f"an unknown selector of {ts} is refused with {P.T[er.ty]['variants'][d]['name']}", where)
    for k, (n, d) in vs.items():
        if k not in hit and run.outs:
            res.bad(f"lost:{ts}:{n}", f"decoding {ts} never yields variant {n} ({d:#x})", where)
    return res


def reads_short(e, s, run):
    """was this refusal caused by too little input"""
    b = e.load(s, run.args[1])
    return False


def _unioncode(c, ts):
    """encoders write the selector of the variant held; whole-union decoders agree"""
    res = Result()
    P = prog(c)
    d = wire.codecs(P)[ts]
    ty = wire.self_ty(P, d["try_marshal"])
    if P.T[ty]["k"] != "adt" or P.T[ty]["ak"] != "enum":
        return res
    vs = variants(P, ty)
    run = wire.encode_run(P, d["try_marshal"])
    where = short_span(run.x.get("span"))
    e = run.e
    if run.err:
        res.und(ts, run.err)
        return res
    self_v = e.load(run.st, e.as_ref(run.args[0], None))
    disc = e.discr(self_v) if isinstance(self_v, Unk) else None
    for s, v in run.outs:
        if is_ok(e, v, s.F) is not True:
            continue
        arr = e.get(s, run.args[1].obj)
        ps = e.pieces(arr, ZERO, v.f[0], s.F)
        p = ps[0]
        if p[2][0] != "enc" or p[2][1] not in contracts.WIDTH:
            res.und(ts, "first item is not an integer")
            continue
        for F in wire.split_disc(e, s.F, [disc] if disc is not None else []):
            res.n("encoded selectors")
            k = [i for i, (n, dd) in vs.items() if disc is not None and F.eq0(disc - dd)]
            got = wire.const_of(F, p[2][2])
            w = 8 * contracts.WIDTH[p[2][1]]
            if len(k) == 1 and (got is None or got & ((1 << w) - 1) != vs[k[0]][1] & ((1 << w) - 1)):
                res.bad(f"tag:{ts}:{vs[k[0]][0]}", f"encoding {ts} with variant {vs[k[0]][0]} writes selector "
                        f"{got if got is None else hex(got)}, not {vs[k[0]][1]:#x}", where)
    dec = d.get("try_unmarshal")
    run = wire.decode_run(P, dec)
    e = run.e
    if run.err:
        res.und(ts, run.err)
        return res
    inb = ("ext", ("buf", "in"), "out")
    for s, v in run.outs:
        ok = is_ok(e, v, s.F)
        if ok is not True:
            continue
        u = v.f[0]
        if not isinstance(u, Agg):
            res.und(ts, "variant not decidable")
            continue
        rd = [ev for ev in s.events() if ev[0] == "DEC"]
        if not rd or rd[0][1] not in contracts.WIDTH:
            res.und(ts, "selector read not visible")
            continue
        res.n("decoded selectors")
        w = 8 * contracts.WIDTH[rd[0][1]]
        want = vs[u.var][1] & ((1 << w) - 1)
        if not s.F.eq0(rd[0][2] - want):
            res.bad(f"select:{ts}", f"decoding {ts} yields variant {vs[u.var][0]} although the selector read need not be {want:#x}", short_span(run.x.get("span")))
    return res


def C05(res, tier):
    jobs = []
    for c in CODEC:
        P = prog(c)
        for i in pub_roots(P):
            if (P.I[i].get("trait") or "").endswith("MarshalableVariant") and fname(P.I[i]) == "try_unmarshal_variant":
                jobs.append((_union, (c, i)))
        jobs += [(_unioncode, (c, ts)) for ts in wire.codecs(P)]
    parallel(jobs, res)
    return {
        "rule": "every outcome of every union decoder, for an unknown selector and unknown input: a value implies selector == "
                "discriminant of its variant, a refusal without component failure implies the selector matches no variant and is the "
                "unknown-selector error; encoders write the discriminant of the variant held",
        "assumptions": ASSUME,
        "floors": {"unions": 15, "variant outcomes": 70},
    }


# ------------------------------------------------------------------ C06 / C07
def sized(P):
    """type id -> (length field, array field, capacity) of records that hold a length and an array,
    whoever may see the fields"""
    out = {}
    for i, t in enumerate(P.T):
        if t["k"] != "adt" or t["ak"] != "struct" or not t["variants"] or "::" in t["path"] and t["path"].split("::")[0] in ("core", "std", "alloc"):
            continue
        f = t["variants"][0]["fields"]
        for j in range(len(f) - 1):
            a = P.T[f[j + 1]["ty"]]
            if P.is_int(f[j]["ty"]) and a["k"] == "array" and "v" in a["n"] and ((i, j) in P.inv or re.search(r"count|size|len", f[j]["name"])):
                out[i] = (j, j + 1, a["n"]["v"])
    return out


def _accessor(c, i):
    """a slice or count handed out by a sized record is its leading part"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    b = x["body"]
    S = sized(P)
    st_ = P.T[b["locals"][1]]
    ty = st_["to"] if st_["k"] == "ref" else b["locals"][1]
    lf, af, cap = S[ty]
    run = Run(P, i)
    e = run.e
    where = short_span(x.get("span"))
    res.funcs.add(run.name)
    report_panics(res, run)
    if run.err:
        res.und(run.name, run.err)
        return res
    ret = P.T[b["locals"][0]]
    self_ref = run.args[0]
    for s, v in run.outs:
        if any(t.startswith("opaque") for t in s.taint):
            res.und(run.name, s.taint[0])
            continue
        me = e.load(s, e.as_ref(self_ref, None)) if st_["k"] == "ref" else self_ref
        me = e.expand(me) if isinstance(me, Unk) else me
        ln = me.f[lf]
        res.n("accessor outcomes")
        if isinstance(v, Lin):
            if not s.F.eq0(v - ln):
                res.bad(f"count:{run.name}", f"{run.name} does not return the recorded length", where)
            continue
        if not isinstance(v, Ref) or v.s is None:
            res.und(run.name, f"returned view not decidable: {v!r:.60}")
            continue
        arr = e.arr_of(s, Ref(v.obj, v.path, ZERO, v.n + v.s)) if False else None
        # min(length, capacity) elements from the front of the array
        want_ok = s.F.eq0(v.n - ln) or s.F.eq0(v.n - cap) and s.F.le0(K(cap) - ln)
        inside = v.path and v.path[-1] == af or ("f", af) in tuple(v.path) or str(af) in str(v.path)
        if not s.F.eq0(v.s) or not want_ok:
            res.bad(f"view:{run.name}", f"{run.name} does not return exactly the leading elements its length records "
                    f"(from {v.s!r:.40}, {v.n!r:.60} elements)", where)
        elif not inside:
            res.und(run.name, f"view into {v.path}")
    return res


def _decoded(c, i):
    """whatever a decoder or constructor returns has length <= capacity, public fields included"""
    res = Result()
    P = prog(c)
    run = Run(P, i)
    e = run.e
    res.funcs.add(run.name)
    if run.err:
        res.und(run.name, run.err)
        return res
    S = sized(P)
    e.inv = {(t, lf): cap for t, (lf, af, cap) in S.items()}

    def bad(ty, j, f, mx):
        n = P.T[ty]["s"]
        res.bad(f"inv:{n}:{run.name}", f"{run.name} can produce a {n} whose recorded length exceeds its capacity {mx}", short_span(run.x.get("span")))
    for s, v in run.outs:
        if any(t.startswith("opaque") for t in s.taint):
            continue
        if is_res(e, run.ret_ty()) and is_ok(e, v, s.F) is False:
            continue
        res.n("produced values")
        check_inv_value(e, s, v, bad)
    return res


def C06(res, tier):
    jobs = []
    for c in FOUND + ("tpm2_client",):
        P = prog(c)
        S = sized(P)
        for i in pub_roots(P):
            x = P.I[i]
            b = x["body"]
            L_ = b["locals"]
            tr = (x.get("trait") or "").split("::")[-1]
            if c != "tpm2_client" and not is_dbg(x) and "client_" not in x["name"] and "server_" not in x["name"]:
                jobs.append((scan, (c, i, ("inv",))))
            if fname(x) in ("try_unmarshal", "new", "from_bytes", "default", "from_struct"):
                jobs.append((_decoded, (c, i)))
            if fname(x) == "to_struct" and tr == "Tpm2bStruct":
                jobs.append((_unwrap, (c, i)))
            if b["argc"] == 1 and tr not in ("Clone", "Hash", "Debug") and P.T[L_[1]]["k"] == "ref" and P.T[L_[1]]["to"] in S:
                r = P.T[L_[0]]
                ety = P.T[P.T[L_[1]]["to"]]["variants"][0]["fields"][S[P.T[L_[1]]["to"]][1]]["ty"]
                if r["k"] == "ref" and P.T[r["to"]]["k"] == "slice" or r.get("s") in ("usize", "u16", "u32") and fname(x) in ("get_size", "count", "len", "size"):
                    jobs.append((_accessor, (c, i)))
    parallel(jobs, res)
    return {
        "rule": "for every public function of the type and codec crates, assuming all incoming sized records satisfy length <= capacity: "
                "every outcome, including mutated arguments, satisfies it again (inductive type invariant; private fields make it global); "
                "every slice accessor returns elements [0..length) of the record's array and every count accessor the length",
        "assumptions": ASSUME,
        "floors": {"accessor outcomes": 60, "length invariants checked": 100, "produced values": 200},
    }


# ------------------------------------------------------------------ C10: one representation per content
def plain(e, v, F):
    """a type-independent form of a constant value, None if it is not constant"""
    if isinstance(v, Lin):
        return v.const
    if isinstance(v, bool):
        return v
    if isinstance(v, Agg):
        f = tuple(plain(e, x, F) for x in v.f)
        return None if None in f else ("agg", v.var, f)
    if isinstance(v, Arr):
        out = []
        for st, ln, c in e.pieces(v, ZERO, v.n, F):
            p = plain_content(e, c, F)
            if p is None:
                return None
            if not out or out[-1] != p:
                out.append(p)
        return ("arr", tuple(out))
    return None


def plain_content(e, c, F):
    """the single constant every element of a piece has, None if there is none"""
    if c[0] == "rep":
        return plain(e, c[1], F)
    if c[0] == "v":
        xs = {plain(e, x, F) for x in c[1]}
        return xs.pop() if len(xs) == 1 else None
    return None


def records(e, v, S, depth=0):
    """the sized records inside a value"""
    if depth > 8:
        return
    if isinstance(v, Agg):
        if v.ty in S:
            yield v
            return
        for f in v.f:
            yield from records(e, f, S, depth + 1)


def _tails(c, i):
    """what a producer or mutator leaves behind the recorded length; (type, content) pairs travel in res.data"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    tails(res, P, i)
    if fname(x) == "try_unmarshal" and x["body"]["argc"] == 1:
        for ts, cs in wire.codecs(P).items():
            if cs.get("try_unmarshal") == i:
                wire.pinned(res, P, ts, sized(P), lambda r, pin: tails(r, P, i, pin))
    return res


def tails(res, P, i, pin=None):
    S = sized(P)
    run = wire.decode_run(P, i, pin) if pin else Run(P, i)
    e = run.e
    res.funcs.add(run.name)
    where = short_span(run.x.get("span"))
    if run.err:
        res.und(run.name, run.err)
        return res
    olds = {}
    muts = []
    for k, a in enumerate(run.args):
        t = P.T[run.x["body"]["locals"][k + 1]]
        if t["k"] == "ref" and t.get("mut") and t["to"] in S and isinstance(a, Ref):
            muts.append(a)
            o = e.load(run.st, a)
            o = e.expand(o) if isinstance(o, Unk) else o
            if isinstance(o, Agg):
                olds[a.obj] = o
    for s, v in run.outs:
        if any(t.startswith("opaque") for t in s.taint):
            res.und(run.name, s.taint[0])
            continue
        found = [(r, None) for r in records(e, v, S)]
        for a in muts:
            r = e.load(s, a)
            r = e.expand(r) if isinstance(r, Unk) else r
            if isinstance(r, Agg):
                found.append((r, olds.get(a.obj)))
        for r, old in found:
            lf, af, cap = S[r.ty]
            n, arr = r.f[lf], r.f[af]
            if isinstance(arr, Unk):
                if old is not None and arr == old.f[af] and n == old.f[lf]:
                    continue
                if not isinstance(n, Unk) and old is None:
                    # a field-wise unknown of one origin: a value that came in or was decoded whole
                    continue
                arr = e.expand(arr)
            if not isinstance(arr, Arr) or not isinstance(n, Lin):
                continue
            ts = P.T[r.ty]["s"]
            F = s.F.add_le(n - (cap - 1))   # at least one element is unused
            if F is None:
                continue
            for st, ln, ct in e.pieces(arr, n, K(cap), F):
                if F.le0(ln):
                    continue
                if ct[0] == "amb":
                    res.und(run.name, "contents behind the recorded length not decidable")
                    break
                p = plain_content(e, ct, F)
                if p is not None:
                    res.n("unused parts compared")
                    res.data.append((ts, run.name, where, p))
                    continue
                if old is not None and isinstance(old.f[af], (Arr, Unk)):
                    o = old.f[af]
                    o = e.expand(o) if isinstance(o, Unk) else o
                    was = e.pieces(o, st, st + ln, F)
                    if len(was) == 1 and was[0][2] == ct and F.le0(old.f[lf] - st):
                        res.n("unused parts kept")
                        continue
                if ct[0] == "unk" and whole(arr, n, af, lf):
                    res.n("values passed on whole")
                    continue
                if ct[0] == "unk" and "phia" in str(ct[1])[:8]:
                    res.und(run.name, "contents of a loop's array not decidable")
                    break
                res.bad(f"tail:{ts}:{run.name}", f"{run.name} can leave data that depends on its input behind the recorded length of a {ts}: "
                        "values with the same contents then differ", where)
    return res


def whole(arr, n, af, lf):
    """array and length are the fields of one unknown value: it satisfies the invariant by induction"""
    if arr.segs or arr.base[0] != "unk" or n.const is not None or len(n.t) != 1:
        return False
    o, key = arr.base[1], ATOMS[n.t[0][0]].key
    return isinstance(o, tuple) and len(o) == 2 and o[1] == af and key[0] == "u" and key[1] == (o[0], lf)


def _equality(c, i):
    """two sized records compare equal only if they have the same length and visible elements"""
    res = Result()
    P = prog(c)
    S = sized(P)
    run = Run(P, i)
    e = run.e
    res.funcs.add(run.name)
    where = short_span(run.x.get("span"))
    if run.err:
        res.und(run.name, run.err)
        return res
    a, b = (e.load(run.st, r) for r in run.args[:2])
    a, b = (e.expand(v) if isinstance(v, Unk) else v for v in (a, b))
    lf, af, cap = S[a.ty]
    A, B = (e.expand(v.f[af]) if isinstance(v.f[af], Unk) else v.f[af] for v in (a, b))
    for s, v in run.outs:
        if v is False:
            res.n("unequal outcomes")
            continue
        if any(t.startswith("opaque") for t in s.taint):
            res.und(run.name, s.taint[0])
            continue
        res.n("equal outcomes")
        F = s.F
        conds = []
        flat(v, conds)
        for c_ in conds:
            if c_[0] == "eq" and F is not None:
                F = F.add_eq(c_[1])
        if F is None:
            continue
        if not F.eq0(a.f[lf] - b.f[lf]):
            res.bad(f"length:{run.name}", f"{run.name} can call values of different length equal", where)
            continue
        if any(c_[0] == "b" and c_[2] and isinstance(c_[1], tuple) and c_[1][0] == "arreq" and covers(e, F, c_[1][1:], A, B, a.f[lf]) for c_ in conds):
            continue
        if cap <= 64 and P.is_int(A.ety) and all(
                F.eq0(e.arr_read(A, K(j), F) - e.arr_read(B, K(j), F)) for j in range(cap)):
            continue
        if any(c_[0] not in ("eq", "b") or c_[0] == "b" and not (isinstance(c_[1], tuple) and c_[1][0] == "arreq") for c_ in conds) or s.taint:
            res.und(run.name, "equality not decidable")
            continue
        if any(ev[0] in ("star", "call") for ev in s.events()):
            res.und(run.name, "equality compared piece by piece")
            continue
        res.bad(f"contents:{run.name}", f"{run.name} can call values equal whose visible contents were not all compared", where)
    return res


def flat(c, out):
    if isinstance(c, tuple) and c and c[0] == "and":
        flat(c[1], out)
        flat(c[2], out)
    elif isinstance(c, tuple):
        out.append(c)


def covers(e, F, pair, A, B, n):
    """is pair (a prefix of A, the same prefix of B) of at least n elements"""
    if len(pair) != 2:
        return False
    x, y = pair
    for p, q in ((x, y), (y, x)):
        m = A.n if F.eq0(p.n - A.n) else n   # all of it, or at least the elements in use
        if F.le0(m - p.n) and all(
                e.pieces(u, ZERO, m, F) == e.pieces(w, ZERO, m, F) for u, w in ((p, A), (q, B))):
            return True
    return False


def C10(res, tier):
    jobs = []
    for c in FOUND:
        P = prog(c)
        S = sized(P)
        for i in pub_roots(P):
            x = P.I[i]
            b = x["body"]
            if is_dbg(x) or "client_" in x["name"] or "server_" in x["name"]:
                continue
            if fname(x) == "eq" and b["argc"] == 2 and P.T[b["locals"][1]]["k"] == "ref" and P.T[b["locals"][1]]["to"] in S \
                    and b["locals"][1] == b["locals"][2]:
                jobs.append((_equality, (c, i)))
                continue
            ts = [P.T[t]["to"] for t in b["locals"][1:b["argc"] + 1] if P.T[t]["k"] == "ref" and P.T[t].get("mut")]
            r = b["locals"][0]
            ok = [f["ty"] for v in P.T[r].get("variants") or [] for f in v["fields"]] if P.T[r]["k"] == "adt" else []
            if r in S or any(t in S for t in ts + ok):
                jobs.append((_tails, (c, i)))
    parallel(jobs, res)
    by = {}
    for ts, fn, where, p in res.data:
        by.setdefault(ts, {}).setdefault(p, []).append((fn, where))
    for ts, alts in sorted(by.items()):
        res.n("types with one unused state")
        if len(alts) > 1:
            ref = next((p for p, fs in alts.items() if any("Default" in fn for fn, _ in fs)), max(alts, key=lambda p: len(alts[p])))
            for p, fs in alts.items():
                if p != ref:
                    fn, where = fs[0]
                    res.bad(f"differs:{ts}:{fn}", f"{fn} fills the unused part of a {ts} otherwise than its other constructors: equal contents compare unequal", where)
    return {
        "rule": "for every public function that returns or mutates a record of a length and an array: in every outcome the elements "
                "[length..capacity) are one constant, the same for all producers of the type, or were unused before and are unchanged; "
                "eq returns true only with equal lengths and all visible elements compared",
        "assumptions": ASSUME,
        "floors": {"unused parts compared": 80, "types with one unused state": 35, "equal outcomes": 40},
    }


def size_error(e, F, v):
    """is this Err value the size error of its type (None: unknown)"""
    v = v.f[0]
    if isinstance(v, Agg) and e.is_enum(v.ty):
        n = e.T[v.ty]["variants"][v.var]["name"]
        return n in ("ArrayLengthExceeded",)
    if isinstance(v, Unk):
        return None
    # response codes: TPM_RC_SIZE
    x = v
    while isinstance(x, Agg) and x.f:
        x = x.f[0]
    if isinstance(x, Lin):
        return F.eq0(x - 0x095)
    return None


def _ctor(c, i, pin=None):
    """construction from a slice: success iff it fits, with the data stored completely and in order"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    b = x["body"]
    S = sized(P)
    okty = P.T[b["locals"][0]]["variants"][0]["fields"][0]["ty"]
    lf, af, cap = S[okty]
    cap = min(cap, P.int_range(P.T[okty]["variants"][0]["fields"][lf]["ty"])[1])  # what the length can express
    if pin is None:
        run = Run(P, i)
    else:
        def setup(e, st, args):
            r = slice_ref(e, st, args[0])
            o = ("buf", "data")
            args[0] = Ref(("ext", o, "out"), (), ZERO, K(pin))
            st.mem[args[0].obj] = Arr(e.arr_of(st, r).ety, K(pin), ("unk", ("*", o), ZERO))
        run = Run(P, i, setup=setup, opts={"unroll": 520})
    e = run.e
    where = short_span(x.get("span"))
    res.funcs.add(run.name)
    res.n("constructors" if pin is None else "constructions from a particular length")
    report_panics(res, run)
    for (fn, a, bb), occ in e.narrowings().items():
        res.bad(f"lossy:{fn}:{a}->{bb}", f"{fn} narrows {a} to {bb} where the value can change", short_span(occ[0][0]))
    if run.err:
        res.und(run.name, run.err)
        if pin is None:
            _ctor_pinned(res, c, i, cap)
        return res
    src = slice_ref(e, run.st, run.args[0])
    some = False
    for s, v in run.outs:
        if any(t.startswith("opaque") for t in s.taint):
            res.und(run.name, s.taint[0])
            continue
        F = s.F
        ok = is_ok(e, v, F)
        if ok is False:
            res.n("refusals")
            if not F.le0(K(cap + 1) - src.n):
                res.bad(f"refuse:{run.name}", f"{run.name} can refuse data that fits (capacity {cap})", where)
            elif size_error(e, F, v) is False:
                res.bad(f"error:{run.name}", f"{run.name} refuses oversized data with something other than the size error", where)
            continue
        if ok is None:
            res.und(run.name, "outcome not decidable")
            continue
        some = True
        res.n("successes")
        r = v.f[0]
        r = e.expand(r) if isinstance(r, Unk) else r
        if not F.eq0(r.f[lf] - src.n):
            res.bad(f"length:{run.name}", f"{run.name} records length {r.f[lf]!r:.60} for {src.n!r:.40} elements of data", where)
            continue
        if not F.le0(src.n - cap):
            res.bad(f"accept:{run.name}", f"{run.name} accepts more than {cap} elements", where)
            continue
        a = r.f[af]
        want = e.arr_of(s, src)
        same = wire.same(e, F, wire.canon(e, a, ZERO, src.n, F), wire.canon(e, want, src.s, src.s + src.n, F)) if isinstance(a, Arr) else None
        if same is None:
            res.und(run.name, f"stored contents not decidable {a!r:.80}")
        elif not same:
            res.bad(f"content:{run.name}", f"{run.name} does not store the given data completely and in order", where)
    if pin is None:
        if not some and run.outs:
            res.bad(f"never:{run.name}", f"{run.name} never succeeds", where)
        _ctor_pinned(res, c, i, cap)
    return res


def _ctor_pinned(res, c, i, cap):
    """where data of any length was not decidable, data of particular lengths may be"""
    if not res.undecided or res.findings:
        return
    t0 = time.time()
    for k in sorted({k for k in (0, 1, 2, 3, 5, min(cap, 8), cap, cap + 1) if k <= cap + 1 and k <= 130}):
        if time.time() - t0 > 20 or res.findings:
            break
        r = _ctor(c, i, k)
        for f in r.findings.values():
            res.bad(f.key, f.msg + f" (with {k} elements)", f.loc)
        res.n("constructions from a particular length")


def _append(c, i):
    """appending: success iff there is room, the element goes behind the others, nothing else changes"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    b = x["body"]
    S = sized(P)
    ty = P.T[b["locals"][1]]["to"]
    lf, af, cap = S[ty]
    cap = min(cap, P.int_range(P.T[ty]["variants"][0]["fields"][lf]["ty"])[1])
    run = Run(P, i)
    e = run.e
    where = short_span(x.get("span"))
    res.funcs.add(run.name)
    res.n("append operations")
    report_panics(res, run)
    if run.err:
        res.und(run.name, run.err)
        return res
    me0 = e.load(run.st, e.as_ref(run.args[0], None)) if False else None
    pre = Run(P, i, fresh=False) if False else None
    for s, v in run.outs:
        if any(t.startswith("opaque") for t in s.taint):
            res.und(run.name, s.taint[0])
            continue
        F = s.F
        ref = e.as_ref(run.args[0], None)
        old = e.ext_init(ref.obj) if ref.obj[0] == "ext" else None
        old = e.expand(old) if isinstance(old, Unk) else old
        new = e.load(s, ref)
        new = e.expand(new) if isinstance(new, Unk) else new
        if old is None:
            res.und(run.name, "initial state unknown")
            continue
        n0, n1 = old.f[lf], new.f[lf]
        ok = is_ok(e, v, F)
        if ok is False:
            res.n("refusals")
            if not F.le0(K(cap) - n0):
                res.bad(f"refuse:{run.name}", f"{run.name} can refuse an element although there is room", where)
            elif size_error(e, F, v) is False:
                res.bad(f"error:{run.name}", f"{run.name} refuses with something other than the size error", where)
            continue
        if ok is None:
            res.und(run.name, "outcome not decidable")
            continue
        res.n("successes")
        if not F.eq0(n1 - n0 - 1):
            res.bad(f"length:{run.name}", f"{run.name} does not increase the length by one", where)
            continue
        item = e.load(s, e.as_ref(run.args[1], None)) if P.T[b["locals"][2]]["k"] == "ref" else run.args[1]
        a0, a1 = e.as_arr(old.f[af]) if hasattr(e, "as_arr") else old.f[af], new.f[af]
        if isinstance(a1, Arr):
            got = e.arr_read(a1, n0, F)
            if not wire.same_val(e, F, got, item) and wire.vague(got):
                res.und(run.name, "stored element not decidable")
            elif not wire.same_val(e, F, got, item):
                res.bad(f"content:{run.name}", f"{run.name} does not store the element behind the existing ones", where)
            if isinstance(a0, Arr):
                sm = wire.same(e, F, wire.canon(e, a0, ZERO, n0, F), wire.canon(e, a1, ZERO, n0, F))
                if sm is False:
                    res.bad(f"keep:{run.name}", f"{run.name} changes elements already present", where)
                elif sm is None:
                    res.und(run.name, "existing elements not comparable")
        else:
            res.und(run.name, "array not decidable")
    return res


def C07(res, tier):
    jobs = []
    for c in FOUND + ("tpm2_client",):
        P = prog(c)
        S = sized(P)
        for i in pub_roots(P):
            x = P.I[i]
            b = x["body"]
            L_ = b["locals"]
            r = P.T[L_[0]]
            if r["k"] == "adt" and r["path"].endswith("result::Result"):
                okt = r["variants"][0]["fields"][0]["ty"]
                if b["argc"] == 1 and okt in S and P.T[L_[1]]["k"] == "ref" and P.T[P.T[L_[1]]["to"]]["k"] == "slice":
                    jobs.append((_ctor, (c, i)))
                if b["argc"] == 2 and P.T[L_[1]]["k"] == "ref" and P.T[L_[1]].get("mut") and P.T[L_[1]]["to"] in S and fname(x) != "try_unmarshal":
                    jobs.append((_append, (c, i)))
            gen = c == "tpm2_client" and ("<X, Y, Z, AA>" in x["name"] or "NoSession" in x["name"])
            if not is_dbg(x) and not gen and "zerocopy" not in (x.get("trait") or ""):
                jobs.append((scan, (c, i, ("lossy",))))
    P = prog("tpm2_impl")
    for i in pub_roots(P):
        if "TpmBuffers" not in P.I[i]["name"] and "RequestResponse" not in P.I[i]["name"] and "::<'_, B>" not in P.I[i]["name"] \
                and "helpers" not in P.I[i]["name"] and not is_dbg(P.I[i]):
            jobs.append((scan, ("tpm2_impl", i, ("lossy",))))
    parallel(jobs, res)
    return {
        "rule": "every constructor from a slice succeeds exactly for slices within capacity, records the slice's length and stores an "
                "identical copy; appending succeeds exactly when there is room; every integer narrowing reachable from a public "
                "function (dataflow over all casts) is proved value preserving",
        "assumptions": ASSUME,
        "floors": {"constructors": 30, "append operations": 5, "public functions analysed": 800},
    }


# ------------------------------------------------------------------ C08
INTS = tuple(contracts.WIDTH)


def be_bits(e, arr, pos, w, F):
    bits = []
    for j in range(w - 1, -1, -1):
        bits += lin_bits(e.arr_read(arr, pos + j, F), 8)
    return bits


def val_bits(v, w):
    return lin_bits(v, 8 * w)


def _int_marshalable(c, i):
    """Marshalable for one integer type, without any contract"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    ts = x["implself"]
    w = contracts.WIDTH[ts]
    where = short_span(x.get("span"))
    res.n("integer codecs")
    if x["short"] == "try_marshal":
        def setup(e, st, args):
            args[1] = wire.mk_buf(e, st, "enc")
        run = Run(P, i, hooks=(), setup=setup)
        e = run.e
        res.funcs.add(run.name)
        report_panics(res, run)
        if run.err:
            res.und(run.name, run.err)
            return res
        b = run.args[1]
        v0 = e.load(run.st, e.as_ref(run.args[0], None))
        n_ok = 0
        for s, v in run.outs:
            ok = is_ok(e, v, s.F)
            if ok is False:
                if not s.F.le0(b.n - (w - 1)):
                    res.bad(f"refuse:{run.name}", f"{run.name} can fail although {w} bytes are available", where)
                continue
            n_ok += 1
            if not s.F.eq0(v.f[0] - w):
                res.bad(f"width:{run.name}", f"{run.name} reports {v.f[0]} bytes instead of {w}", where)
                continue
            arr = e.get(s, b.obj)
            got = be_bits(e, arr, ZERO, w, s.F)
            if got != val_bits(v0, w):
                res.bad(f"bytes:{run.name}", f"{run.name} does not write the value's {w} bytes most significant first", where)
            rest = e.pieces(arr, K(w), b.n, s.F)
            if any(p[2][0] != "unk" for p in rest):
                res.bad(f"spill:{run.name}", f"{run.name} writes beyond its {w} bytes", where)
            res.n("byte orders compared")
        if not n_ok:
            res.bad(f"never:{run.name}", f"{run.name} never succeeds", where)
        return res

    def setup(e, st, args):
        args[0] = wire.mk_unmarshal(e, st, "dec", wire.mk_buf(e, st, "in"), wire.buf_ty(P, i))
    run = Run(P, i, hooks=(), setup=setup)
    e = run.e
    res.funcs.add(run.name)
    report_panics(res, run)
    if run.err:
        res.und(run.name, run.err)
        return res
    inb = ("ext", ("buf", "in"), "out")
    total = L(lin.atom(("len", ("buf", "in")), 0, (1 << 63) - 1))
    for s, v in run.outs:
        ok = is_ok(e, v, s.F)
        if ok is False:
            if not s.F.le0(total - (w - 1)):
                res.bad(f"refuse:{run.name}", f"{run.name} can fail although {w} bytes are available", where)
            continue
        left = contracts.unread(e, s, e.load(s, run.args[0]))
        if left.obj != inb or not s.F.eq0(left.s - w) or not s.F.eq0(left.s + left.n - total):
            res.bad(f"width:{run.name}", f"{run.name} does not consume exactly {w} bytes", where)
            continue
        if val_bits(v.f[0], w) != be_bits(e, e.get(s, inb), ZERO, w, s.F):
            res.bad(f"bytes:{run.name}", f"{run.name} does not read its {w} bytes most significant first", where)
        res.n("byte orders compared")
    return res


def _int_array(c, i):
    """MarshalArray / UnmarshalArray of the foundation crate"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    ts = x["implself"]
    width = {"constants::Alg": 2}.get(ts) or contracts.WIDTH[ts]
    where = short_span(x.get("span"))
    run = Run(P, i, hooks=())
    e = run.e
    res.n("integer codecs")
    res.funcs.add(run.name)
    report_panics(res, run)
    if run.err:
        res.und(run.name, run.err)
        return res

    def num(v):
        if isinstance(v, Unk) and not P.is_int(v.ty):
            v = e.expand(v)
        return v.f[0] if isinstance(v, Agg) else v
    for s, v in run.outs:
        if x["short"] == "marshal_array":
            v0 = num(e.load(run.st, e.as_ref(run.args[0], None)))
            arr = e.load(s, e.as_ref(run.args[1], None))
            got = be_bits(e, arr, ZERO, width, s.F) if isinstance(arr, Arr) else None
            if got != val_bits(v0, width) or not s.F.eq0(arr.n - width):
                res.bad(f"bytes:{run.name}", f"{run.name} does not write {width} bytes most significant first", where)
        else:
            if is_ok(e, v, s.F) is False:
                res.bad(f"refuse:{run.name}", f"{run.name} can fail", where)
                continue
            src = e.load(s, e.as_ref(run.args[0], None))
            if not isinstance(src, Arr) and isinstance(src, Unk):
                src = e.expand(src)
            if val_bits(num(v.f[0]), width) != be_bits(e, src, ZERO, width, s.F):
                res.bad(f"bytes:{run.name}", f"{run.name} does not read {width} bytes most significant first", where)
        res.n("byte orders compared")
    return res


def C08(res, tier):
    jobs = []
    P = prog("tpm2_rs_marshalable")
    for i in pub_roots(P):
        x = P.I[i]
        if (x.get("trait") or "").endswith("Marshalable") and x.get("implself") in INTS:
            jobs.append((_int_marshalable, ("tpm2_rs_marshalable", i)))
    P = prog("tpm2")
    for i in pub_roots(P):
        x = P.I[i]
        if fname(x) in ("marshal_array", "unmarshal_array") and (x.get("implself") in INTS or x.get("implself") == "constants::Alg"):
            jobs.append((_int_array, ("tpm2", i)))
    from . import server
    jobs += server.int_jobs()
    parallel(jobs, res)
    return {
        "rule": "bit-exact dataflow through every integer encoder and decoder (no contracts): the written bytes are the bits of the "
                "value, most significant byte first, exactly its width, and decoding inverts this; the same for the server's request "
                "reads and response headers",
        "assumptions": ASSUME,
        "floors": {"integer codecs": 34, "byte orders compared": 34},
    }


# ------------------------------------------------------------------ C09
def _canon(c, ts):
    res = Result()
    P = prog(c)
    wire.canonical(res, P, ts)
    wire.pinned(res, P, ts, sized(P), lambda r, pin: wire.canonical(r, P, ts, pin))
    dec = wire.codecs(P)[ts].get("try_unmarshal")
    if dec is not None:
        run = wire.decode_run(P, dec)
        if not run.err:
            for s, v in run.outs:
                if is_ok(run.e, v, s.F) is True:
                    wire.chain(res, ts, run.e, s, short_span(run.x.get("span")), ("ext", ("buf", "in"), "out"))
                    res.n("read sequences followed")
    return res


def _ubuf(c, i):
    """the cursor itself"""
    res = Result()
    P = prog(c)
    x = P.I[i]
    m = fname(x)
    where = short_span(x.get("span"))

    def setup(e, st, args):
        w = wire.mk_buf(e, st, "in")
        if m == "new":
            args[0] = w
        else:
            args[0] = wire.mk_unmarshal(e, st, "dec", w, P.T[x["body"]["locals"][1]]["to"], True)
    run = Run(P, i, hooks=(), setup=setup)
    e = run.e
    res.funcs.add(run.name)
    res.n("cursor operations")
    report_panics(res, run)
    if run.err:
        res.und(run.name, run.err)
        return res
    inb = ("ext", ("buf", "in"), "out")
    n = L(lin.atom(("len", ("buf", "in")), 0, (1 << 63) - 1))
    for s, v in run.outs:
        F = s.F
        if m == "new":
            w = contracts.unread(e, s, v)
            if w.obj != inb or not F.eq0(w.s) or not F.eq0(w.n - n):
                res.bad("cursor:new", "UnmarshalBuf::new does not cover exactly the given input", where)
            continue
        left = contracts.unread(e, s, e.load(s, run.args[0]))
        if m in ("len", "is_empty"):
            if left.obj != inb or not F.eq0(left.s) or not F.eq0(left.n - n):
                res.bad(f"cursor:{m}", f"UnmarshalBuf::{m} moves the cursor", where)
            if m == "len" and not F.eq0(v - n):
                res.bad("cursor:len", "UnmarshalBuf::len is not the number of unread bytes", where)
            if m == "is_empty":
                if any(not (G.le0(n) if b else G.le0(K(1) - n)) for G, b in cases(e, s, v)):
                    res.bad("cursor:is_empty", "UnmarshalBuf::is_empty is wrong", where)
            continue
        if m == "get":
            k = run.args[1]
            some = isinstance(v, Agg) and e.T[v.ty]["variants"][v.var]["name"] == "Some"
            if some:
                r = v.f[0]
                if r.obj != inb or not F.eq0(r.s) or not F.eq0(r.n - k):
                    res.bad("cursor:get", "UnmarshalBuf::get does not return the next bytes", where)
                if left.obj != inb or not F.eq0(left.s - k) or not F.eq0(left.n - n + k):
                    res.bad("cursor:get", "UnmarshalBuf::get does not advance behind the bytes it returned", where)
            else:
                if not F.le0(n - k + 1):
                    res.bad("cursor:get", "UnmarshalBuf::get fails although enough bytes remain", where)
                if left.obj != inb or not F.eq0(left.s) or not F.eq0(left.n - n):
                    res.bad("cursor:get", "a failing UnmarshalBuf::get moves the cursor", where)
    return res


def C09(res, tier):
    jobs = [(_canon, (c, ts)) for c in CODEC for ts in wire.codecs(prog(c))]
    P = prog("tpm2_rs_marshalable")
    jobs += [(_ubuf, ("tpm2_rs_marshalable", i)) for i in pub_roots(P) if "UnmarshalBuf" in P.I[i]["name"] and fname(P.I[i]) in ("new", "get", "len", "is_empty")]
    parallel(jobs, res)
    return {
        "rule": "every decoder on unknown input of unknown length: in each success class the cursor ends on a suffix of the input and "
                "re-encoding the decoded value spells exactly the consumed bytes, so each byte was taken once and in order; component "
                "reads are consecutive; the cursor type's own operations are exact",
        "assumptions": ASSUME,
        "floors": {"types": 140, "decodings proved canonical": 200, "cursor operations": 4},
    }
