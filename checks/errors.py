"""E01-E03: response codes and error conversions."""
import json
from itertools import product
from .core import *
from .client import leaf
from .codec import fname
from .server import opaque

RC_FILE = "crates/tpm2/src/errors/tpm_rc/mod.rs"
TSS_FILE = "crates/tpm2/src/errors/tss_rc.rs"
MOD_FILE = "crates/tpm2/src/errors/mod.rs"


def table():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracle", "rc.json")) as f:
        return json.load(f)


def last(p):
    return (p or "").split("<")[0].rstrip(":").split("::")[-1]


def cval(v):
    """the only integer of an evaluated constant"""
    while isinstance(v, dict) and "agg" in v:
        if len(v["agg"]) != 1:
            return None
        v = v["agg"][0]
    return v.get("v") if isinstance(v, dict) and isinstance(v.get("v"), int) else None


def tpath(P, ty):
    t = P.T[ty]
    return last(t["path"]) if t["k"] == "adt" else t["s"]


def bit_cases(e, F, l, ks):
    """split on the bits ks of value l: [({bit: value}, facts)], infeasible ones left out"""
    a = l.single()
    if a is None or l != L(a):
        c = l.const
        return [({k: (c >> k) & 1 for k in ks}, F)] if c is not None else []
    out = []
    for asg in product((0, 1), repeat=len(ks)):
        G = F
        for k, v in zip(ks, asg):
            G = e.set_bit(G, ("x", a.id, k), v)
            if G is None:
                break
        if G is not None and settle(e, G):
            out.append((dict(zip(ks, asg)), G))
    return out


def settle(e, G):
    """facts still possible once the known bits are put in"""
    for c in G.cons:
        l = e.known_bits(c, G)
        if l.const is not None and l.const > 0:
            return False
    for c in G.ne:
        l = e.known_bits(c, G)
        if l.const == 0:
            return False
    return G.feasible()


def eqk(e, G, l, c):
    return G.eq0(e.known_bits(l, G) - c)


def funcs(P, implself=None):
    for i in P.roots:
        x = P.I[i]
        if x.get("body") and "::tests" not in x["name"] and (implself is None or last(x.get("implself")) == implself):
            yield i, x


def outcomes(res, run):
    if run.err:
        res.und(run.name, run.err)
        return
    report_panics(res, run)
    for s, v in run.outs:
        o = opaque(s)
        if o:
            res.und(run.name, o)
            continue
        yield s, v


# ------------------------------------------------------------------ E01
def E01(res, tier):
    T = table()
    P = prog("tpm2")
    rc_consts(res, P, T)
    for i, x in funcs(P, "TpmRcError"):
        if not x.get("pub"):
            continue
        b = x["body"]
        L_ = b["locals"]
        if b["argc"] == 2 and [tpath(P, t) for t in L_[1:3]] == ["ErrorType", "ErrorPosition"] and tpath(P, L_[0]) == "TpmRcError":
            positional(res, P, i, T)
        if fname(x) == "is_warning":
            warning(res, P, i)
    for c in ("tpm2_rs_marshalable",):
        P = prog(c)
        for i, x in funcs(P):
            if (x.get("trait") or "").endswith("convert::From") and last(x.get("implself")) in ("TpmRcError", "TssError") \
                    and tpath(P, x["body"]["locals"][1]) == "Error":
                codec_error(res, P, i)
    return dict(rule="evaluated TPM_RC constants are compared with the transcribed table; the value of every positional constructor is "
                "derived for each (kind, position) class; is_warning is decided per class of the format, version and severity bits; each "
                "codec error class maps to its response code", assumptions=[],
                floors={"response codes": 10, "positional classes": 29, "warning classes": 1, "codec error classes": 3})


def rc_consts(res, P, T):
    for c in P.d["consts"]:
        if last(c.get("implself")) != "TpmRcError" or P.T[c["ty"]]["k"] != "adt" or tpath(P, c["ty"]) != "TpmRcError":
            continue
        v = cval(c.get("val"))
        w = T["tpm_rc"].get(c["name"])
        if v is None:
            res.und(c["name"], "constant not evaluated")
        elif w is None:
            res.notes.append(f"response code {c['name']} is not in the table")
        else:
            res.n("response codes")
            if v != w:
                res.bad(f"rc:{c['name']}", f"TpmRcError::{c['name']} is {v:#x}, the specification assigns {w:#x}", short_span(c["span"]))


def names(P, ty):
    """discriminant value -> variant name"""
    return {v["discr"] if v["discr"] is not None else k: v["name"] for k, v in enumerate(P.T[ty]["variants"])}


def posnum(name, d):
    m = re.match(r"Pos([1-9A-F])$", name)
    return int(m.group(1), 16) if m else d


def positional(res, P, i, T):
    x = P.I[i]
    n = fname(x)
    base = T["tpm_rc"].get(n[:-3]) if n.endswith("For") else None
    if base is None:
        res.notes.append(f"positional constructor {n} is not in the table")
        return
    run = Run(P, i, opts={"join": False})
    e = run.e
    where = short_span(x.get("span"))
    res.funcs.add(run.name)
    kinds, poss = names(P, x["body"]["locals"][1]), names(P, x["body"]["locals"][2])
    for s, v in outcomes(res, run):
        l = leaf(v)
        if l is None:
            res.und(n, "value")
            continue
        dk, dp = e.discr(run.args[0]), e.discr(run.args[1])
        for kd, kn in kinds.items():
            for F in e.assume(s.F, ("eq", dk - kd)):
                for pd, pn in poss.items():
                    pos = posnum(pn, pd)
                    if kn != "Parameter" and pos > 7:
                        continue
                    for G in e.assume(F, ("eq", dp - pd)):
                        a = dp.single()
                        if a is not None:
                            for k in range(8):
                                G = e.set_bit(G, ("x", a.id, k), (pd >> k) & 1) if G is not None else None
                        if G is None or not settle(e, G):
                            continue
                        res.n("positional classes")
                        want = base | {"Handle": 0, "Parameter": 0x40, "Session": 0x800}[kn] | pos << 8
                        if not eqk(e, G, l, want):
                            res.bad(f"pos:{n}:{kn}", f"TpmRcError::{n}({kn}, {pn}) is not {want:#x}", where)


def warning(res, P, i):
    x = P.I[i]
    run = Run(P, i, opts={"join": False})
    e = run.e
    res.funcs.add(run.name)
    arg = leaf(e.expand(run.args[0])) if isinstance(run.args[0], Unk) else leaf(run.args[0])
    for s, v in outcomes(res, run):
        for F, b in cases(e, s, v):
            for asg, G in bit_cases(e, F, arg, (7, 8, 11)):
                res.n("warning classes")
                want = asg == {7: 0, 8: 1, 11: 1}
                if b != want:
                    res.bad(f"warn:{asg}", f"is_warning can answer {str(b).lower()} for a response code with bits 7,8,11 = "
                            f"{asg[7]},{asg[8]},{asg[11]}", short_span(x.get("span")))


CODEC_RC = {"ArrayLengthExceeded": 0x095, "UnexpectedEndOfBuffer": 0x904, "UnknownSelector": 0x098}


def codec_error(res, P, i):
    x = P.I[i]
    run = Run(P, i, opts={"join": False})
    e = run.e
    res.funcs.add(run.name)
    nm = names(P, x["body"]["locals"][1])
    for s, v in outcomes(res, run):
        l = leaf(v)
        if l is None:
            res.und(run.name, "value")
            continue
        for d, n in nm.items():
            for F in e.assume(s.F, ("eq", e.discr(run.args[0]) - d)):
                if n not in CODEC_RC:
                    res.notes.append(f"codec error {n} has no assigned response code")
                    continue
                res.n("codec error classes")
                if not eqk(e, F, l, CODEC_RC[n]):
                    res.bad(f"codec:{n}", f"codec error {n} does not become response code {CODEC_RC[n]:#x}", short_span(x.get("span")))


# ------------------------------------------------------------------ E02
def E02(res, tier):
    P = prog("tpm2")
    for i, x in funcs(P, "TpmRcError"):
        if fname(x) == "format1_parameter":
            decode(res, P, i)
    return dict(rule="format1_parameter is decided for each of the 64 classes of the format bit, the kind bits and the position field: "
                "nothing for format zero or position zero, else parameter when bit 6 is set with a 4-bit position, session or handle by "
                "bit 11 with a 3-bit position", assumptions=["together with E01 (positional constructors) this is the round trip"],
                floors={"code classes": 32})


def decode(res, P, i):
    x = P.I[i]
    run = Run(P, i, opts={"join": False})
    e = run.e
    where = short_span(x.get("span"))
    for f in e.visited:
        if isinstance(f, int):
            res.funcs.add(e.I[f]["name"])
    arg = leaf(e.expand(run.args[0])) if isinstance(run.args[0], Unk) else leaf(run.args[0])
    if arg is None:
        res.und(run.name, "receiver")
        return
    for s, v in outcomes(res, run):
        got = None
        if isinstance(v, Agg) and v.var == 1:
            got = v.f[0]
            got = e.expand(got) if isinstance(got, Unk) else got
        elif not (isinstance(v, Agg) and v.var == 0):
            res.und(run.name, "result")
            continue
        for asg, G in bit_cases(e, s.F, arg, (6, 7, 8, 9, 10, 11)):
            res.n("code classes")
            c = sum(b << k for k, b in asg.items())
            want = None
            if asg[7]:
                k = "Parameter" if asg[6] else "Session" if asg[11] else "Handle"
                p = (c >> 8) & (15 if asg[6] else 7)
                want = (k, p) if p else None
            if (got is None) != (want is None):
                res.bad(f"decode:{want}:{got is None}", f"a response code with bits {c:#05x} decodes to "
                        f"{'nothing' if got is None else 'a kind and position'}, expected {want or 'nothing'}", where)
            elif got is not None:
                k, p = got.f
                kn = names(P, k.ty).get(const(e, G, k))
                pd = const(e, G, p)
                pn = names(P, p.ty).get(pd)
                if kn is None or pn is None:
                    res.und(run.name, "result value")
                elif (kn, posnum(pn, pd)) != want:
                    res.bad(f"decode:{want}", f"a response code with bits {c:#05x} decodes to {kn}, {pn}, expected {want}", where)


def const(e, G, v):
    """discriminant of an enum value under facts"""
    if isinstance(v, Agg):
        d = e.T[v.ty]["variants"][v.var]["discr"]
        return d if d is not None else v.var
    if isinstance(v, Unk):
        l = e.known_bits(e.discr(v), G)
        for c in {G.lo(l), G.hi(l)}:
            if c is not None and G.eq0(l - c):
                return c
    return None


# ------------------------------------------------------------------ E03
LAYERS = ("TpmRcError", "TssError", "TssTddlError", "TssTcsError", "TssTspError")


def E03(res, tier):
    T = table()
    P = prog("tpm2")
    for c in P.d["consts"]:
        n = last(c.get("implself"))
        if n not in T["layers"] or tpath(P, c["ty"]) != n:
            continue
        v, w = cval(c.get("val")), T["tss"].get(c["name"])
        if v is None:
            res.und(c["name"], "constant not evaluated")
            continue
        res.n("layer codes")
        if v >> 12 != T["layers"][n]:
            res.bad(f"layer:{n}:{c['name']}", f"{n}::{c['name']} = {v:#x} lies outside its layer's range", short_span(c["span"]))
        elif w is not None and v & 0xFFF != w:
            res.bad(f"code:{n}:{c['name']}", f"{n}::{c['name']} is {v & 0xFFF:#x} in its layer, TSS assigns {w:#x}", short_span(c["span"]))
    for c in ("tpm2", "tpm2_rs_marshalable", "tpm2_rs_base", "tpm2_client", "tpm2_impl"):
        P = prog(c)
        for i, x in funcs(P):
            if not x.get("pub"):
                continue
            b = x["body"]
            L_ = b["locals"]
            r = P.T[L_[0]]
            okr = L_[0]
            if r["k"] == "adt" and last(r["path"]) == "Result":
                okr = r["variants"][0]["fields"][0]["ty"]
            if tpath(P, okr) in LAYERS and not (x.get("trait") or "").endswith("Clone"):
                convert(res, P, i, okr)
            elif b["argc"] == 1 and fname(x) == "get" and last(x.get("implself")) in LAYERS:
                getter(res, P, i)
            elif b["argc"] == 1 and tpath(P, L_[1]) == "TssError" and (x.get("trait") or "").endswith("convert::From"):
                wrap(res, P, i)
    return dict(rule="evaluated layer constants lie in their layer with the TSS value; each conversion between error types returns a value "
                "with the same code on every path; TssError::try_from succeeds exactly on non-zero codes and keeps them; every error value "
                "a public function can produce is proved non-zero", assumptions=[],
                floors={"layer codes": 20, "conversions": 2, "raw conversions": 2, "error values": 4, "accessors": 1})


def convert(res, P, i, okr):
    x = P.I[i]
    run = Run(P, i, opts={"join": False})
    e = run.e
    where = short_span(x.get("span"))
    L_ = x["body"]["locals"]
    res.funcs.add(run.name)
    src = None
    if x["body"]["argc"] == 1:
        a = run.args[0] if hasattr(run, "args") else None
        if tpath(P, L_[1]) in LAYERS:
            src = leaf(e.expand(a) if isinstance(a, Unk) else a)
        elif P.is_int(L_[1]) and (x.get("trait") or "").endswith("TryFrom"):
            src = a
    for s, v in outcomes(res, run):
        if okr != L_[0]:
            ok = is_ok(e, v, s.F)
            if ok is None:
                res.und(run.name, "outcome")
                continue
            if not ok:
                if isinstance(src, Lin) and P.is_int(L_[1]):
                    res.n("raw conversions")
                    if not s.F.eq0(src):
                        res.bad(f"refuse:{run.name}", f"{run.name} can refuse a non-zero code", where)
                continue
            v = v.f[0] if isinstance(v, Agg) else None
        v = e.expand(v) if isinstance(v, Unk) else v
        l = leaf(v) if v is not None else None
        if l is None:
            res.und(run.name, "value")
            continue
        res.n("error values")
        l = e.known_bits(l, s.F)
        if not s.F.ne0(l):
            res.bad(f"zero:{run.name}", f"{run.name} can produce an error with code zero", where)
        if src is not None and (P.is_int(L_[1]) or tpath(P, L_[1]) in LAYERS):
            res.n("raw conversions" if P.is_int(L_[1]) else "conversions")
            if not s.F.eq0(l - src):
                res.bad(f"code:{run.name}", f"{run.name} does not keep the numeric code", where)


def getter(res, P, i):
    run = Run(P, i, opts={"join": False})
    e = run.e
    res.funcs.add(run.name)
    a = run.args[0]
    src = leaf(e.expand(a) if isinstance(a, Unk) else e.load(run.st, a) if isinstance(a, Ref) else a)
    for s, v in outcomes(res, run):
        res.n("accessors")
        if not (isinstance(v, Lin) and src is not None and s.F.eq0(v - src)):
            res.bad(f"get:{run.name}", f"{run.name} does not return the error's code", short_span(run.x.get("span")))


def wrap(res, P, i):
    """boxing an error for another crate's error type keeps the error"""
    run = Run(P, i, opts={"join": False})
    e = run.e
    if run.err:
        res.und(run.name, run.err)
        return
    res.funcs.add(run.name)
    for s, v in run.outs:
        cs = [ev for ev in s.events() if ev[0] == "call" and len(ev[2]) == 1]
        if cs:
            res.n("wrapped errors")
            a, w = cs[-1][2][0], run.args[0]
            a = e.expand(a) if isinstance(a, Unk) else a
            w = e.expand(w) if isinstance(w, Unk) else w
            if leaf(a) is not None and leaf(w) is not None and not s.F.eq0(leaf(a) - leaf(w)):
                res.bad(f"wrap:{run.name}", f"{run.name} does not carry the original error", short_span(run.x.get("span")))
