"""K01-K04: protocol constants, attribute fields, handle ranges, command table."""
from itertools import product
from .core import *
from .client import leaf
from .codec import fname, oracle
from .errors import cval, last, tpath, funcs, outcomes, eqk, settle
from . import wire
from .server import c_le, c_eq, c_ne

BASE = "tpm2_rs_base"


def norm(s):
    return s.replace("_", "").lower()


# ------------------------------------------------------------------ K01
def group(O, RC, t):
    if t in ("Alg", "TpmAlgId") or t.startswith("TpmiAlg"):
        return O["ALG"]
    if t == "TpmSt" or t.startswith("TpmiSt"):
        return O["ST"]
    if t in ("TpmRc", "TpmRcError"):
        return RC
    return O["types"].get(t)


RC_PARTS = {"rcver1": 0x100, "rcfmt1": 0x80, "rcwarn": 0x900, "rcp": 0x40, "rcs": 0x800}
FREE = {"TPM2_SHA_DIGEST_SIZE": 20, "TPM2_SHA1_DIGEST_SIZE": 20, "TPM2_SHA256_DIGEST_SIZE": 32, "TPM2_SHA384_DIGEST_SIZE": 48,
        "TPM2_SHA512_DIGEST_SIZE": 64, "TPM2_SM3_256_DIGEST_SIZE": 32, "TPM2_LABEL_MAX_BUFFER": 32, "TPM2_MAX_SYM_BLOCK_SIZE": 16,
        "TPML_DIGEST_MAX_DIGESTS": 8}
# what each derived limit must be, given the free ones
DERIVED = {
    "TPM2_PCR_SELECT_MAX": ("ceil(TPM2_MAX_PCRS / 8)", lambda c: (c["TPM2_MAX_PCRS"] + 7) // 8),
    "TPM2_PRIVATE_VENDOR_SPECIFIC_BYTES": ("5 * TPM2_MAX_RSA_KEY_BYTES / 2", lambda c: c["TPM2_MAX_RSA_KEY_BYTES"] // 2 * 5),
    "TPM2_MAX_CAP_DATA": ("TPM2_MAX_CAP_BUFFER - 8", lambda c: c["TPM2_MAX_CAP_BUFFER"] - 8),
    "TPM2_MAX_CAP_ALGS": ("TPM2_MAX_CAP_DATA / 8", lambda c: c["TPM2_MAX_CAP_DATA"] // 8),
    "TPM2_MAX_CAP_HANDLES": ("TPM2_MAX_CAP_DATA / 4", lambda c: c["TPM2_MAX_CAP_DATA"] // 4),
    "TPM2_MAX_CAP_CC": ("TPM2_MAX_CAP_DATA / 4", lambda c: c["TPM2_MAX_CAP_DATA"] // 4),
    "TPM2_MAX_TPM_PROPERTIES": ("TPM2_MAX_CAP_DATA / 8", lambda c: c["TPM2_MAX_CAP_DATA"] // 8),
    "TPM2_MAX_ECC_CURVES": ("TPM2_MAX_CAP_DATA / 2", lambda c: c["TPM2_MAX_CAP_DATA"] // 2),
}
# smallest capacity that holds every value Part 2 allows in the buffer (in terms of the free limits)
CAPS = {
    "Tpm2bDigest": ("the largest digest", lambda c: 64),
    "Tpm2bData": ("the largest digest", lambda c: 64),
    "Tpm2bName": ("a tagged largest digest", lambda c: 66),
    "Tpm2bEvent": ("1024", lambda c: 1024),
    "Tpm2bMaxBuffer": ("TPM2_MAX_DIGEST_BUFFER", lambda c: c["TPM2_MAX_DIGEST_BUFFER"]),
    "Tpm2bMaxNvBuffer": ("TPM2_MAX_NV_BUFFER_SIZE", lambda c: c["TPM2_MAX_NV_BUFFER_SIZE"]),
    "Tpm2bIv": ("TPM2_MAX_SYM_BLOCK_SIZE", lambda c: c["TPM2_MAX_SYM_BLOCK_SIZE"]),
    "Tpm2bSymKey": ("TPM2_MAX_SYM_KEY_BYTES", lambda c: c["TPM2_MAX_SYM_KEY_BYTES"]),
    "Tpm2bLabel": ("TPM2_LABEL_MAX_BUFFER", lambda c: c["TPM2_LABEL_MAX_BUFFER"]),
    "Tpm2bSensitiveData": ("TPM2_MAX_SYM_DATA", lambda c: c["TPM2_MAX_SYM_DATA"]),
    "Tpm2bPublicKeyRsa": ("TPM2_MAX_RSA_KEY_BYTES", lambda c: c["TPM2_MAX_RSA_KEY_BYTES"]),
    "Tpm2bPrivateKeyRsa": ("half of TPM2_MAX_RSA_KEY_BYTES", lambda c: c["TPM2_MAX_RSA_KEY_BYTES"] // 2),
    "Tpm2bEccParameter": ("TPM2_MAX_ECC_KEY_BYTES", lambda c: c["TPM2_MAX_ECC_KEY_BYTES"]),
    "Tpm2bEncryptedSecret": ("TPM2_MAX_RSA_KEY_BYTES", lambda c: c["TPM2_MAX_RSA_KEY_BYTES"]),
    "Tpm2bPrivateVendorSpecific": ("TPM2_PRIVATE_VENDOR_SPECIFIC_BYTES", lambda c: c["TPM2_PRIVATE_VENDOR_SPECIFIC_BYTES"]),
    "Tpm2bContextSensitive": ("TPM2_MAX_CONTEXT_SIZE", lambda c: c["TPM2_MAX_CONTEXT_SIZE"]),
}


def K01(res, tier):
    O = oracle("consts.json")
    RC = {norm(k): v for k, v in oracle("rc.json")["tpm_rc"].items()}
    RC.setdefault("casymmetric", RC.get("asymmetric"))
    for crate in (BASE, "tpm2"):
        P = prog(crate)
        for c in P.d["consts"]:
            if c.get("trait") or "InternalBitFlags" in (c.get("implself") or ""):
                continue
            t = last(c.get("implself"))
            v = cval(c.get("val"))
            n = norm(c["name"])
            own = P.T[c["ty"]]["k"] == "adt" and tpath(P, c["ty"]) == t
            if own:
                g = group(O, RC, t)
                want = g.get(n) if g is not None else None
            elif t in ("TpmRc", "TpmRcError"):
                want = RC_PARTS.get(n)
            elif not t and crate == BASE:
                want = FREE.get(c["name"])
            else:
                continue
            if not own and want is None:
                continue
            label = (t + "::" if t else "") + c["name"]
            if v is None:
                res.und(label, "constant not evaluated")
            elif want is None:
                res.notes.append(f"{label} is not in the table")
            else:
                res.n("constants")
                if v != want:
                    res.bad(f"const:{label}", f"{label} is {v:#x}, the specification assigns {want:#x}", short_span(c["span"]))
    limits(res)
    return dict(rule="the evaluated value of every protocol constant (of every table it appears in) is compared with the value transcribed "
                "from Part 2; derived limits are recomputed from the free ones and buffer capacities must hold the largest specified value",
                assumptions=["oracle/consts.json and oracle/rc.json transcribe the specification correctly",
                             "implementation-defined limits (MAX_*) are free"],
                floors={"constants": 250, "derived limits": 4, "buffer capacities": 10})


def limits(res):
    P = prog(BASE)
    val, span, caps = {}, {}, {}
    for c in P.d["consts"]:
        v = cval(c.get("val"))
        if v is None:
            continue
        if not c.get("implself"):
            val[c["name"]] = v
            span[c["name"]] = short_span(c["span"])
        elif last(c.get("trait")) == "Tpm2bSimple":
            caps[last(c["implself"])] = (v, short_span(c["span"]))
    for n, (txt, f) in DERIVED.items():
        try:
            want = f(val)
        except KeyError:
            continue
        if n in val:
            res.n("derived limits")
            if val[n] != want:
                res.bad(f"limit:{n}", f"{n} is {val[n]}, but {txt} is {want}", span[n])
    for n, (txt, f) in CAPS.items():
        try:
            want = f(val)
        except KeyError:
            continue
        if n in caps:
            res.n("buffer capacities")
            if caps[n][0] < want:
                res.bad(f"cap:{n}", f"{n} holds at most {caps[n][0]} bytes, fewer than {txt} ({want})", caps[n][1])


# ------------------------------------------------------------------ K02
# (type, method) -> (field position, field width)
NT, CI, CH = (4, 4), (0, 16), (25, 3)
BUILD = {("TpmaNv", "from_index_type"): NT, ("TpmaNv", "from"): NT, ("TpmaCc", "command_index"): CI, ("TpmaCc", "c_handles"): CH}
GET = {("TpmaNv", "get_index_type"): NT, ("TpmaCc", "get_command_index"): CI, ("TpmaCc", "get_c_handles"): CH}
SET = {("TpmaNv", "set_type"): NT, ("TpmaCc", "set_command_index"): CI, ("TpmaCc", "set_c_handles"): CH}
WID = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}


def int_width(P, ty):
    t = P.T[ty]
    while t["k"] in ("adt", "ref"):
        t = P.T[t["to"]] if t["k"] == "ref" else P.T[t["variants"][0]["fields"][0]["ty"]]
    return WID.get(t["s"])


def vbits(e, F, l, w):
    """bits of a value, low first, with what the path knows put in"""
    b = lin_bits(l, w)
    if b is None:
        return None
    h = F.hi(l)
    out = []
    for k, x in enumerate(b):
        if h is not None and h >= 0 and (F.lo(l) or 0) >= 0 and h < 1 << k:
            x = 0
        elif x is not None and not isinstance(x, int):
            y = wire.known(e, F, x)
            x = x if y is None else y
        out.append(x)
    return out


def bit_leaves(b, out):
    if isinstance(b, tuple):
        if b[0] in ("~", "&", "|", "^"):
            for y in b[1:]:
                bit_leaves(y, out)
        else:
            out.add(b)


def bit_eval(b, m):
    if isinstance(b, int):
        return b
    if b[0] == "~":
        return 1 - bit_eval(b[1], m)
    if b[0] in ("&", "|", "^"):
        p, q = bit_eval(b[1], m), bit_eval(b[2], m)
        return p & q if b[0] == "&" else p | q if b[0] == "|" else p ^ q
    return m[b]


def same_bit(x, y):
    """equal as boolean functions"""
    if x == y:
        return True
    ls = set()
    bit_leaves(x, ls)
    bit_leaves(y, ls)
    if len(ls) > 10:
        return False
    ls = sorted(ls, key=repr)
    return all(bit_eval(x, m) == bit_eval(y, m) for m in (dict(zip(ls, v)) for v in product((0, 1), repeat=len(ls))))


def strip0(b, w):
    return (b + [0] * w)[:w]


def arg_leaf(run, a):
    e = run.e
    if isinstance(a, Ref):
        a = e.load(run.st, a)
    if isinstance(a, Unk):
        a = e.expand(a)
    while isinstance(a, Agg) and len(a.f) == 1:
        a = a.f[0]
        if isinstance(a, Unk):
            a = e.expand(a)
    return a if isinstance(a, Lin) else None


def _field(res, P, i, kind, pos, width):
    x = P.I[i]
    run = Run(P, i, opts={"join": False})
    e = run.e
    b = x["body"]
    where = short_span(x.get("span"))
    res.funcs.add(run.name)
    old = arg_leaf(run, run.args[0]) if kind != "build" else ZERO
    val = arg_leaf(run, run.args[-1]) if kind != "get" else None
    vw = int_width(P, b["locals"][len(run.args)]) if kind != "get" else None
    rw = int_width(P, b["locals"][1] if kind == "set" else b["locals"][0])
    for s, v in outcomes(res, run):
        got = leaf(e.load(s, run.args[0])) if kind == "set" else leaf(v)
        if got is None or old is None or (kind != "get" and val is None) or not rw:
            res.und(run.name, "value")
            continue
        g = vbits(e, s.F, got, rw)
        if kind == "get":
            o = vbits(e, s.F, old, 32)
            want = strip0(o[pos:pos + width], rw) if o else None
        else:
            o = vbits(e, s.F, old, rw)
            a = vbits(e, s.F, val, vw)
            want = o[:pos] + strip0(a, width) + o[pos + width:] if o and a else None
        if g is None or want is None or any(y is None for y in g):
            res.und(run.name, "bits")
            continue
        res.n("field operations")
        for k in range(rw):
            if not same_bit(g[k], want[k]):
                inside = kind == "get" or pos <= k < pos + width
                res.bad(f"field:{run.name}", f"{run.name}: bit {k} of the result is {'not the corresponding bit of the field value' if inside else 'disturbed although it lies outside the field'}"
                        f" (the field has bits {pos}..{pos + width - 1})", where)
                break


def K02(res, tier):
    P = prog(BASE)
    for i, x in funcs(P):
        t, n = last(x.get("implself")), fname(x)
        for kind, tab in (("build", BUILD), ("get", GET), ("set", SET)):
            f = tab.get((t, n))
            if f and x["body"]["argc"] == (2 if kind == "set" else 1) and not (n == "from" and tpath(P, x["body"]["locals"][1]) != "TpmNt"):
                _field(res, P, i, kind, *f)
        if (t, n) == ("TpmaLocality", "is_extended"):
            run = Run(P, i, opts={"join": False})
            e = run.e
            res.funcs.add(run.name)
            a = arg_leaf(run, run.args[0])
            for s, v in outcomes(res, run):
                for F, b in cases(e, s, v):
                    for l, want in ((c_le(a - 31), False), (c_le(K(32) - a), True)):
                        for G in e.assume(F, l):
                            if settle(e, G) and b != want and bit_feasible(e, G, a, want):
                                res.bad("extended", f"is_extended can answer {str(b).lower()} for a locality {'above' if want else 'not above'} 31",
                                        short_span(x.get("span")))
                    res.n("locality classes")
    return dict(rule="the result of every field reader, writer and constructor is computed bit by bit: inside the field it must be the field "
                "value's bit, outside it the previous bit (or zero for a constructor or reader)", assumptions=[],
                floors={"field operations": 3})


def bit_feasible(e, G, a, high):
    """is a value with (some / no) bit 5..7 set still possible"""
    for asg in product((0, 1), repeat=3):
        if any(asg) != high:
            continue
        H = G
        for k, v in zip((5, 6, 7), asg):
            H = e.set_bit(H, ("x", a.single().id, k), v) if H is not None else None
        if H is not None and settle(e, H):
            return True
    return False


# ------------------------------------------------------------------ K03
HMAC, POLICY, NV, PW = (0x02000000, 0x0200003F), (0x03000000, 0x0300003F), (0x01000000, 0x01FFFFFF), (0x40000009, 0x40000009)
CLASS = {"is_hmac_session": [HMAC], "is_policy_session": [POLICY], "is_nv_index": [NV]}
CHECKED = {"TpmiRhNvIndex": [NV], "TpmiShAuthSession": [HMAC, POLICY, PW]}
TOP = (1 << 32) - 1


def regions(rs):
    """[(lo, hi, inside)] covering all 32-bit values"""
    out, at = [], 0
    for lo, hi in sorted(rs):
        if at < lo:
            out.append((at, lo - 1, False))
        out.append((lo, hi, True))
        at = hi + 1
    if at <= TOP:
        out.append((at, TOP, False))
    return out


def blocks(lo, hi):
    """aligned power-of-two blocks covering lo..hi: [(start, log2 size)]"""
    out = []
    while lo <= hi:
        k = (lo & -lo).bit_length() - 1 if lo else 32
        while lo + (1 << k) - 1 > hi:
            k -= 1
        out.append((lo, k))
        lo += 1 << k
    return out


def block_runs(res, P, i, rs):
    """(run, state, value, argument, inside) for every outcome of a one-argument function on every block of values"""
    for lo, hi, inside in regions(rs):
        for start, k in blocks(lo, hi):
            def setup(e, st, args):
                a = args[0]
                if isinstance(a, Unk):
                    a = e.expand(a)
                args[0] = a
                F = st.F.add_le(K(start) - a)
                F = F and F.add_le(a - (start + (1 << k) - 1))
                for b in range(k, 32):
                    F = F and e.set_bit(F, ("x", a.single().id, b), start >> b & 1)
                st.F = F
            run = Run(P, i, opts={"join": False}, setup=setup)
            res.funcs.add(run.name)
            res.n("value blocks")
            for s, v in outcomes(res, run):
                yield run, s, v, run.args[0], inside, f"{start:#010x}..{start + (1 << k) - 1:#010x}"


def K03(res, tier):
    P = prog(BASE)
    for i, x in funcs(P):
        t, n = last(x.get("implself")), fname(x)
        where = short_span(x.get("span"))
        if t == "TpmHc" and n in CLASS and x["body"]["argc"] == 1 and P.T[x["body"]["locals"][1]]["s"] == "u32":
            res.n("classifiers")
            for run, s, v, a, want, r in block_runs(res, P, i, CLASS[n]):
                for F, b in cases(run.e, s, v):
                    if b != want and settle(run.e, F):
                        res.bad(f"class:{n}:{want}", f"{n} can answer {str(b).lower()} for a handle in {r}", where)
        if t in CHECKED and n == "try_from" and tpath(P, x["body"]["locals"][1]) == "u32":
            res.n("checked conversions")
            for run, s, v, a, want, r in block_runs(res, P, i, CHECKED[t]):
                e = run.e
                ok = is_ok(e, v, s.F)
                if ok is None:
                    res.und(run.name, "result")
                    continue
                if not settle(e, s.F):
                    continue
                l = leaf(v.f[0])
                if ok != want:
                    res.bad(f"try:{t}:{want}", f"{t}::try_from can {'accept' if ok else 'refuse'} a value in {r}", where)
                elif ok and not (l is not None and s.F.eq0(l - a)):
                    res.bad(f"value:{t}", f"{t}::try_from changes the value it accepts", where)
                elif not ok and not (l is not None and eqk(e, s.F, l, 0x084)):
                    res.bad(f"code:{t}", f"{t}::try_from refuses with something other than the value error", where)
    return dict(rule="every handle classifier is evaluated abstractly on aligned blocks of values that together cover all 32-bit values: it must "
                "answer true (accept, value unchanged) on every block inside the specified ranges and false (the value error) on every other",
                assumptions=[], floors={"classifiers": 2, "checked conversions": 2})


# ------------------------------------------------------------------ K04
def layout(res, P, ty, cod):
    t = P.T[ty]
    if t["k"] == "tuple" and not t.get("e"):
        return [""]
    d = cod.get(t["s"])
    if not d or "try_marshal" not in d:
        return None
    g, why = wire.grammar(P, t["s"], d["try_marshal"])
    if g is None:
        res.und(t["s"], why)
    return g


def K04(res, tier):
    P = prog(BASE)
    O = {int(k, 16): v for k, v in oracle("commands.json").items() if k[0] != "_"}
    N = {v["name"]: k for k, v in O.items()}
    cod = wire.codecs(P)
    codes = {c["implself"]: (cval(c.get("val")), short_span(c["span"])) for c in P.d["consts"]
             if last(c.get("trait")) == "TpmCommand" and c["name"] == "CMD_CODE" and c.get("implself")}
    seen = {}
    for m in P.d["impls"]:
        if last(m.get("trait")) != "TpmCommand":
            continue
        n = last(m["self"])
        where = short_span(m["span"])
        code, _ = codes.get(m["self"], (None, None))
        res.n("commands")
        if code is None:
            res.und(n, "command code not evaluated")
            continue
        if code in seen:
            res.bad(f"dup:{code:#x}", f"{n} and {seen[code]} share the command code {code:#x}", where)
        seen[code] = n
        if n in N and N[n] != code:
            res.bad(f"code:{n}", f"{n} declares command code {code:#x}, the specification assigns {N[n]:#x}", where)
            continue
        if code not in O:
            res.notes.append(f"command {n} ({code:#x}) is not in the command table")
            continue
        at = {a["name"]: a["ty"] for a in m["assoc_types"]}
        for part, ty in (("params", m["selfty"]), ("handles", at.get("Handles")), ("resp", at.get("RespT")), ("resphandles", at.get("RespHandles"))):
            if ty is None:
                continue
            got = layout(res, P, ty, cod)
            if got is None:
                res.und(f"{n} {part}", "layout")
                continue
            res.n("command parts")
            if sorted(wire.spell(x) for x in got) != sorted(wire.spell(x) for x in O[code][part]):
                res.bad(f"shape:{n}:{part}", f"{n}: the {part} are laid out as {got}, Part 3 has {O[code][part]}", where)
    return dict(rule="the command code constant of every TpmCommand impl and the symbolic layout of its handle, parameter and response types "
                "are compared with the command table transcribed from Part 3; codes are pairwise different",
                assumptions=["oracle/commands.json transcribes Part 3 correctly", "nested structures are decided by C04"],
                floors={"commands": 4, "command parts": 12})
