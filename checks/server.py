"""S01-S06: the server core."""
from . import wire
from .core import *
from absint import vals

HDR = 10
GET_RANDOM = 0x17B
PLAT = ("Drbg::", "EntropySource::")


def sroots():
    P = prog("vp_probe")
    out = {}
    for i in P.roots:
        m = re.match(r"server::(server_\w+)", P.I[i]["name"])
        if m:
            out[m.group(1)] = i
    return P, out


def opaque(s):
    return next((t for t in s.taint if "opaque" in t), None)


def plat(ev):
    """name of a generator / entropy-source operation, or None"""
    if ev[0] == "call" and any(p in ev[1] for p in PLAT):
        return ev[1].rsplit("::", 2)[-2] + "::" + ev[1].rsplit("::", 1)[-1]
    return None


def ev_ok(F, o):
    """was the Result of call o inspected, and which way: True / False / None"""
    r = None
    for a in ATOMS.values() if isinstance(ATOMS, dict) else ATOMS:
        if a is not None and a.key[0] == "d" and a.key[2] == o:
            l = L(a)
            if F.eq0(l):
                r = True
            elif F.ne0(l):
                r = False
    return r


class Server:
    """all abstract executions of one server entry point, with the request bytes and the reply"""

    def __init__(self, name, snap=False):
        P, rs = sroots()
        self.name = name
        self.run = Run(P, rs[name], opts={"inline_leaves": 6, "join": False, "snap": snap})
        self.e = self.run.e
        self.where = ""
        if name == "server_new":
            return
        e, a = self.e, self.run.args
        self.req = a[1]
        self.resp = a[2] if name == "server_separate" else a[1]
        st0 = St({}, Facts())
        arr = e.arr_of(st0, self.req)
        self.q = [e.arr_read(arr, K(i), Facts()) for i in range(12)]
        self.size = self.be(self.q[2:6])
        self.code = self.be(self.q[6:10])
        self.want = self.be(self.q[10:12])
        self.rlen = self.resp.n
        # claimed request length: bytes supplied
        if name == "server_separate":
            self.lens = [((), self.req.n)]
        else:
            rs_, bl = a[2], self.req.n
            self.lens = [((c_le(rs_ - bl),), rs_), ((c_le(bl - rs_ + 1),), bl)]

    @staticmethod
    def be(bs):
        t = ZERO
        for b in bs:
            t = t.scale(256) + b
        return t

    def given(self, F, conds):
        fs = [F]
        for c in conds:
            fs = [g for f in fs for g in self.e.assume(f, c)]
        return [f for f in fs if f.feasible()]

    def reply(self, s, F):
        """(tag bytes, size value, code value) of the reply header, or None"""
        e = self.e
        arr = e.get(s, self.resp.obj)
        b = [e.arr_read(arr, K(i), F) for i in range(HDR)]
        if any(not isinstance(x, Lin) for x in b):
            return None
        return b[:2], join_be(b[2:6], F), join_be(b[6:10], F)


def join_be(bs, F):
    """big-endian bytes as one value, recognising the pieces of a split integer"""
    bits = []
    for b in reversed(bs):
        bits += vals.lin_bits(b, 8)
    l = vals.bits_lin(bits)
    x = l.single()
    if x is not None and x.key[0] == "val" and F.le0(-x.key[2]) and F.le0(x.key[2] - ((1 << x.key[1]) - 1)):
        return x.key[2]
    if x is not None and x.key[0] == "bits" and l == L(x):
        c = x.key[1]
        if isinstance(c[0], tuple) and c[0][0] == "x" and all(b == ("x", c[0][1], j) for j, b in enumerate(c)):
            v = L(ATOMS[c[0][1]])
            if F.le0(-v) and F.le0(v - ((1 << len(c)) - 1)):
                return v
    return l


def c_le(l):
    return ("le", l)


def c_eq(l):
    return ("eq", l)


def c_ne(l):
    return ("ne", l)


BOTH = ("server_separate", "server_in_place")


def each(res, names=BOTH, snap=False):
    """(server, state, facts, claimed length, returned size) of every execution class"""
    for nm in names:
        sv = Server(nm, snap)
        if sv.run.err:
            res.und(nm, sv.run.err)
            continue
        res.n("entry points")
        for f in sv.e.visited:
            res.funcs.add(strip_generics(sv.e.I[f]["name"]) if isinstance(f, int) else str(f))
        for s, n in sv.run.outs:
            op = opaque(s)
            if op:
                res.und(f"{nm}:{op}", "depends on a library call that is not modelled")
                continue
            if s.F.lo(n) is None:
                res.und(nm, "returned size has no bound")
                continue
            for conds, ln in sv.lens:
                for F in sv.given(s.F, conds):
                    res.n("execution classes")
                    yield sv, s, F, ln, n


def S01(res, tier):
    P, rs = sroots()
    for nm, i in sorted(rs.items()):
        run = Run(P, i, opts={"inline_leaves": 6})
        if run.err:
            res.und(nm, run.err)
            continue
        res.n("entry points")
        res.n("obligations", sum(run.e.obl.values()))
        report_panics(res, run)
    c = "tpm2_impl"
    P = prog(c)
    for i in P.roots:
        x = P.I[i]
        if not x.get("body") or "::fmt" in x["name"] or is_test(x):
            continue
        run = Run(P, i)
        if run.err:
            res.und(x["name"], run.err)
            continue
        res.n("functions")
        res.n("obligations", sum(run.e.obl.values()))
        res.funcs.add(x["name"])
        if generic_buffers(x):
            # crate-internal view over an arbitrary implementation of the buffer traits: decided above for slices
            continue
        report_panics(res, run)
    return dict(rule="no panic, failed assertion, out-of-range index, arithmetic overflow or unreachable/todo is reachable "
                "from the server entry points (both buffer modes, constructor), the buffer implementations or the "
                "generator helpers, for any argument and any behaviour of Drbg/EntropySource",
                assumptions=["the platform's own Drbg/EntropySource implementations return normally"],
                floors={"entry points": 3, "functions": 20})


def is_test(x):
    return "::tests::" in x["name"]


def generic_buffers(x):
    return bool(re.search(r"req_resp::|handler::|tpmctx::|InOutBuffer|SeparateBuffers", x["name"]))


def S02(res, tier):
    for sv, s, F, ln, n in each(res):
        nm = sv.name
        if F.eq0(n):
            res.n("empty replies")
            if not F.le0(sv.rlen - (HDR - 1)):
                res.bad(f"empty:{nm}", f"{nm} can report no response although a response header fits")
            continue
        if not F.le0(n - sv.rlen):
            res.bad(f"overrun:{nm}", f"{nm} can report more response bytes than the buffer holds")
            continue
        if not F.le0(HDR - n):
            res.bad(f"short:{nm}", f"{nm} can report a response of fewer than {HDR} bytes")
            continue
        r = sv.reply(s, F)
        if r is None:
            res.und(nm, "reply bytes not representable")
            continue
        tag, size, code = r
        if not (F.eq0(tag[0] - 0x80) and (F.eq0(tag[1] - 1) or F.eq0(tag[1] - 2))):
            res.bad(f"tag:{nm}", f"{nm} can answer with a tag other than TPM_ST_NO_SESSIONS / TPM_ST_SESSIONS")
        if not F.eq0(size - n):
            res.bad(f"size:{nm}", f"{nm}: the size field of a reply can differ from the number of bytes reported ({size} / {n})"[:300])
        if F.eq0(code):
            res.n("successful replies")
            if not succeeded(F, s):
                res.bad(f"false-success:{nm}", f"{nm} can report success although the command failed or never ran")
            res.n("replies holding all that was produced")
            if not F.le0(sv.want + HDR - n):
                res.bad(f"cut:{nm}", f"{nm} can report a successful reply shorter than the data its command was asked for")
        elif F.ne0(code):
            res.n("error replies")
            if succeeded(F, s) and F.le0(sv.want + HDR - sv.rlen):
                res.bad(f"false-error:{nm}", f"{nm} can report an error although the command succeeded")
            if not F.le0(code - 0xFFF):
                res.bad(f"code:{nm}", f"{nm} can report a response code that is not a TPM response code")
            for what, conds, want in causes(sv, s, F, ln):
                for F2 in sv.given(F, conds):
                    res.n("error codes compared")
                    if not F2.eq0(code - want):
                        res.bad(f"code:{nm}:{what}", f"{nm}: {what} is not answered with its code {want:#05x}")
        else:
            res.bad(f"code:{nm}", f"{nm}: the response code is not determined by the outcome")
    return dict(rule="for every execution class: reported size 0 only if no header fits; otherwise 10 <= n <= buffer length, "
                "tag 0x8001/0x8002, big-endian size == n, and code zero exactly when the command's generator call succeeded, "
                "otherwise the response code of the cause; a successful reply holds all requested bytes",
                assumptions=["Drbg::fill_bytes writes only its destination"],
                floors={"entry points": 2, "error codes compared": 8, "successful replies": 2, "error replies": 4, "empty replies": 2})


def causes(sv, s, F, ln):
    """(cause of failure, its condition, response code)"""
    good = [c_le(HDR + 2 - ln), c_eq(sv.size - ln), c_eq(sv.code - GET_RANDOM)]
    out = [
        ("a request shorter than a header", [c_le(ln - (HDR - 1))], 0x142),
        ("a size field different from the bytes supplied", [c_le(HDR - ln), c_ne(sv.size - ln)], 0x142),
        ("an unknown command code", [c_le(HDR - ln), c_eq(sv.size - ln), c_ne(sv.code - GET_RANDOM)], 0x143),
        ("a response buffer too small for the data", good + [c_le(sv.rlen + 1 - sv.want - HDR)], 0x904),
    ]
    if any(plat(ev) in ("Drbg::fill_bytes", "Drbg::reseed") and ev_ok(F, ev[3]) is False for ev in s.events()):
        out.append(("a failure of the generator", good + [c_le(sv.want + HDR - sv.rlen)], 0x101))
    return out


def succeeded(F, s):
    ok = False
    for ev in s.events():
        p = plat(ev)
        if p == "Drbg::fill_bytes":
            ok = ev_ok(F, ev[3]) is True
        elif p == "Drbg::reseed" and ev_ok(F, ev[3]) is not True:
            return False
    return ok


def S03(res, tier):
    for sv, s, F0, ln, n in each(res):
        nm = sv.name
        runs = [plat(ev) for ev in s.events() if plat(ev)]
        table = [
            ("request shorter than a header", [c_le(ln - (HDR - 1))], 0x142),
            ("size field different from the bytes supplied", [c_le(HDR - ln), c_ne(sv.size - ln)], 0x142),
            ("unknown command code", [c_le(HDR - ln), c_eq(sv.size - ln), c_ne(sv.code - GET_RANDOM)], 0x143),
            ("GetRandom without its parameter", [c_le(ln - (HDR + 1)), c_le(HDR - ln), c_eq(sv.size - ln),
                                                 c_eq(sv.code - GET_RANDOM)], None),
        ]
        for what, conds, want in table:
            for F in sv.given(F0, conds):
                res.n("malformed classes")
                if runs:
                    res.bad(f"ran:{nm}:{what}", f"{nm}: {what} still reaches {runs[0]}")
                if F.eq0(n):
                    continue
                r = sv.reply(s, F)
                code = r and r[2]
                if want is not None and (code is None or not F.eq0(code - want)):
                    res.bad(f"code:{nm}:{what}", f"{nm}: {what} is not answered with {want:#05x}")
                elif code is None or not F.ne0(code):
                    res.bad(f"code:{nm}:{what}", f"{nm}: {what} is not answered with an error")
        # the only known command runs its own handler, for every well-formed request
        for F in sv.given(F0, [c_le(HDR + 2 - ln), c_eq(sv.size - ln), c_eq(sv.code - GET_RANDOM), c_eq(ln - 12),
                               c_le(sv.want + HDR - sv.rlen)]):
            res.n("well-formed classes")
            if "Drbg::fill_bytes" not in runs and not any(ev_ok(F, ev[3]) is False for ev in s.events() if plat(ev)):
                res.bad(f"refused:{nm}", f"{nm}: a well-formed GetRandom request is not executed")
    return dict(rule="each execution class is intersected with each kind of malformed request (short header, size mismatch, "
                "unknown code, missing parameter); a non-empty intersection must answer with that error and contain no "
                "Drbg/EntropySource call; well-formed GetRandom requests reach the generator",
                floors={"entry points": 2, "malformed classes": 8, "well-formed classes": 2})


def req_atoms(sv, s, F, n):
    """every request byte that influenced this execution: index of each element atom"""
    out, other = {}, {}
    seen = set()
    org = None
    a0 = sv.q[0].single()
    org = a0.key[1][1] if a0 is not None and a0.key[1][0] == "el" else None

    def aid(i):
        if i in seen:
            return
        seen.add(i)
        key(ATOMS[i].key if isinstance(i, int) else i)

    def key(k):
        if isinstance(k, Lin):
            for i, _ in k.t:
                aid(i)
        elif isinstance(k, tuple):
            if len(k) >= 3 and k[0] == "el":
                if k[1] == org:
                    out[k[2]] = 1
                else:
                    other[k] = 1
            if len(k) == 3 and k[0] == "x" and isinstance(k[1], int):
                aid(k[1])
            for x in k:
                key(x)
    for c in list(s.F.cons) + list(s.F.ne):
        key(c)
    for i in list(s.F.dom) + list(s.F.bools):
        aid(i)
    facts_other = dict(other)
    key(n)
    for ev in s.events():
        for a in ev[2] if ev[0] == "call" else ():
            if isinstance(a, Ref) and a.s is not None:
                key(a.s)
                key(a.n)
    return out, facts_other


def S04(res, tier):
    for sv, s, F, ln, n in each(res):
        nm = sv.name
        idx, other = req_atoms(sv, s, F, n)
        for i in idx:
            res.n("request bytes read")
            i = i if isinstance(i, Lin) else K(i)
            if not (F.le0(i + 1 - ln) and F.le0(-i)):
                res.bad(f"bounds:{nm}:{i}", f"{nm}: request byte {i} influences the execution although the claimed request "
                        "may be shorter")
        for k in other:
            if k[1] and isinstance(k[1], tuple) and "fill_bytes" in str(k[1]):
                res.bad(f"reread:{nm}", f"{nm}: a byte already overwritten by the reply is read back as request")
        # the generator writes only inside the response, behind the header
        for ev in s.events():
            if plat(ev) == "Drbg::fill_bytes":
                d = ev[2][2]
                res.n("generator destinations")
                if not (isinstance(d, Ref) and d.s is not None):
                    res.und(nm, "generator destination not a slice")
                    continue
                if d.obj == sv.resp.obj and not (F.le0(HDR - d.s) and F.le0(d.s + d.n - sv.rlen)):
                    res.bad(f"dest:{nm}", f"{nm}: the generator writes over the response header or past the buffer")
    prims(res)
    # the same request is treated alike in both modes: same code for every class (S03's table per mode), and
    # the same handler call
    a = {nm: mode_table(res, nm) for nm in BOTH}
    if all(v is not None for v in a.values()):
        x, y = a[BOTH[0]], a[BOTH[1]]
        res.n("mode classes compared", len(x))
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                res.bad(f"modes:{k}", f"{k}: separate buffers give {sorted(x.get(k, []))}, in-place gives {sorted(y.get(k, []))}")
    return dict(rule="every request byte on which a branch, a size or a generator call depends has an index below the claimed "
                "request length; nothing depends on bytes the reply already overwrote; both buffer modes map each request "
                "class to the same set of answers",
                floors={"entry points": 2, "request bytes read": 10, "mode classes compared": 6, "buffer operations": 3})


def mode_table(res, nm):
    sv = Server(nm)
    if sv.run.err:
        return None
    out = {}
    for s, n in sv.run.outs:
        if opaque(s):
            return None
        for conds, ln in sv.lens:
            for F0 in sv.given(s.F, conds):
                cls = [
                    ("no header", [c_le(ln - 9)]),
                    ("size mismatch", [c_le(HDR - ln), c_ne(sv.size - ln)]),
                    ("unknown code", [c_le(HDR - ln), c_eq(sv.size - ln), c_ne(sv.code - GET_RANDOM)]),
                    ("no parameter", [c_le(HDR - ln), c_le(ln - 11), c_eq(sv.size - ln), c_eq(sv.code - GET_RANDOM)]),
                    ("GetRandom too long for the buffer", [c_le(12 - ln), c_eq(sv.size - ln), c_eq(sv.code - GET_RANDOM),
                                                           c_le(sv.rlen + 1 - sv.want - HDR), c_le(12 - sv.rlen)]),
                    ("GetRandom", [c_le(12 - ln), c_eq(sv.size - ln), c_eq(sv.code - GET_RANDOM),
                                   c_le(sv.want + HDR - sv.rlen)]),
                ]
                for what, cc in cls:
                    for F in sv.given(F0, cc + [c_le(HDR - sv.rlen)]):
                        r = None if F.eq0(n) else sv.reply(s, F)
                        if r is None:
                            v = "nothing"
                        else:
                            c = r[2].const
                            v = f"{c:#x}" if c is not None else "?"
                        ops = [plat(ev) for ev in s.events() if plat(ev)]
                        out.setdefault(what, set()).add((v, " ".join(ops)))
    return out


def seeded(e, s, upto):
    """objects whose every byte the entropy source has filled by the time of event `upto`:
    {object: origin of the content the filling left}"""
    view, full = {}, {}
    for ev in s.events():
        if ev is upto:
            break
        if ev[0] != "call":
            continue
        if ev[1].endswith("AsMut::as_mut") and isinstance(ev[2][0], Ref):
            view[ev[3]] = (ev[2][0].obj, ev[2][0].path)
        elif plat(ev) == "EntropySource::fill_entropy":
            d = ev[2][1]
            if isinstance(d, Ref) and d.s is not None:
                n = e.get(s, d.obj).n if d.obj in s.mem else None
                o = d.obj[1] if d.obj[0] == "ext" else None
                whole = s.F.eq0(d.s) and (n is not None and s.F.eq0(d.n - n))
                if o in view and whole:
                    full[view[o]] = (o, view[o][0], view[o][1])
                elif o not in view and whole:
                    full[(d.obj, ())] = None
    return full


def is_filled(e, s, ev, j, full):
    a = ev[2][j]
    if not isinstance(a, Ref):
        return None
    k = (a.obj, a.path)
    if k not in full:
        return False
    o = full[k]
    v = ev[4][j] if len(ev) > 4 else None
    if o is not None and isinstance(v, Unk):
        return v.o == o
    return True if v is None or o is None else (v.o == o if isinstance(v, Unk) else False)


def S05(res, tier):
    sv = Server("server_new", snap=True)
    if sv.run.err:
        res.und("server_new", sv.run.err)
    e = sv.e
    for s, v in sv.run.outs:
        op = opaque(s)
        if op:
            res.und("server_new:" + op, "not modelled")
            continue
        inst = [ev for ev in s.events() if plat(ev) == "Drbg::instantiate"]
        ok = is_ok(e, v, s.F)
        if ok is not False and len(inst) == 0:
            res.bad("new:noinst", "a server context is created without instantiating its generator")
        for ev in inst:
            res.n("instantiations")
            full = seeded(e, s, ev)
            for j, what in ((0, "seed"), (1, "nonce")):
                if is_filled(e, s, ev, j, full) is False:
                    res.bad(f"new:{what}", f"the generator is instantiated from a {what} the entropy source did not fill completely")
            if ok is not False and ev_ok(s.F, ev[3]) is not True:
                res.bad("new:err", "a server context is created although instantiating the generator failed")
    for sv, s, F, ln, n in each(res, snap=True):
        nm, e = sv.name, sv.e
        evs = s.events()
        need = None
        fresh = None
        done = None
        for ev in evs:
            p = plat(ev)
            if p == "Drbg::requires_reseeding":
                need = asked(F, ev[3])
                fresh = False
                if need is None:
                    res.bad(f"ignored:{nm}", f"{nm}: the generator's reseed demand is not looked at")
            elif p == "Drbg::reseed":
                res.n("reseeds")
                full = seeded(e, s, ev)
                if is_filled(e, s, ev, 1, full) is False:
                    res.bad(f"reseed:{nm}", f"{nm}: the generator is reseeded from a seed the entropy source did not fill completely")
                if ev_ok(F, ev[3]) is True:
                    fresh = True
            elif p and p.startswith("Drbg::") and p.rsplit("::")[-1] in ("fill_bytes", "next_u32", "next_u64"):
                res.n("generator calls")
                if fresh is None:
                    res.bad(f"unasked:{nm}", f"{nm}: output is drawn without asking whether the generator needs reseeding")
                elif need is not False and not fresh:
                    res.bad(f"stale:{nm}", f"{nm}: output is drawn although the generator demanded reseeding and no reseed succeeded")
                done = ev
        if F.eq0(n):
            continue
        r = sv.reply(s, F)
        if r is None or not F.eq0(r[2]):
            continue
        res.n("successful replies")
        if done is None or ev_ok(F, done[3]) is not True:
            res.bad(f"failure:{nm}", f"{nm}: success is reported although the generator failed")
            continue
        if not F.eq0(n - HDR - sv.want):
            res.bad(f"amount:{nm}", f"{nm}: a successful reply does not carry the requested number of bytes")
        arr = e.get(s, sv.resp.obj)
        for st_, ln_, c in e.pieces(arr, K(HDR), n, F):
            if c[0] == "amb":
                res.und(nm, "reply layout")
            elif not (c[0] == "unk" and isinstance(c[1], tuple) and c[1][0] == done[3]):
                res.bad(f"bytes:{nm}", f"{nm}: a successful reply contains bytes the generator did not produce")
    return dict(rule="Drbg::instantiate only with seed and nonce objects wholly filled by EntropySource::fill_entropy; on every "
                "path requires_reseeding is inspected before output is drawn, and true implies a successful reseed from a "
                "seed filled on that path; success replies imply Ok from the generator and consist only of its output",
                assumptions=["as_mut() of the seed and nonce types exposes all their bytes"],
                floors={"instantiations": 1, "reseeds": 2, "generator calls": 2, "successful replies": 2})


def asked(F, o):
    """value of a boolean result on this path"""
    return F.bools.get(o)


def payload(e, o):
    """the Ok value of an underlying call, or None if its result was never opened"""
    for a in ATOMS:
        if a is not None and a.key[0] == "d" and a.key[2] == o:
            return e.unk_field(Unk(a.key[1], o), 0, 0)
    return None


def le_bytes(e, v, w):
    b = vals.lin_bits(v, 8 * w)
    return [b[8 * j:8 * j + 8] for j in range(w)]


WIDTHS = {"Drbg::next_u32": 4, "Drbg::next_u64": 8}


def S06(res, tier):
    P = prog("tpm2_impl")
    for i in P.roots:
        x = P.I[i]
        m = re.search(r"helpers::(fill_bytes_via_next|next_u32_via_fill|next_u64_via_fill|next_u64_via_u32)", x["name"])
        if not m or not x.get("body"):
            continue
        helper(res, P, i, m.group(1))
        if m.group(1) == "fill_bytes_via_next" and any(k.startswith(m.group(1)) for k in res.undecided):
            # not decidable for destinations of any length: particular lengths may be
            for k in (0, 1, 3, 4, 5, 7, 8, 9, 12, 13, 16, 20, 23, 24, 33):
                r = Result()
                helper(r, P, i, m.group(1), k)
                for f in r.findings.values():
                    res.bad(f.key, f.msg + f" (destination of {k} bytes)", f.loc)
                res.n("retried with a particular length")
    return dict(rule="for every path of each helper: the caller's additional input goes to the first underlying call and nothing to "
                "later ones; a failed call is the last one and makes the helper fail, success means every call succeeded; the "
                "result is the concatenation of the underlying outputs in call order, least significant byte first, covering "
                "every requested byte",
                floors={"helpers": 4, "successful paths": 4, "failing paths": 4})


def helper(res, P, i, nm, pin=None):
    def setup(e, st, args):
        if pin is not None:
            args[2] = wire.mk_buf(e, st, "dest", K(pin))
    run = Run(P, i, opts={"join": False}, setup=setup)
    e = run.e
    where = short_span(P.I[i].get("span"))
    if run.err:
        res.und(nm, run.err)
        return
    res.n("helpers")
    res.funcs.add(run.name)
    report_panics(res, run)
    add = run.args[1]
    for s, v in run.outs:
        F = s.F
        if opaque(s):
            res.und(nm + ":" + opaque(s), "not modelled")
            continue
        ok = is_ok(e, v, F)
        if ok is None:
            res.und(nm, "result not determined")
            continue
        seq = []          # (event, repeat count atom or None, facts)
        strange = False
        for ev in s.events():
            if plat(ev):
                seq.append((ev, None, F))
            elif ev[0] == "star":
                bodies = ev[1].bodies
                if len(bodies) != 1 or len([1 for y in bodies[0][0] if plat(y)]) > 1:
                    strange = True
                    continue
                for y in bodies[0][0]:
                    if plat(y):
                        seq.append((y, ev[2], bodies[0][1].F))
        if strange:
            res.und(nm, "loop with several underlying calls per round")
            continue
        res.n("successful paths" if ok else "failing paths")
        first = True
        for n_, (ev, k, G) in enumerate(seq):
            a = ev[2][1]
            if isinstance(a, Ref) and a.s is not None:
                if first:
                    if not (a.obj == add.obj and F.eq0(a.s) and F.eq0(a.n - add.n)):
                        res.bad(f"input:{nm}", f"{nm} does not pass the caller's additional input to the first underlying call", where)
                elif not F.eq0(a.n):
                    res.bad(f"again:{nm}", f"{nm} passes additional input to a later underlying call", where)
            if first and k is not None and isinstance(a, Ref) and a.s is not None and not F.eq0(a.n) and not F.le0(k - 1):
                res.bad(f"again:{nm}", f"{nm} passes the additional input to every underlying call", where)
            first = False
            r = ev_ok(G, ev[3])
            last = n_ == len(seq) - 1
            if r is None:
                res.bad(f"dropped:{nm}", f"{nm} does not look at the result of {plat(ev)}", where)
            elif r is False and not last:
                res.bad(f"continue:{nm}", f"{nm} goes on after {plat(ev)} failed", where)
            elif r is False and ok:
                res.bad(f"swallowed:{nm}", f"{nm} reports success although {plat(ev)} failed", where)
        if not ok:
            if not any(ev_ok(G, ev[3]) is False for ev, k, G in seq):
                res.bad(f"spurious:{nm}", f"{nm} fails although no underlying call failed", where)
            continue
        if pin is not None:
            spelled(res, e, s, run.args[2], seq, nm, where)
            continue
        if nm == "fill_bytes_via_next":
            filled(res, e, s, run.args[2], seq, nm, where)
            continue
        w = 4 if "next_u32_via" in nm else 8
        out = e.expand(v, 0).f[0] if isinstance(v, Unk) else v.f[0]
        got = le_bytes(e, out, w)
        want = []
        for ev, k, G in seq:
            if plat(ev) == "Drbg::fill_bytes":
                d = ev[2][2]
                for j in range(d.n.const or 0):
                    c = e.mk_unk(byte_ty(P), ("el", (ev[3], d.obj), d.s + j))
                    want.append(vals.lin_bits(c, 8))
            else:
                p = payload(e, ev[3])
                want += le_bytes(e, p, WIDTHS[plat(ev)]) if p is not None else []
        if got != want:
            res.bad(f"value:{nm}", f"{nm} does not return its underlying output in little-endian order", where)


def byte_ty(P):
    return next(i for i, t in enumerate(P.T) if t["k"] == "int" and t["s"] == "u8" or t.get("s") == "u8")


def spelled(res, e, s, dest, seq, nm, where):
    """a destination of known length is the underlying outputs one after the other, of the last one perhaps only the beginning"""
    arr = e.get(s, dest.obj)
    got = [e.arr_read(arr, K(j), s.F) for j in range(dest.n.const)]
    at = 0
    for ev, k, G in seq:
        w, p = WIDTHS.get(plat(ev)), payload(e, ev[3])
        if k is not None or w is None or p is None or not all(isinstance(x, Lin) for x in got):
            res.und(nm, "fills from " + str(plat(ev)))
            return
        n = 0
        for b in le_bytes(e, p, w):
            if at + n < len(got) and vals.lin_bits(got[at + n], 8) == b:
                n += 1
            else:
                break
        if not n:
            res.bad(f"bytes:{nm}", f"{nm} does not lay out the output of {plat(ev)} in little-endian order", where)
            return
        at += n
    if at < len(got):
        res.bad(f"hole:{nm}", f"{nm} succeeds although byte {at} of the destination is not the next byte of its underlying outputs", where)
    res.n("destinations compared")


def filled(res, e, s, dest, seq, nm, where):
    F = s.F
    arr = e.get(s, dest.obj)
    ps = e.pieces(arr, ZERO, dest.n, F) if not F.le0(dest.n) else []
    if any(c[0] == "amb" for _, _, c in ps):
        res.und(nm, "destination layout")
        return
    for st, n, c in ps:
        if c[0] == "unk" and c[1] == ("*", ("arg", 2)) and F.le0(1 - n):
            res.bad(f"hole:{nm}", f"{nm} succeeds leaving destination bytes [{st}, +{n}) unwritten"[:200], where)
            return
    if len(ps) != len(seq):
        bad = len(ps) < len(seq)
        (res.bad if bad else lambda a, b, c: res.und(a, b))(
            f"count:{nm}", f"{nm}: {len(seq)} underlying calls produce {len(ps)} stretches of the destination", where)
        return
    for (st, n, c), (ev, k, G) in zip(ps, seq):
        w = WIDTHS.get(plat(ev))
        p = payload(e, ev[3])
        if w is None or p is None:
            res.und(nm, "fills from " + str(plat(ev)))
            return
        want = le_bytes(e, p, w)
        if c[0] == "part" and F.eq0(c[2]):
            c = c[1]
        if k is not None:
            if c[0] != "star" or c[1].const is None:
                res.und(nm, "loop output")
                return
            if c[1].const != w or not F.eq0(n - k.scale(w)):
                res.bad(f"stride:{nm}", f"{nm} advances by {c[1]} bytes per {w}-byte output", where)
                return
            cover = {}
            for a, m, it in c[2]:
                for j in range(m.const or 0):
                    v = e.content_el(arr.ety, it, K(j), G)
                    cover[a.const + j] = vals.lin_bits(subst_k(v, k), 8)
            got = [cover.get(j) for j in range(w)]
        else:
            if not F.le0(n - w):
                res.bad(f"stretch:{nm}", f"{nm} stretches one {w}-byte output over more bytes", where)
                return
            hi = next(h for h in range(w + 1) if F.le0(n - h))
            got = [vals.lin_bits(e.content_el(arr.ety, c, K(j), F), 8) for j in range(hi)]
            want = want[:hi]
        if got != want:
            res.bad(f"bytes:{nm}", f"{nm} does not lay out the output of {plat(ev)} in little-endian order", where)
        res.n("stretches compared")


def subst_k(v, k):
    from absint.mem import subst, kph
    return subst(v, {kph().id: k})


def prims(res):
    """the slice implementations of the buffer traits, over every offset and length"""
    P = prog("vp_probe")
    for i, x in enumerate(P.I):
        m = re.match(r"<(\[u8\]|.*InOutBuffer<'_, \[u8\]>) as .*Tpm(Read|Write)Buffer>::(read_into|write|write_callback)(::<|$)", x["name"])
        if not m or not x.get("body"):
            continue
        who, kind = m.group(1), m.group(3)
        run = Run(P, i, opts={"join": False})
        e = run.e
        where = short_span(x.get("span"))
        if run.err:
            res.und(x["name"][:60], run.err)
            continue
        res.n("buffer operations")
        inout = who != "[u8]"
        off = run.args[1]
        st0 = St({}, Facts())
        if inout:
            me = e.load(st0, run.args[0])
            me = e.expand(me) if isinstance(me, Unk) else me
            buf, lim = None, None
            for f, fv in zip(P.T[me.ty]["variants"][0]["fields"], me.f):
                if isinstance(fv, Lin):
                    lim = fv
                elif isinstance(fv, Ref):
                    buf = fv
            if buf is None or lim is None:
                res.und(x["name"][:60], "in-place view has an unfamiliar shape")
                continue
        else:
            buf, lim = run.args[0], run.args[0].n
        n = run.args[2] if kind == "write_callback" else run.args[2].n
        for s, v in run.outs:
            F = s.F
            ok = is_ok(e, v, F)
            if opaque(s) or ok is None:
                res.und(x["name"][:60], opaque(s) or "result")
                continue
            res.n("buffer operation classes")
            inside = F.le0(off + n - lim)
            if ok and not inside:
                res.bad(f"{kind}:range:{who[-12:]}", f"{kind} succeeds for a range outside the buffer", where)
                continue
            if not ok:
                # must be outside: assuming inside is contradictory
                G = e.assume(F, c_le(off + n - lim))
                G = [g for h in G for g in e.assume(h, c_le(lim - buf.n))]
                if any(g.feasible() for g in G):
                    res.bad(f"{kind}:refuse:{who[-12:]}", f"{kind} refuses a range inside the buffer", where)
                if s.events():
                    res.bad(f"{kind}:called:{who[-12:]}", f"{kind} runs its callback although it refuses the range", where)
                continue
            if kind == "read_into":
                out = run.args[2]
                a = e.get(s, out.obj)
                if F.le0(n):
                    continue
                sm = wire.same(e, F, wire.canon(e, a, ZERO, n, F), window(e, F, buf, off, n))
                if sm is None:
                    res.und(who, "delivered bytes not comparable")
                elif not sm:
                    res.bad(f"{kind}:data:{who[-12:]}", f"{kind} does not deliver the bytes at the requested offset", where)
            elif kind == "write":
                a = e.get(s, buf.obj)
                if F.le0(n):
                    continue
                sm = wire.same(e, F, wire.canon(e, a, off, off + n, F), window(e, F, run.args[2], ZERO, n))
                if sm is None:
                    res.und(who, "stored bytes not comparable")
                elif not sm:
                    res.bad(f"{kind}:data", f"{kind} does not store the given bytes at the requested offset", where)
    return


def window(e, F, ref, off, n):
    """the bytes [off,off+n) of what a slice argument held on entry"""
    return wire.canon(e, e.arr_of(St({}, Facts()), ref), ref.s + off, ref.s + off + n, F)


def org(ref):
    return ("*", ref.obj[1])


def _be(i, w):
    """big-endian request reads at a symbolic offset"""
    from . import codec
    res = Result()
    P = prog("vp_probe")
    run = Run(P, i, opts={"join": False})
    e = run.e
    if run.err:
        res.und(run.name, run.err)
        return res
    res.n("integer codecs")
    st0 = St({}, Facts())
    for s, v in run.outs:
        if opaque(s):
            res.und(run.name, opaque(s))
            continue
        if is_ok(e, v, s.F) is not True:
            continue
        v = e.expand(v, 0) if isinstance(v, Unk) else v
        arr = e.arr_of(st0, run.args[0])
        if vals.lin_bits(v.f[0], 8 * w) != codec.be_bits(e, arr, run.args[1], w, s.F):
            res.bad(f"bytes:{run.name}", f"{run.name} does not read its {w} bytes most significant first", short_span(run.x.get("span")))
        res.n("byte orders compared")
    return res


def int_jobs():
    P = prog("vp_probe")
    out = []
    for i, x in enumerate(P.I):
        m = re.match(r"<\[u8\] as .*TpmReadBuffer>::read_be_u(16|32)$", x["name"])
        if m and x.get("body"):
            out.append((_be, (i, int(m.group(1)) // 8)))
    return out
