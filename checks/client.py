"""L01-L06: the client (command assembly, sessions, response parsing, password sessions)."""
from . import server, wire
from .core import *
from .server import opaque, ev_ok, join_be, c_ne, c_eq, c_le
from absint import vals

ROOTS = {"client_default": 0, "client_s0": 0, "client_s1": 1, "client_s2": 2, "client_s3": 3}
ST_NO, ST_YES = 0x8001, 0x8002


def deep(e, a, s, n, F, depth=0):
    """pieces of [s, s+n) with plain copies of other arrays resolved"""
    out = []
    for st, ln, c in e.pieces(a, s, s + n, F):
        if c[0] == "copy" and isinstance(c[1], Arr) and depth < 6:
            out += [(x - c[2] + st, y, z) for x, y, z in deep(e, c[1], c[2], ln, F, depth + 1)]
        else:
            out.append((st, ln, c))
    return out


def at(e, a, pos, F, depth=0):
    """byte at a position, copies resolved"""
    return e.arr_read(a, pos, F)


def be_at(e, a, pos, w, F):
    bs = [at(e, a, pos + j, F) for j in range(w)]
    if any(not isinstance(b, Lin) for b in bs):
        return None
    return join_be(bs, F)


def simple(nm):
    return nm.rsplit("::", 1)[-1].rstrip(">")


def leaf(v):
    """the only integer inside a value"""
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v if isinstance(v, Lin) else None


def sessions_of(e, run, k):
    """the session values the caller supplied, in order"""
    if k == 0:
        return []
    a = run.args[2]
    if k == 1:
        return [a]
    x = e.expand(a) if isinstance(a, Unk) else a
    return list(x.f)


class Sink:
    def __init__(self, only, res):
        self.only, self.res = only, res

    def bad(self, pid, key, msg):
        if pid == self.only:
            self.res.bad(key, msg, "crates/tpm2-client/src/lib.rs")

    def n(self, pid, what, k=1):
        if pid == self.only:
            self.res.n(what, k)

    def und(self, key, why):
        self.res.und(key, why)


def walk(pid, res):
    P = prog("vp_probe")
    k = Sink(pid, res)
    for i in P.roots:
        m = re.match(r"client::(client_\w+)", P.I[i]["name"])
        if not m or m.group(1) not in ROOTS:
            continue
        nm = m.group(1)
        run = Run(P, i, opts={"inline_leaves": 6, "join": False, "snap": True})
        if run.err:
            res.und(nm, run.err)
            continue
        res.n("entry points")
        for f in run.e.visited:
            if isinstance(f, int):
                res.funcs.add(strip_generics(run.e.I[f]["name"]))
        if pid == "L04":
            report_panics(res, run)
            res.n("obligations", sum(run.e.obl.values()))
            continue
        seen = set()
        for s, v in run.outs:
            op = opaque(s)
            if op:
                res.und(f"{nm}:{op}", "depends on a library call that is not modelled")
                continue
            res.n("execution classes")
            one(k, run, nm, ROOTS[nm], s, v, seen)


def one(k, run, nm, ns, s, v, seen):
    e, F = run.e, s.F
    evs = s.events()
    tx = [(i, ev) for i, ev in enumerate(evs) if ev[0] == "call" and ev[1].endswith("Connection::transact")]
    ok = is_ok(e, v, F)
    if ok is None:
        k.und(nm, "result not determined")
        return
    if len(tx) > 1:
        k.bad("L01", f"twice:{nm}", f"{nm} can send a command twice")
    if not tx:
        if ok:
            k.bad("L03", f"nosend:{nm}", f"{nm} can report success without talking to the TPM")
        k.n("L01", "commands never sent")
        return
    i, t = tx[0]
    sess = sessions_of(e, run, ns)
    command(k, run, nm, ns, s, evs[:i], t, sess)
    response(k, run, nm, ns, s, v, ok, evs[i + 1:], t, sess)


def command(k, run, nm, ns, s, before, t, sess):
    e, F = run.e, s.F
    for ev in before:
        if ev[0] == "ENCERR":
            k.bad("L01", f"unfit:{nm}", f"{nm} sends a command although encoding its {simple(ev[1])} failed")
    ref, arr = t[2][1], t[4][1]
    if not isinstance(arr, Arr) or not isinstance(ref, Ref):
        k.und(nm, "command argument")
        return
    n = ref.n
    if not F.le0(10 - n):
        k.bad("L01", f"short:{nm}", f"{nm} can send fewer bytes than a command header")
        return
    k.n("L01", "commands sent")
    tag, size, code = be_at(e, arr, ZERO, 2, F), be_at(e, arr, K(2), 4, F), be_at(e, arr, K(6), 4, F)
    want = ST_YES if ns else ST_NO
    if tag is None or not F.eq0(tag - want):
        k.bad("L01", f"tag:{nm}", f"{nm} with {ns} session(s) does not send tag {want:#06x}")
    if size is None or not F.eq0(size - n):
        k.bad("L01", f"size:{nm}", f"{nm}: the command's size field can differ from the number of bytes sent")
    a = code.single() if code is not None else None
    if a is None or "CMD_CODE" not in str(a.key):
        k.bad("L01", f"code:{nm}", f"{nm} does not send the command's own code")
    ps = deep(e, arr, K(10), n - 10, F)
    if any(c[0] in ("amb", "part") for _, _, c in ps):
        k.und(nm, "command layout cannot be decided")
        return
    # handles
    pos = K(10)
    encs = []
    for st, ln, c in ps:
        encs.append((st, ln, c))
    idx = 0

    def take():
        nonlocal idx
        if idx < len(encs):
            idx += 1
            return encs[idx - 1]
        return None, None, ("none",)

    def empty(match):
        """an encoding known to be zero bytes long leaves no piece behind"""
        nonlocal idx
        for ev in before:
            if ev[0] == "ENC" and match(("enc", ev[1], ev[2])) and F.eq0(ev[4]):
                idx = max(idx - 1, 0) if st is not None else idx
                return ZERO
        return None

    st, ln, c = take()
    if nm == "client_default":
        hv = [ev[3] for ev in before if ev[0] == "call" and ev[1].endswith("Default::default")]

        def handles(c):
            return c[0] == "enc" and simple(c[1]) == "Handles" and isinstance(c[2], Unk) and c[2].o in hv
    else:

        def handles(c):
            return c[0] == "enc" and simple(c[1]) == "Handles" and c[2] == run.args[1]
    if handles(c):
        pass
    elif (ln := empty(handles)) is None:
        k.bad("L01", f"handles:{nm}", f"{nm}: the command's handles do not directly follow its header")
        return
    pos = pos + ln
    if ns:
        auth = be_at(e, arr, pos, 4, F)
        # skip the pieces of the size field
        got = ZERO
        while idx < len(encs) and F.le0(got - 3) and not (encs[idx][2][0] == "enc" and "AuthCommand" in encs[idx][2][1]):
            got = got + encs[idx][1]
            idx += 1
        if not F.eq0(got - 4):
            k.bad("L02", f"authsize:{nm}", f"{nm}: the authorization area is not preceded by a 4-byte length")
            return
        pos = pos + 4
        start = pos
        calls = [ev for ev in before if ev[0] == "call" and ev[1].endswith("Session::get_auth_command")]
        for j in range(ns):
            st, ln, c = take()
            if not (c[0] == "enc" and simple(c[1]) == "TpmsAuthCommand"):
                k.bad("L02", f"missing:{nm}:{j}", f"{nm}: session {j + 1} of {ns} is not written to the authorization area")
                return
            call = next((ev for ev in calls if isinstance(c[2], Unk) and ev[3] == c[2].o), None)
            if call is None:
                k.bad("L02", f"foreign:{nm}:{j}", f"{nm}: authorization {j + 1} does not come from a supplied session")
            elif call[4][0] != sess[j]:
                k.bad("L02", f"order:{nm}:{j}", f"{nm}: authorization {j + 1} comes from another session than the caller's session {j + 1}")
            pos = pos + ln
            k.n("L02", "authorizations sent")
        if auth is None or not F.eq0(auth - (pos - start)):
            k.bad("L02", f"authlen:{nm}", f"{nm}: the authorization size field can differ from the length of the authorization area")
    st, ln, c = take()
    if c[0] == "enc" and "AuthCommand" in c[1]:
        k.bad("L02", f"extra:{nm}", f"{nm} sends an authorization no supplied session accounts for")
        return
    me = e.load(St({}, Facts()), run.args[0])

    def params(c):
        return c[0] == "enc" and c[1] == "C" and c[2] == me
    if params(c):
        pass
    elif (ln := empty(params)) is None:
        k.bad("L01", f"params:{nm}", f"{nm}: the command's parameters do not follow its {'authorization area' if ns else 'handles'}")
        return
    pos = pos + ln
    if idx != len(encs) or not F.eq0(pos - n):
        k.bad("L01", f"trail:{nm}", f"{nm}: the bytes sent do not end with the command's parameters")
    k.n("L01", "command layouts followed")


def response(k, run, nm, ns, s, v, ok, after, t, sess):
    e, F = run.e, s.F
    o = t[3]
    sent_ok = ev_ok(F, o)
    if sent_ok is None:
        k.bad("L03", f"unchecked:{nm}", f"{nm} does not look at the connection's result")
        return
    if sent_ok is False:
        if ok:
            k.bad("L03", f"conn:{nm}", f"{nm} reports success although the connection failed")
        else:
            k.n("L03", "connection failures")
            p = v.f[0] if isinstance(v, Agg) else None
            if not (isinstance(p, Unk) and p.o[0] == o):
                k.bad("L03", f"connerr:{nm}", f"{nm} does not return the connection's own error")
        return
    # the received slice
    pay = server.payload(e, o)
    R = e.as_ref(pay, None) if not isinstance(pay, Ref) else pay
    if not isinstance(R, Ref) or R.s is None:
        k.und(nm, "received slice")
        return
    ra = e.arr_of(St({}, Facts()), R)
    rl = R.n
    tag, size, rc = (be_at(e, ra, K(p), w, Facts()) for p, w in ((0, 2), (2, 4), (6, 4)))
    # L05: nothing else of the receive buffer is looked at
    buf = t[2][2]
    for ev in after:
        if ev[0] in ("DEC", "DECERR"):
            r = ev[3] if ev[0] == "DEC" else next((x for x in ev if isinstance(x, Ref)), None)
            if ev[0] == "DEC":
                k.n("L05", "decodings")
            if isinstance(r, Ref) and r.obj != R.obj:
                k.bad("L05", f"stale:{nm}:{simple(ev[1])}", f"{nm} decodes {simple(ev[1])} from the receive buffer instead of the bytes received")
            elif isinstance(r, Ref) and not (F.le0(-r.s) and F.le0(r.s + r.n - rl)):
                k.bad("L05", f"beyond:{nm}:{simple(ev[1])}", f"{nm} decodes {simple(ev[1])} beyond the bytes received")
    for org in origins(s):
        if isinstance(org, tuple) and len(org) == 2 and org[0] == o and org[1] == buf.obj:
            k.bad("L05", f"facts:{nm}", f"{nm}: a decision depends on receive-buffer bytes outside the slice received")
    for c in [x for x in [F]]:
        if F.le0(10 - rl):
            for G in e.assume(F, c_ne(rc)):
                if not G.feasible():
                    continue
                k.n("L03", "error responses")
                if ok:
                    k.bad("L03", f"rc:{nm}", f"{nm} reports success for a response with a non-zero response code")
                    continue
                p = v.f[0] if isinstance(v, Agg) else None
                src = [ev for ev in after if ev[0] == "call" and ev[1].endswith("From::from") and isinstance(p, Unk) and ev[3] == p.o]
                l = leaf(src[0][2][0]) if src else leaf(p) if p is not None else None
                if l is None:
                    k.und(nm, "error value")
                elif not G.eq0(l - rc):
                    k.bad("L03", f"code:{nm}", f"{nm} does not return the response code of a failed command as its error")
    if not ok:
        k.n("L03", "refusals")
        return
    if not F.eq0(rc):
        k.bad("L03", f"rcok:{nm}", f"{nm} reports success without having established a zero response code")
    if not (F.le0(size - rl) and F.le0(10 - size)):
        k.bad("L03", f"declared:{nm}", f"{nm} accepts a response whose declared size exceeds the bytes received (or is below a header)")
    decs = [ev for ev in after if ev[0] == "DEC"]
    if any(ev[0] == "DECERR" for ev in after):
        k.bad("L03", f"decerr:{nm}", f"{nm} reports success although decoding the response failed")
        if any(ev[0] == "DECERR" and simple(ev[1]) == "TpmsAuthResponse" for ev in after):
            k.bad("L02", f"undecoded:{nm}", f"{nm} reports success although the response of a session could not be decoded")
        return
    # follow the decodings: contiguous, ending at the declared size
    pos = ZERO
    seq = []
    for ev in decs:
        r = ev[3]
        if not isinstance(r, Ref) or r.obj != R.obj:
            return
        if not F.eq0(r.s - pos):
            k.bad("L03", f"gap:{nm}:{simple(ev[1])}", f"{nm} does not decode {simple(ev[1])} right behind the preceding field")
            return
        pos = r.s + ev[4]
        seq.append(ev)
    if not F.eq0(pos - size):
        k.bad("L03", f"left:{nm}", f"{nm} reports success although decoding did not end exactly at the declared size")
    body = [ev for ev in seq if not F.le0(ev[3].s - 9)]
    names = [simple(ev[1]) for ev in body]
    j = 0
    rest = list(body)

    def nxt(name):
        if rest and simple(rest[0][1]) == name:
            return rest.pop(0)
        return None
    h = nxt("RespHandles")
    if h is None:
        k.bad("L03", f"rhandles:{nm}", f"{nm} does not decode the response handles behind the header")
        return
    psz = nxt("u32")
    if psz is not None and not F.eq0(tag - ST_YES):
        k.bad("L03", f"psize+:{nm}", f"{nm} skips a parameter size although the response may carry no sessions")
    if psz is None and not F.ne0(tag - ST_YES):
        k.bad("L03", f"psize-:{nm}", f"{nm} does not skip the parameter size of a response with sessions")
    p = nxt("RespT")
    if p is None:
        k.bad("L03", f"resp:{nm}", f"{nm} does not decode the response parameters behind the handles")
        return
    vals_ = [ev for ev in after if ev[0] == "call" and ev[1].endswith("Session::validate_auth_response")]
    for j in range(ns):
        a = nxt("TpmsAuthResponse")
        if a is None:
            k.bad("L02", f"unread:{nm}:{j}", f"{nm}: success without decoding the response of session {j + 1}")
            return
        mine = [ev for ev in vals_ if ev[4][0] == sess[j]]
        if not mine:
            k.bad("L02", f"unvalidated:{nm}:{j}", f"{nm}: success without asking session {j + 1} to validate its response")
            continue
        ev = mine[-1]
        if ev[4][1] != a[2]:
            k.bad("L02", f"wrong:{nm}:{j}", f"{nm}: session {j + 1} validates a response that is not its own")
        if ev_ok(F, ev[3]) is not True:
            k.bad("L02", f"rejected:{nm}:{j}", f"{nm}: success although session {j + 1} did not accept its response")
        k.n("L02", "responses validated")
    if rest:
        k.bad("L03", f"more:{nm}", f"{nm} decodes {simple(rest[0][1])} which no part of the response accounts for")
    out = e.expand(v, 0).f[0] if isinstance(v, Unk) else v.f[0]
    got = [out] if nm == "client_default" else list(out.f) if isinstance(out, Agg) else None
    want = [p[2]] if nm == "client_default" else [p[2], h[2]]
    if got is None:
        k.und(nm, "result value")
    elif got != want:
        k.bad("L03", f"result:{nm}", f"{nm} does not return the decoded response parameters and handles")
    k.n("L03", "successful responses")


def origins(s):
    """origins of array elements on which a fact of the path depends"""
    out, seen = set(), set()

    def key(k):
        if isinstance(k, Lin):
            for i, _ in k.t:
                aid(i)
        elif isinstance(k, tuple):
            if len(k) >= 3 and k[0] == "el":
                out.add(k[1])
            if len(k) == 3 and k[0] == "x" and isinstance(k[1], int):
                aid(k[1])
            for x in k:
                key(x)

    def aid(i):
        if i in seen:
            return
        seen.add(i)
        key(ATOMS[i].key if isinstance(i, int) else i)
    for c in list(s.F.cons) + list(s.F.ne):
        key(c)
    for i in list(s.F.dom) + list(s.F.bools):
        aid(i)
    return out


ASSUME = ["commands, handles and responses satisfy the codec contract decided by C02, C03 and C09",
          "Connection::transact returns a slice of the buffer it was given"]


def L01(res, tier):
    walk("L01", res)
    return dict(rule="at every reachable Connection::transact the bytes passed are followed from start to end: tag, size == length, the "
                "command's CMD_CODE, handles, authorization area iff sessions were supplied, parameters, nothing else; no encoding "
                "failure precedes it", assumptions=ASSUME, floors={"entry points": 5, "commands sent": 5, "command layouts followed": 5})


def L02(res, tier):
    walk("L02", res)
    areas(res)
    return dict(rule="authorization k in the area is get_auth_command() of the caller's k-th session, the area is preceded by its byte "
                "length; every success path decodes one response per session in order and ends with that session's Ok on it",
                assumptions=ASSUME, floors={"entry points": 5, "authorizations sent": 6, "responses validated": 6})


def areas(res):
    """decompose_ref of every tuple shape yields exactly the tuple's members in order"""
    P = prog("tpm2_client")
    for i in P.roots:
        x = P.I[i]
        if not x["name"].endswith("::decompose_ref") or not x.get("body"):
            continue
        run = Run(P, i, opts={"join": False})
        e = run.e
        where = short_span(x.get("span"))
        if run.err:
            res.und(x["name"], run.err)
            continue
        self_ = run.args[0]
        to = P.T[P.T[x["body"]["locals"][1]]["to"]] if P.T[x["body"]["locals"][1]].get("to") is not None else None
        tup = to is not None and to["k"] == "tuple"
        cnt = len(to["e"]) if tup else (1 if to is not None else None)
        if to is None or cnt is None:
            res.und(x["name"], "receiver")
            continue
        for s, v in run.outs:
            if not isinstance(v, Agg) or opaque(s):
                res.und(x["name"], "result")
                continue
            res.n("authorization areas")
            got = []
            for f in v.f:
                if isinstance(f, Ref):
                    got.append(f)
                elif isinstance(f, Agg) and f.var == 1:
                    got.append(f.f[0])
                elif isinstance(f, Agg) and f.var == 0:
                    got.append(None)
                else:
                    got.append("?")
            if "?" in got:
                res.und(x["name"], "member")
                continue
            for j, g in enumerate(got):
                want = (self_.path + (("f", j),)) if tup else self_.path
                if j < cnt:
                    if g is None or g.obj != self_.obj or tuple(g.path) != tuple(want):
                        res.bad(f"area:{x['name']}:{j}", f"{x['name']} does not hand out session {j + 1} at position {j + 1}", where)
                elif g is not None:
                    res.bad(f"area:{x['name']}:{j}", f"{x['name']} hands out a session that was not supplied", where)


def L03(res, tier):
    walk("L03", res)
    return dict(rule="on every path after transact: rc != 0 implies Err of exactly that code; Ok implies rc == 0, header <= declared size <= "
                "received length, fields decoded contiguously from the header to exactly the declared size, parameter size skipped iff the "
                "tag says sessions, and the returned values are those decoded; connection errors are returned unchanged",
                assumptions=ASSUME, floors={"entry points": 5, "error responses": 5, "successful responses": 5, "connection failures": 5})


def L04(res, tier):
    walk("L04", res)
    P = prog("tpm2_client")
    for i in P.roots:
        x = P.I[i]
        if not x.get("body") or not x.get("pub") or "::tests" in x["name"] or "::fmt" in x["name"] or "NoSession" in x["name"]:
            continue
        if "connection::tcp" in x["name"] or re.search(r"run_command|get_capability|write_command_sessions|read_response_sessions", x["name"]):
            continue
        run = Run(P, i)
        if run.err:
            res.und(x["name"], run.err)
            continue
        res.n("functions")
        res.n("obligations", sum(run.e.obl.values()))
        report_panics(res, run)
    return dict(rule="no panic, failed assertion, out-of-range slice or overflow is reachable in the client for any command, session set, "
                "connection behaviour and response bytes", assumptions=ASSUME + ["NoSession is never constructed (its field is private)"],
                floors={"entry points": 5, "functions": 8})


def L05(res, tier):
    walk("L05", res)
    return dict(rule="every decoding after transact reads the slice transact returned, within its bounds, and no branch depends on other "
                "bytes of the receive buffer", assumptions=ASSUME, floors={"entry points": 5, "decodings": 5})


RS_PW, SIZE_RC, CONT = 0x40000009, 0x095, 1


def fld(e, v, name):
    """named field of a record value"""
    if isinstance(v, Unk):
        v = e.expand(v)
    fs = e.T[v.ty]["variants"][0]["fields"]
    for j, f in enumerate(fs):
        if f["name"] == name:
            x = v.f[j]
            return e.expand(x) if isinstance(x, Unk) else x
    return None


def is_copy(e, F, arr, ref, n):
    """True if the first n elements of arr are the elements of the slice ref, in order"""
    want = e.arr_of(St({}, Facts()), ref)
    return wire.same(e, F, wire.canon(e, arr, ZERO, n, F), wire.canon(e, want, ref.s, ref.s + n, F))


def sized_parts(e, v):
    v = e.expand(v) if isinstance(v, Unk) else v
    ln = next((f for f in v.f if isinstance(f, Lin)), None)
    ar = next((f for f in v.f if isinstance(f, Arr)), None)
    return ln, ar


def L06(res, tier):
    P = prog("vp_probe")
    from .codec import sized
    caps = sized(P)
    for i in P.roots:
        m = re.match(r"client::(password_\w+)", P.I[i]["name"])
        if not m:
            continue
        nm = m.group(1)
        run = Run(P, i, opts={"join": False})
        e = run.e
        if run.err:
            res.und(nm, run.err)
            continue
        for f in e.visited:
            if isinstance(f, int):
                res.funcs.add(strip_generics(e.I[f]["name"]))
        report_panics(res, run)
        for s, v in run.outs:
            if opaque(s):
                res.und(nm, opaque(s))
                continue
            ok = is_ok(e, v, s.F)
            if ok is None:
                res.und(nm, "outcome not determined")
                continue
            res.n("execution classes")
            {"password_auth": pw_auth, "password_secret": pw_secret, "password_validate": pw_validate}[nm](res, run, s, v, ok, caps)
    return dict(rule="composition new -> get_auth_command: handle is the password pseudo-handle, nonce empty, attributes zero, "
                "authorization value byte for byte the password; refusal exactly beyond capacity, with the size error; get_secret returns "
                "the same bytes; validate_auth_response is Ok exactly for empty nonce, attributes == continueSession, empty value",
                assumptions=ASSUME[:0], floors={"accepted passwords": 1, "refused passwords": 1, "accepted responses": 1,
                                                "rejected responses": 1})


PW = "crates/tpm2-client/src/sessions/password.rs"


def pw_cap(P, caps):
    """capacity of the authorization value type"""
    for j, t in enumerate(P.T):
        if t["k"] == "adt" and t["path"].endswith("TpmsAuthCommand"):
            f = next(f for f in t["variants"][0]["fields"] if f["name"] == "hmac")
            return caps[f["ty"]][2]


def pw_new(res, run, s, v, ok, caps):
    """shared: refusal exactly beyond capacity"""
    e, F = run.e, s.F
    n, cap = run.args[0].n, pw_cap(run.P, caps)
    if ok:
        if not F.le0(n - cap):
            res.bad("accept", f"a password longer than {cap} bytes can be accepted", PW)
        return
    res.n("refused passwords")
    if not F.le0(K(cap + 1) - n):
        res.bad("refuse", f"a password of at most {cap} bytes can be refused", PW)
    c = leaf(v.f[0]) if isinstance(v, Agg) else None
    if c is None:
        res.und("refuse", "error value")
    elif not F.eq0(c - SIZE_RC):
        res.bad("refuse-code", "an oversized password is not refused with the size error", PW)


def pw_auth(res, run, s, v, ok, caps):
    e, F = run.e, s.F
    pw_new(res, run, s, v, ok, caps)
    if not ok:
        return
    res.n("accepted passwords")
    a = v.f[0]
    h, at_ = leaf(fld(e, a, "session_handle")), leaf(fld(e, a, "session_attributes"))
    if h is None or not F.eq0(h - RS_PW):
        res.bad("handle", "the authorization of a password session does not use the password pseudo-handle 0x40000009", PW)
    if at_ is None or not F.eq0(at_):
        res.bad("attributes", "the authorization of a password session sets attribute bits", PW)
    n, _ = sized_parts(e, fld(e, a, "nonce"))
    if n is None or not F.eq0(n):
        res.bad("nonce", "the authorization of a password session carries a nonce", PW)
    n, ar = sized_parts(e, fld(e, a, "hmac"))
    src = run.args[0]
    if n is None or not F.eq0(n - src.n):
        res.bad("length", "the authorization value's length can differ from the password's length", PW)
        return
    c = is_copy(e, F, ar, src, n)
    if c is None:
        res.und("password bytes", "not determined")
    elif not c:
        res.bad("bytes", "the authorization value is not the password's bytes in order", PW)


def pw_secret(res, run, s, v, ok, caps):
    e, F = run.e, s.F
    pw_new(res, run, s, v, ok, caps)
    if not ok:
        return
    src, i = run.args[0], run.args[1]
    o = v.f[0]
    if not isinstance(o, Agg):
        res.und("secret", "result")
    elif o.var == 0:
        if not F.le0(src.n - i):
            res.bad("secret-len", "get_secret can return fewer bytes than the password", PW)
    else:
        if not F.le0(i + 1 - src.n):
            res.bad("secret-more", "get_secret can return more bytes than the password", PW)
        want = e.arr_read(e.arr_of(St({}, Facts()), src), i, F)
        if not (isinstance(o.f[0], Lin) and F.eq0(o.f[0] - want)):
            if wire.vague(o.f[0], want):
                res.und("secret", "not determined")
                return
            res.bad("secret", "get_secret does not return the password's bytes", PW)


def pw_validate(res, run, s, v, ok, caps):
    e, F = run.e, s.F
    r = e.load(St({}, Facts()), run.args[1])
    n1, _ = sized_parts(e, fld(e, r, "nonce"))
    n2, _ = sized_parts(e, fld(e, r, "hmac"))
    at_ = leaf(fld(e, r, "session_attributes"))
    good = [c_eq(n1), c_eq(n2), c_eq(at_ - CONT)]
    if ok:
        res.n("accepted responses")
        for what, l in (("a non-empty nonce", n1), ("a non-empty authorization value", n2), ("other attributes than continueSession", at_ - CONT)):
            if not F.eq0(l):
                res.bad("validate:" + what, f"a password session accepts a response with {what}", PW)
    else:
        res.n("rejected responses")
        Fs = [F]
        for c in good:
            Fs = [G for f in Fs for G in e.assume(f, c) if G.feasible()]
        if Fs:
            res.bad("validate-strict", "a password session can reject a correct response", PW)
