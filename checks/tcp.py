"""T01-T03: the simulator connection of the client crate (requests, replies, process lifetime)."""
from .core import *
from .client import leaf
from .codec import fname
from .errors import last
from .hashes import possible, window
from .server import opaque, ev_ok, join_be, c_le, c_eq
from . import wire

TPM, PLAT = "tpm", "platform"
PORT = {TPM: 2321, PLAT: 2322}
SIGNALS = {"PowerOn": 1, "PowerOff": 2, "PhysicalPresenceOn": 3, "PhysicalPresenceOff": 4, "CancelOn": 9, "CancelOff": 10, "NvOn": 11,
           "NvOff": 12, "KeyCacheOn": 13, "KeyCacheOff": 14, "Reset": 17, "Restart": 18}
HARMLESS = ("set_nodelay", "set_read_timeout", "set_write_timeout", "set_ttl", "set_nonblocking", "peer_addr", "local_addr", "nodelay",
            "flush", "take_error", "fmt", "peek")
WRITES = ("write_all", "write", "write_vectored", "write_all_vectored")
READS = ("read_exact", "read")
IO = "std::net::TcpStream"
U32 = (1 << 32) - 1


def tyname(P, ty):
    t = P.T[ty]
    while t["k"] in ("ref", "ptr"):
        t = P.T[t["to"]]
    return t.get("path", "") if t["k"] == "adt" else ""


def is_stream(P, ty):
    return last(tyname(P, ty)) == "TcpStream"


def target(e, st, a, ty):
    """(object, path) a reference finally denotes, through references to references"""
    t = e.T[ty]
    while True:
        if not isinstance(a, Ref):
            a = e.as_ref(a, ty)
        t = e.T[t["to"]]
        if t["k"] not in ("ref", "ptr"):
            return a.obj, a.path
        a = e.load(st, a)


def meth(p):
    """method name of a path"""
    return p.rsplit("::", 1)[-1]


def callee(e, f):
    return e.I[f["i"]]["path"] if "i" in f else (f.get("u") or {}).get("path", "")


def io_hook(e, st, fr, f, args, atys, dty):
    """record what is written to and read from streams"""
    if not args or not atys or e.T[atys[0]]["k"] not in ("ref", "ptr") or not is_stream(e.P, atys[0]):
        return None
    p = callee(e, f)
    n = meth(p)
    if not ("io::" in p and (n in WRITES or n in READS)):
        return None
    ch = target(e, st, args[0], atys[0])
    parts = []
    if n in WRITES:
        if "vectored" in n:
            arr = e.arr_of(st, args[1])
            cnt = args[1].n.const
            if cnt is None:
                raise Unsupported("vectored write of unknown count")
            for k in range(cnt):
                v = e.arr_read(arr, args[1].s + k, st.F)
                r = e.as_ref(v, None)
                parts.append((e.arr_of(st, r), r.s, r.n))
        else:
            r = e.as_ref(args[1], None)
            w = r if r.s is not None else None
            if w is None:
                raise Unsupported("write of " + repr(args[1])[:40])
            parts.append((e.arr_of(st, w), w.s, w.n))
        out = e.havoc_call(st, fr, p, args, atys, dty, ev=False)
        for s, v in out:
            s.ev(("W", ch, n, tuple(parts), v.o if isinstance(v, Unk) else None, v))
        return out
    r = e.as_ref(args[1], None)
    if r.s is None:
        raise Unsupported("read into " + repr(args[1])[:40])
    out = e.havoc_call(st, fr, p, args, atys, dty, ev=False)
    for s, v in out:
        s.ev(("R", ch, n, (e.arr_of(s, r), r.s, r.n), v.o if isinstance(v, Unk) else None, v))
    return out


def go(P, i, **kw):
    return Run(P, i, hooks=(io_hook,), opts={"join": False, "inline_leaves": 6, "snap": True, "many": 64}, **kw)


def methods(P, owner):
    out = {}
    for i in P.roots:
        x = P.I[i]
        if x.get("body") and "connection::tcp" in x["name"] and (last((x.get("implself") or "").split("<")[0]) == owner):
            out.setdefault(fname(x), i)
    return out


def payload_int(e, v):
    x = e.expand(v, 0) if isinstance(v, Unk) else v
    return x.f[0] if isinstance(x, Agg) and x.f and isinstance(x.f[0], Lin) else None


# ------------------------------------------------------------------ which field is which channel
def channels(res, P, owner="TcpConnection", sink=None):
    """{field index: channel}, index of the locality field; from what connect() does with its port arguments"""
    m = methods(P, owner)
    i = m.get("connect")
    if i is None:
        res.und("connect", "no connect function")
        return None
    run = go(P, i)
    if run.err:
        res.und("connect", run.err)
        return None
    r = connected(res, P, run, "connect", sink)
    if r is None:
        return None
    names, loc = r
    if sorted(names.values()) != [PLAT, TPM]:
        sink and sink("port", "a new connection does not hold one TPM and one platform channel")
        return None
    return names, loc


def connected(res, P, run, what, sink):
    """{field: channel}, locality field, over the success outcomes of a connecting function (ip, port, port)"""
    e = run.e
    names, loc = {}, None
    for s, v in run.outs:
        if opaque(s):
            res.und(what, opaque(s))
            return None
        if is_ok(e, v, s.F) is not True:
            continue
        res.n("connections made")
        con = v.f[0]
        evs = {ev[3]: ev for ev in s.events() if ev[0] == "call" and meth(ev[1]) == "connect"}
        for k, f in enumerate(con.f):
            if isinstance(f, Unk) and is_stream(P, f.ty):
                ev = next((x for o, x in evs.items() if f.o[:1] == (o,) or f.o == o or o in f.o), None)
                if ev is None:
                    if sink:
                        sink(what, "a channel of a new connection was not connected by this call")
                    continue
                if ev_ok(s.F, ev[3]) is not True:
                    sink and sink(what, "a failed TCP connection is used")
                port = leaf_port(ev[2])
                which = []
                for c, j in ((TPM, 1), (PLAT, 2)):
                    a = run.args[j]
                    d = e.discr(a)
                    if s.F.eq0(d):
                        want = K(PORT[c])
                    elif s.F.eq0(d - 1):
                        want = e.expand(a, 1).f[0]
                    else:
                        want = None
                    if port is not None and want is not None and s.F.eq0(port - want):
                        which.append(c)
                if len(which) != 1:
                    sink and sink("port", f"{what} uses a port that is neither the caller's port nor the default one of that channel")
                    continue
                if names.setdefault(k, which[0]) != which[0]:
                    sink and sink("port", "a channel gets the TPM port in one case and the platform port in another")
            elif isinstance(f, Lin):
                loc = k
                if not s.F.eq0(f):
                    sink and sink("locality", "a new connection does not start at locality 0")
    return names, loc


def leaf_port(args):
    for a in args:
        if isinstance(a, Agg):
            for f in a.f:
                if isinstance(f, Lin):
                    return f
    return None


# ------------------------------------------------------------------ scripts
class Op:
    def __init__(self, run, names, loc):
        self.run, self.e, self.names, self.loc = run, run.e, names, loc

    def field(self, k):
        """initial value of a field of self"""
        e = self.e
        v = e.load(self.run.st, run_self(self.run))
        v = e.expand(v) if isinstance(v, Unk) else v
        return v.f[k]


def run_self(run):
    return run.args[0]


def W(ch, *parts):
    return ("W", ch, parts)


def R(ch, n, tag=""):
    return ("R", ch, n, tag)


END = 4


def end(ch):
    return ("E", ch)


def script(name, op):
    """expected exchange, as a list"""
    a = op.run.args
    if name == "hcrtm_sequence":
        return [W(TPM, 5), end(TPM), W(TPM, 6, ("len", a[1]), ("data", a[1])), end(TPM), W(TPM, 7), end(TPM)]
    if name == "remote_handshake":
        return [W(TPM, 15, a[1]), R(TPM, 8, "resp"), end(TPM)]
    if name == "set_alternative_result":
        return [W(TPM, 16, a[1]), end(TPM)]
    if name == "platform_signal":
        return [W(PLAT, ("signal", a[1])), end(PLAT)]
    if name == "reinit":
        return [x for c in (12, 2, 1, 11) for x in (W(PLAT, c), end(PLAT))]
    if name == "test_failure_mode":
        return [W(PLAT, 30), end(PLAT)]
    if name == "get_command_response_sizes":
        return [W(PLAT, 25), R(PLAT, 4, "16"), R(PLAT, 16, "resp"), end(PLAT)]
    if name == "act_get_signaled":
        return [W(PLAT, 26, a[1]), R(PLAT, 4, "resp"), end(PLAT)]
    if name == "set_firmware_hash":
        return [W(PLAT, 35, a[1]), end(PLAT)]
    if name == "set_firmware_svn":
        return [W(PLAT, 36, a[1]), end(PLAT)]
    if name == "session_end":
        return [W(TPM, 20), ("S", TPM), W(PLAT, 20), ("S", PLAT)]
    if name in ("stop_simulator", "stop_nicely"):
        return [W(TPM, 21), ("S", TPM), W(PLAT, 21), ("S", PLAT)]
    if name == "transact":
        return [W(TPM, 8, ("u8", op.loc), ("len", a[1]), ("data", a[1])), R(TPM, 4, "len"), R(TPM, "len", "resp"), end(TPM)]
    return None


OPS = ("hcrtm_sequence", "remote_handshake", "set_alternative_result", "platform_signal", "reinit", "test_failure_mode",
       "get_command_response_sizes", "act_get_signaled", "set_firmware_hash", "set_firmware_svn", "session_end", "stop_simulator", "transact")
ACC = {"remote_handshake": (("server_version", 0, "be"), ("endpoint_info", 4, "be")),
       "get_command_response_sizes": (("largest_command_size", 0, "le"), ("largest_command", 4, "be"),
                                      ("largest_response_size", 8, "le"), ("largest_response", 12, "be"))}


def want_bytes(op, parts, F, sig):
    """normal form of a message"""
    e = op.e
    out = []

    def word(l, w):
        bs = wire.byte_list(lin_bits(l, 8 * w))
        out.extend(("b", b) for b in reversed(bs))
    for p in parts:
        if isinstance(p, int):
            word(K(p), 4)
        elif isinstance(p, Lin):
            word(p, 4)
        elif p[0] == "u8":
            word(op.field(p[1]), 1)
        elif p[0] == "len":
            word(p[1].n, 4)
        elif p[0] == "signal":
            word(K(sig), 4)
        elif p[0] == "data":
            r = p[1]
            out.extend(wire.canon(e, e.arr_of(op.run.st, r), r.s, r.s + r.n, F) or [])
    return out


def total(parts):
    t = ZERO
    for _, _, n in parts:
        t = t + n
    return t


class Bad(Exception):
    def __init__(self, prop, key, msg):
        self.a = (prop, key, msg)


class Skip(Exception):
    pass


def chan_of(op, ch):
    """channel name of a stream place"""
    obj, path = ch
    me = run_self(op.run)
    base = me.path
    if obj != me.obj or path[:len(base)] != base:
        return None
    # through TcpSimulator: conn.<field>
    k = [p[1] for p in path[len(base):] if p[0] == "f"]
    return op.names.get(tuple(k))


def gather(op, s):
    """what one path does, in order: ('W', channel, canonical bytes, complete?, outcome) ..."""
    e, F = op.e, s.F
    out = []
    for ev in s.events():
        if ev[0] == "star":
            if any(x[0] in ("W", "R") or x[0] == "call" and "io::" in x[1] for b in ev[1].bodies for x in b[0]):
                raise Skip("input or output inside a loop")
            continue
        if ev[0] == "W":
            c = chan_of(op, ev[1])
            if c is None:
                raise Skip("stream not recognised")
            bs = []
            for arr, st, n in ev[3]:
                x = wire.canon(e, arr, st, st + n, F)
                if x is None:
                    raise Skip("written bytes not resolved")
                bs += x
            ok = ev_ok(F, ev[4]) if ev[4] is not None else None
            if isinstance(ev[5], Agg):
                ok = ev[5].var == 0
            cnt = None
            if ev[2] in ("write", "write_vectored"):
                cnt = payload_int(e, ev[5])
                if cnt is None:
                    raise Skip("byte count not resolved")
                cnt = cnt - total(ev[3])
            out.append(["W", c, bs, cnt, ok])
        elif ev[0] == "R":
            c = chan_of(op, ev[1])
            if c is None:
                raise Skip("stream not recognised")
            ok = ev_ok(F, ev[4]) if ev[4] is not None else None
            cnt = None
            if ev[2] == "read":
                cnt = payload_int(e, ev[5])
                if cnt is None:
                    raise Skip("byte count not resolved")
                cnt = cnt - ev[3][2]
            out.append(["R", c, ev[3], cnt, ok])
        elif ev[0] == "call":
            n = meth(ev[1])
            if "TcpStream" in ev[1] or any(isinstance(a, Ref) and a.obj == run_self(op.run).obj for a in ev[2]):
                if n == "shutdown":
                    r = ev[2][0]
                    out.append(["S", chan_of(op, (r.obj, r.path)), None, None, ev_ok(F, ev[3])])
                elif n in HARMLESS:
                    continue
                else:
                    raise Skip("call of " + ev[1])
    return out


def be(bs, F):
    """big-endian value as a sum, or joined when the bytes are pieces of one integer"""
    v = join_be(bs, F)
    a = v.single()
    if a is not None and a.key[0] == "bits":
        v = ZERO
        for b in bs:
            v = v.scale(256) + b
    return v


def zero_end(e, F, bs):
    v = be(bs, F)
    return F.eq0(v) or all(F.eq0(b) for b in bs)


def read_bytes(e, F, got, n):
    """first n (a constant) bytes of the pending reads; got: list of (arr, s, n); consumes. None: not enough"""
    out = []
    while len(out) < n:
        if not got:
            return None
        arr, s, m = got[0]
        if m.const is None:
            return None
        if m.const == 0:
            got.pop(0)
            continue
        out.append(e.arr_read(arr, s, F))
        got[0] = (arr, s + 1, m - 1)
    return out


def follow(op, s, v, name, sig, F):
    """check one outcome under facts F; raises Bad / Skip"""
    e = op.e
    ok = is_ok(e, v, F)
    if ok is None:
        raise Skip("outcome not decidable")
    ops = gather(op, s)
    items = script(name, op)
    per = {}
    for it in items:
        per.setdefault(it[1], []).append(it)
    info = {}
    fail = any(o[4] is False for o in ops)
    for o in ops:
        if o[1] not in per:
            raise Bad("T01", f"channel:{name}", f"{name} uses the {o[1]} channel, it belongs to the {items[0][1]} channel")
    cond = []          # conditions under which everything is as it should be
    done = True
    for ch, its in per.items():
        mine = [o for o in ops if o[1] == ch]
        shut = [k for k, o in enumerate(mine) if o[0] == "S"]
        if shut and any(o[0] != "S" for o in mine[shut[0]:]):
            raise Bad("T01", f"shutdown:{name}", f"{name} shuts the {ch} channel down before it is done with it")
        mine = [o for o in mine if o[0] != "S"]
        k = 0
        pend = []      # bytes read, not yet matched
        broke = False
        for it in its:
            if it[0] == "S":
                continue
            if it[0] == "W":
                if pend and any(not F.eq0(p[2]) for p in pend):
                    raise Bad("T02", f"extra:{name}", f"{name} reads more than the reply from the {ch} channel")
                pend = []
                want = want_bytes(op, it[2], F, sig)
                got = []
                full = True
                while k < len(mine) and mine[k][0] == "W":
                    o = mine[k]
                    got += o[2]
                    if o[3] is not None:
                        cond.append(c_eq(o[3]))
                    if o[4] is not True or o[3] is not None and not F.eq0(o[3]):
                        full = False
                        if k + 1 < len(mine) or ok:
                            if ok or o[4] is None:
                                raise Bad("T01", f"partial:{name}", f"{name} goes on or reports success although a write may not have covered the whole message")
                    k += 1
                if not got:
                    if ok:
                        raise Bad("T01", f"message:{name}", f"{name} reports success without sending all of its messages")
                    broke = True
                    break
                sm = wire.same(e, F, got, want[:len(got)]) if len(got) <= len(want) else None if wire.vague(got) else False
                if sm is None:
                    raise Skip("sent bytes not comparable")
                if not sm:
                    raise Bad("T01", f"message:{name}", f"{name} does not send its command number, header fields and payload in order on the {ch} channel")
                if len(got) < len(want):
                    if ok or k < len(mine):
                        raise Bad("T01", f"message:{name}", f"{name} does not send its whole message on the {ch} channel")
                    broke = True
                    break
                if any(isinstance(p, tuple) and p[0] == "len" and not F.le0(p[1].n - 0xffffffff) for p in it[2]):
                    raise Bad("T01", f"length:{name}", f"{name} can send a payload longer than its 32-bit length field says")
                if not full:
                    broke = True
                    if k < len(mine):
                        raise Bad("T01", f"partial:{name}", f"{name} goes on after an incomplete write")
                    break
            else:
                while k < len(mine) and mine[k][0] == "R":
                    o = mine[k]
                    if o[3] is not None:
                        cond.append(c_eq(o[3]))
                    if o[4] is not True or o[3] is not None and not F.eq0(o[3]):
                        if ok:
                            raise Bad("T02", f"short:{name}", f"{name} reports success although a read may have failed or been incomplete")
                        if o[4] is not True and o[4] is not False or k + 1 < len(mine):
                            raise Bad("T02", f"short:{name}", f"{name} goes on after a read that may have failed or been incomplete")
                        broke = True
                        break
                    pend.append(o[2])
                    k += 1
                if it[0] == "E":
                    bs = read_bytes(e, F, pend, 4)
                    if bs is None:
                        if ok:
                            raise Bad("T02", f"end:{name}", f"{name} reports success without reading the terminator from the {ch} channel")
                        broke = True
                        break
                    if ok and not zero_end(e, F, bs):
                        raise Bad("T02", f"end:{name}", f"{name} reports success without a zero terminator from the {ch} channel")
                    if k < len(mine) and not zero_end(e, F, bs):
                        raise Bad("T02", f"end:{name}", f"{name} goes on without a zero terminator from the {ch} channel")
                    cond += [c_eq(b) for b in bs]
                elif it[2] == "len":
                    while pend and pend[0][2].const == 0:
                        pend.pop(0)
                    if broke and not pend or not pend:
                        if ok and not F.eq0(info["len"]):
                            raise Bad("T02", f"reply:{name}", f"{name} reports success without reading the reply")
                        if ok:
                            continue
                        broke = True
                        break
                    arr, st, n = pend[0]
                    if not F.eq0(n - info["len"]):
                        if F.eq0(info["len"]):
                            continue
                        raise Bad("T02", f"reply:{name}", f"{name} does not read as many reply bytes as the length field announces")
                    info["resp"] = pend.pop(0)
                else:
                    bs = read_bytes(e, F, pend, it[2])
                    if bs is None:
                        if ok:
                            raise Bad("T02", f"reply:{name}", f"{name} reports success without reading its {it[2]} byte reply")
                        broke = True
                        break
                    if it[3] == "len":
                        info["len"] = be(bs, F)
                        cond.append(c_le(info["len"] - op.run.args[2].n))
                    elif it[3] == "16":
                        v16 = be(bs, F)
                        if (ok or k < len(mine)) and not F.eq0(v16 - 16):
                            raise Bad("T02", f"size:{name}", f"{name} goes on although the announced reply size may differ from 16")
                        cond.append(c_eq(v16 - 16))
                    else:
                        info["resp"] = bs
        if not broke and ok and any(not F.eq0(p[2]) for p in pend):
            raise Bad("T02", f"extra:{name}", f"{name} reads more than the reply from the {ch} channel")
        if k < len(mine):
            if not broke:
                raise Bad("T01" if mine[k][0] == "W" else "T02", f"extra:{name}", f"{name} exchanges more than its protocol on the {ch} channel")
            elif mine[k][0] == "W" or k + 1 < len(mine):
                raise Bad("T02", f"order:{name}", f"{name} goes on after a failed step")
        done = done and not broke
    if ok:
        if fail or any(o[4] is None and o[0] != "S" for o in ops):
            raise Bad("T02", f"failure:{name}", f"{name} reports success after an input or output failure")
        if any(o[0] == "S" and o[4] is not True for o in ops):
            raise Bad("T02", f"failure:{name}", f"{name} reports success although shutting a channel down may have failed")
        returned(op, s, v, name, info, F)
    elif not fail:
        for a in op.run.args[1:]:
            if isinstance(a, Ref) and a.s is not None:
                cond.append(c_le(a.n - U32))
        fs = [F]
        for c in cond:
            fs = [g for f in fs for g in e.assume(f, c)]
        if any(g.feasible() for g in fs):
            raise Bad("T02", f"refuses:{name}", f"{name} reports an error although every byte was transferred and the reply was well formed")


def call_method(op, s, v, name, owner_ty):
    """apply accessor `name` to value v"""
    P = op.run.P
    for i in P.roots:
        x = P.I[i]
        if x.get("body") and fname(x) == name and last((x.get("implself") or "").split("<")[0]) == owner_ty:
            s2 = s.copy()
            o = ("ext", ("val", "acc"), name)
            s2.mem[o] = v
            return wire.call(op.e, s2, i, [Ref(o)])
    return None


def returned(op, s, v, name, info, F):
    e = op.e
    r = v.f[0] if isinstance(v, Agg) and v.f else None
    if name in ACC:
        ty = last(tyname(op.run.P, r.ty)) if isinstance(r, (Agg, Unk)) else None
        for acc, at, order in ACC[name]:
            outs = call_method(op, s, r, acc, ty)
            if outs is None:
                raise Skip("no accessor " + acc)
            for s2, x in outs:
                bs = info["resp"][at:at + 4]
                want = be(bs if order == "be" else bs[::-1], s2.F)
                if not (isinstance(x, Lin) and s2.F.eq0(x - want)):
                    raise Bad("T02", f"value:{acc}", f"{acc} of the result of {name} is not bytes {at}..{at + 4} of the reply")
    elif name == "act_get_signaled":
        if not (isinstance(r, Lin) and F.eq0(r - be(info["resp"], F))):
            raise Bad("T02", f"value:{name}", f"{name} does not return the value in the reply")
    elif name == "transact":
        b = op.run.args[2]
        w = window(e, r)
        n = info["len"]
        if not w or w[0] != (b.obj, b.path) or not F.eq0(w[1] - b.s) or not F.eq0(w[2] - n):
            raise Bad("T02", f"value:{name}", f"{name} does not return exactly the received bytes")
        got = wire.canon(e, e.arr_of(s, b), b.s, b.s + n, F)
        x = info.get("resp")
        want = wire.canon(e, x[0], x[1], x[1] + n, F) if x else []
        if got is None or want is None:
            raise Skip("returned bytes not resolved")
        sm = wire.same(e, F, got, want)
        if sm is None:
            raise Skip("returned bytes not comparable")
        if not sm:
            raise Bad("T02", f"value:{name}", f"{name} does not return exactly the received bytes")


_done = {}


def exchange(P):
    """all findings of T01 and T02"""
    if "r" in _done:
        return _done["r"]
    res = Result()
    found = []
    got = channels(res, P, sink=lambda k, m: found.append(("T01", k, m, "crates/tpm2-client/src/connection/tcp.rs")))
    _done["r"] = (res, found)
    if got is None:
        res.und("channels", "the two channels of a connection were not resolved")
        return _done["r"]
    names, loc = got
    m = methods(P, "TcpConnection")
    for name in OPS:
        i = m.get(name)
        if i is None:
            res.und(name, "operation not found")
            continue
        one(res, found, P, i, name, {(k,): c for k, c in names.items()}, loc)
    i = m.get("set_locality")
    if i is not None:
        run = go(P, i)
        e = run.e
        for s, v in run.outs if not run.err else ():
            now = e.load(s, run.args[0])
            was = e.load(run.st, run.args[0])
            was = e.expand(was) if isinstance(was, Unk) else was
            res.n("locality updates")
            if not isinstance(now, Agg) or not F_eq(s.F, now.f[loc], run.args[1]) or any(now.f[k] != was.f[k] for k in range(len(was.f)) if k != loc):
                found.append(("T01", "locality", "set_locality does not set the locality that commands are sent with, or changes something else", short_span(P.I[i].get("span"))))
    i = m.get("connect_with_retries")
    if i is not None:
        retries(res, found, P, i, names)
    i = methods(P, "TcpSimulator").get("new")
    if i is not None:
        port_files(res, found, P, i, names)
    return _done["r"]


def F_eq(F, a, b):
    return isinstance(a, Lin) and isinstance(b, Lin) and F.eq0(a - b)


def one(res, found, P, i, name, names, loc):
    run = go(P, i)
    loc_ = short_span(P.I[i].get("span"))
    if run.err:
        res.und(name, run.err)
        return
    res.funcs.add(run.name)
    res.n("operations")
    report_panics(res, run)
    op = Op(run, names, loc)
    e = run.e
    for s, v in run.outs:
        o = opaque(s)
        if o:
            res.und(name, o)
            continue
        todo = [(None, s.F)]
        if name == "platform_signal":
            todo = []
            for d, n, F in possible(e, s.F, run.args[1], P, run.x["body"]["locals"][2]):
                if n in SIGNALS:
                    todo.append((SIGNALS[n], F))
        for sig, F in todo:
            res.n("exchanges")
            try:
                follow(op, s.with_F(F), v, name, sig, F)
            except Bad as b:
                found.append(b.a + (loc_,))
            except Skip as b:
                res.und(name, str(b))


def retries(res, found, P, i, names):
    run = go(P, i)
    if run.err:
        res.und("connect_with_retries", run.err)
        return
    where = short_span(P.I[i].get("span"))
    r = connected(res, P, run, "connect_with_retries", lambda k, m: found.append(("T01", k, m, where)))
    if r and r[0] and r[0] != names:
        found.append(("T01", "port", "connect_with_retries swaps the two channels", where))


FILES = {b"command.port": TPM, b"platform.port": PLAT}


def ancestry(s, root):
    """constant strings from which a value was computed, following the calls that produced it"""
    evs = {ev[3]: ev for ev in s.events() if ev[0] == "call"}
    out, seen, todo = set(), set(), [root]
    while todo:
        v = todo.pop()
        if isinstance(v, Arr):
            if v.base[0] == "v" and all(isinstance(b, Lin) and b.const is not None for b in v.base[1]):
                out.add(bytes(b.const & 255 for b in v.base[1]))
            else:
                todo.append(v.base)
            todo += [g for g in v.segs]
        elif isinstance(v, Lin):
            todo += [lin.ATOMS[a].key for a, _ in v.t]
        elif isinstance(v, Agg):
            todo += v.f
        elif isinstance(v, Unk):
            todo.append(v.o)
        elif isinstance(v, Ref):
            todo.append(v.obj)
        elif isinstance(v, tuple):
            if v in seen:
                continue
            seen.add(v)
            if v in evs:
                todo += evs[v][2:]
            else:
                todo += v
    return out


def port_files(res, found, P, i, names):
    """start-up must connect each channel to the port the simulator published for it"""
    run = go(P, i)
    if run.err:
        res.und("start-up ports", run.err)
        return
    e = run.e
    where = short_span(P.I[i].get("span"))
    done = set()
    for s, v in run.outs:
        if is_ok(e, v, s.F) is not True:
            continue
        todo, con = [v.f[0]], None
        while todo and con is None:
            x = todo.pop()
            if isinstance(x, Agg):
                if last(P.T[x.ty].get("path") or "") == "TcpConnection":
                    con = x
                todo += x.f
        if con is None:
            continue
        evs = {ev[3]: ev for ev in s.events() if ev[0] == "call" and meth(ev[1]) == "connect"}
        for k, f in enumerate(con.f):
            if k not in names or not isinstance(f, Unk):
                continue
            ev = next((x for o, x in evs.items() if f.o[:1] == (o,) or f.o == o or o in f.o), None)
            port = leaf_port(ev[2]) if ev else None
            if port is None or (k, port) in done:
                continue
            done.add((k, port))
            src = {FILES[b] for b in ancestry(s, port) if b in FILES}
            if len(src) == 1:
                res.n("published ports followed")
                if src != {names[k]}:
                    found.append(("T01", "portfile", f"start-up connects the {names[k]} channel to the port the simulator published for the {min(src)} channel", where))


def T01(res, tier):
    return both(res, "T01")


def both(res, prop):
    P = prog("tpm2_client")
    r, found = exchange(P)
    res.merge(r)
    for p, k, msg, loc in found:
        if p == prop:
            res.bad(k, msg, loc)
    if prop == "T02":
        # panics belong to one of the two
        pass
    else:
        res.findings = {k: f for k, f in res.findings.items() if not k.startswith("panic:")}
    return dict(rule="every path of every simulator operation is followed by abstract interpretation; what it writes and reads is recorded per "
                "channel as byte strings over the arguments and compared with the protocol's script: "
                + ("messages exact on success and a prefix on failure, write counts proven equal to the message length" if prop == "T01" else
                   "on success every read complete, the terminator proven zero, the returned value equal to the received bytes; an error only "
                   "when something failed, did not fit or was not well formed"),
                assumptions=["write_all and read_exact transfer everything when they succeed (their documented contract)"],
                floors={"operations": 8, "exchanges": 20})


def T02(res, tier):
    return both(res, "T02")


# ------------------------------------------------------------------ T03
PROC = re.compile(r"\b(Child|Command|TcpSimulator)\b")


def handles_process(P, i, seen):
    """does function i, or one it calls, hold a process handle"""
    c = P.__dict__.setdefault("_proc", {})
    if i in c:
        return c[i]
    if i in seen:
        return False
    x = P.I[i]
    b = x.get("body")
    r = False
    if b:
        r = any(PROC.search(P.T[t]["s"]) for t in b["locals"]) or x["crate"] in REPO and any(
            handles_process(P, j, seen | {i}) for j in calls(b))
    c[i] = r
    return r


def calls(b):
    for bb in b["bbs"]:
        t = bb["t"]
        if t["k"] == "call" and isinstance(t["f"], dict) and isinstance(t["f"].get("i"), int):
            yield t["f"]["i"]


class Frame0:
    stack = ()
    inst = 0
    body = {"bbs": [], "locals": []}
    d = 0


def kills(s):
    return [ev for ev in s.events() if ev[0] == "call" and ev[1].endswith("Child::kill")]


def looped(s):
    """does a loop of unknown length start, kill or talk to something"""
    for ev in s.events():
        if ev[0] == "star":
            for b in ev[1].bodies:
                for x in b[0]:
                    if x[0] in ("W", "R") or x[0] == "call" and ("process::" in x[1] or "TcpStream" in x[1]):
                        return True
    return False


def asked(s, names, base):
    """(attempted, stop sent completely on both channels with everything succeeding)"""
    sent, tried, fine = set(), False, True
    F = s.F
    for ev in s.events():
        if ev[0] == "W":
            (obj, path) = ev[1]
            c = None
            for k, n in names.items():
                p = tuple(q[1] for q in path if q[0] == "f")
                if p[-1:] == k[-1:]:
                    c = n
            bs = []
            for arr, st, n in ev[3]:
                bs.append((arr, st, n))
            ok = ev_ok(F, ev[4]) if ev[4] is not None else None
            is_stop = stop_bytes(s, bs)
            tried = tried or is_stop
            if is_stop and ok is True and (ev[2] not in ("write", "write_vectored") or False):
                sent.add(c)
            elif ok is not True:
                fine = False
        elif ev[0] == "call" and "TcpStream::shutdown" in ev[1] and ev_ok(F, ev[3]) is not True:
            fine = False
    return tried, fine and {TPM, PLAT} <= sent


def stop_bytes(s, bs):
    if len(bs) != 1 or bs[0][2].const != 4:
        return False
    arr, st, _ = bs[0]
    e = _eng[0]
    v = [e.arr_read(arr, st + k, s.F) for k in range(4)]
    return all(isinstance(x, Lin) for x in v) and [x.const for x in v] == [0, 0, 0, 21]


_eng = [None]


def T03(res, tier):
    P = prog("tpm2_client")
    got = channels(Result(), P)
    names = {(k,): c for k, c in got[0].items()} if got else {}
    if not names:
        res.und("channels", "channels of a connection not resolved")
    sim = next((k for k, t in enumerate(P.T) if t["k"] == "adt" and last(t["path"]) == "TcpSimulator"), None)
    if sim is None:
        res.und("TcpSimulator", "type not found")
        return {}
    m = methods(P, "TcpSimulator")
    src = "crates/tpm2-client/src/connection/tcp.rs"
    if "new" in m:
        start(res, P, m["new"], sim)
    else:
        res.und("new", "no start-up function")
    # dropping the owner
    lin.reset()
    e = Engine(P, core_models(), [io_hook])
    for k, v in dict(join=False, inline_leaves=6, snap=True, many=64).items():
        setattr(e, k, v)
    e.inv = P.inv
    _eng[0] = e
    st = St({}, Facts())
    o = ("ext", ("arg", 0), sim)
    st.mem[o] = e.mk_unk(sim, ("sim",))
    try:
        outs = e.drop_value(st, Frame0(), Ref(o), sim)
    except Unsupported as ex:
        outs = None
        res.und("drop", str(ex))
    di = m.get("drop")
    where = short_span(P.I[di].get("span")) if di is not None else src
    if outs is not None:
        class R_:
            pass
        r = R_()
        r.e, r.name = e, "drop"
        report_panics(res, r)
        for s in outs:
            res.n("ways to drop the owner")
            if opaque(s) or looped(s):
                res.und("drop", opaque(s) or "input or output inside a loop")
                continue
            tried, gone = asked(s, names, o)
            if not names:
                continue
            if not kills(s) and not gone:
                res.bad("drop", "the simulator's owner can be dropped without the process having been killed although asking it to stop "
                        "was not attempted or did not succeed", where)
            if kills(s) and not tried:
                res.bad("ask", "the simulator is killed on drop without being asked to stop first", where)
    if "stop" in m:
        run = go(P, m["stop"])
        if run.err:
            res.und("stop", run.err)
        else:
            res.funcs.add(run.name)
            for s, v in run.outs:
                if opaque(s):
                    res.und("stop", opaque(s))
                    continue
                res.n("explicit stops")
                ok = is_ok(run.e, v, s.F)
                ks = kills(s)
                if not ks:
                    res.bad("stop", "stop() can return without killing the simulator", short_span(P.I[m["stop"]].get("span")))
                elif ok and not any(ev_ok(s.F, k[3]) is True for k in ks):
                    res.bad("stop-result", "stop() reports success although killing the simulator may have failed", short_span(P.I[m["stop"]].get("span")))
    if "stop_nicely" in m and names:
        cf = [k for k, f in enumerate(P.T[sim]["variants"][0]["fields"]) if last(tyname(P, f["ty"])) == "TcpConnection"]
        found = []
        if cf:
            one(res, found, P, m["stop_nicely"], "stop_nicely", {(cf[0],) + k: c for k, c in names.items()}, None)
            for p, k, msg, loc in found:
                res.bad(k, msg, loc)
    return dict(rule="every path of starting, stopping and dropping the simulator's owner: after a successful spawn an error outcome contains a kill "
                "of the child and a success outcome owns it un-killed; no reachable panic lies in between; on drop either both stop messages were "
                "sent with every step succeeding or the child is killed; stop() kills and returns the kill's failure",
                assumptions=["Child::kill ends the process when it succeeds", "the owner is not deliberately leaked with mem::forget by its user"],
                floors={"ways to drop the owner": 2, "explicit stops": 1, "start-up outcomes": 3})


def core_models():
    from . import core
    return core._models


def start(res, P, i, sim):
    summed = set()

    def summary(e, st, fr, f, args, atys, dty):
        j = f.get("i")
        if j is None or P.I[j]["crate"] not in REPO or not P.I[j].get("body") or P.I[j].get("kind") == "closure":
            return None
        if handles_process(P, j, frozenset()) or any(PROC.search(P.T[t]["s"]) for t in list(atys) + [dty]):
            return None
        summed.add(j)
        return e.havoc_call(st, fr, P.I[j]["path"], args, atys, dty)

    run = Run(P, i, hooks=(summary, io_hook), opts={"join": False, "inline_leaves": 6, "snap": True})
    where = short_span(P.I[i].get("span"))
    if run.err:
        res.und("new", run.err)
        return
    res.funcs.add(run.name)
    report_panics(res, run)
    e = run.e
    for s, v in run.outs:
        if opaque(s) or looped(s):
            res.und("new", opaque(s) or "start-up inside a loop")
            continue
        res.n("start-up outcomes")
        sp = [ev for ev in s.events() if ev[0] == "call" and ev[1].endswith("Command::spawn")]
        ok = is_ok(e, v, s.F)
        live = [ev for ev in sp if ev_ok(s.F, ev[3]) is not False]
        if ok is None:
            res.und("new", "outcome not decidable")
        elif ok:
            if len(live) != 1 or not contains(e, v.f[0], live[0][3]):
                res.bad("own", "a started simulator is not owned by the value that start-up returns", where)
            if kills(s) or any(ev[0] == "call" and ev[1].endswith(("Child::wait", "Child::wait_with_output")) for ev in s.events()):
                res.bad("own", "start-up reports success after killing or waiting for the simulator", where)
        elif live and len(kills(s)) < len(live):
            res.bad("leak", "start-up can fail after the simulator was started without killing it", where)
    for j in sorted(summed):
        r2 = go(P, j)
        if r2.err:
            res.und(r2.name, r2.err)
            continue
        res.n("functions called while starting")
        report_panics(res, r2)


def contains(e, v, o, depth=0):
    if depth > 6:
        return False
    if isinstance(v, Unk):
        return last(tyname(e.P, v.ty)) == "Child" and (v.o == o or o in v.o if isinstance(v.o, tuple) else False)
    if isinstance(v, Agg):
        return any(contains(e, x, o, depth + 1) for x in v.f)
    return False
