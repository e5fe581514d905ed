"""Shared machinery of the checks: programs, engines with type invariants, findings, parallel runs."""
import os
import re
import sys
import time
import traceback
from multiprocessing import Pool, TimeoutError as PoolTimeout

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from absint import contracts, lin
from absint.interp import Engine, St, Facts, Star, Unsupported, Dead
from absint.lin import Lin, K, L, ZERO, ONE, ATOMS
from absint.models import Models
from absint.prog import Program
from absint.vals import *

DUMP = os.environ.get("VP_DUMP", "/tmp/vpd")
_progs = {}
_models = Models()
REPO = ("tpm2", "tpm2_rs_marshalable", "tpm2_rs_base", "tpm2_client", "tpm2_impl", "vp_probe")


def prog(crate):
    p = _progs.get(crate)
    if p is None:
        path = os.path.join(DUMP, crate + ".json")
        if not os.path.exists(path) and os.environ.get("VP_DUMP_RC", "0") != "0":
            path = os.path.join(DUMP, "empty.json")
            with open(path, "w") as fh:
                fh.write('{"crate":"%s","roots":[],"consts":[],"impls":[],"adts":[],"items":[],"traits":[],"unsafe":[],"externs":[],'
                         '"attrs":[],"types":[],"insts":[]}' % crate)
        p = Program(path)
        p.inv = invariants(p)
        p.rel = {}
        _progs[crate] = p
        relations(p)
    return p


def invariants(P):
    """(type, field) -> capacity for every record whose private length field directly precedes a
    private array: the length never exceeds the capacity"""
    out = {}
    for i, t in enumerate(P.T):
        if t["k"] != "adt" or t["ak"] != "struct" or not t["variants"]:
            continue
        root = t["path"].split("::")[0]
        if "::" in t["path"] and root in ("core", "std", "alloc", "zerocopy") or "::std::" in t["path"]:
            continue
        f = t["variants"][0]["fields"]
        for j in range(len(f) - 1):
            a = P.T[f[j + 1]["ty"]]
            if P.is_int(f[j]["ty"]) and not f[j]["pub"] and a["k"] == "array" and not f[j + 1]["pub"] and "v" in a["n"]:
                out[(i, j)] = min(a["n"]["v"], P.int_range(f[j]["ty"])[1])
    return out


def relations(P):
    """Positions: a private integer next to a private slice is assumed to lie within that slice when
    every function of the defining crate that takes or returns such a record keeps it there."""
    seen = {}
    for i, t in enumerate(P.T):
        if t["k"] != "adt" or t["ak"] != "struct" or not t["variants"]:
            continue
        f = t["variants"][0]["fields"]
        for j, a in enumerate(f):
            for g, b in enumerate(f):
                bt = P.T[b["ty"]]
                if not a["pub"] and not b["pub"] and P.T[a["ty"]].get("s") == "usize" and bt["k"] == "ref" and P.T[bt["to"]]["k"] == "slice":
                    seen.setdefault((t["path"].split("::")[-1], a["name"], b["name"]), []).append((i, j, g))
    for k, occ in seen.items():
        home = {P.T[i]["path"].split("::")[0] if "::" in P.T[i]["path"] else P.crate for i, _, _ in occ}
        home = [c for c in home if c in REPO and os.path.exists(os.path.join(DUMP, c + ".json"))]
        if home and all(_kept(c, k) for c in home):
            for i, j, g in occ:
                P.rel[(i, j)] = g


_keeps = {}


def _kept(crate, k):
    if (crate, k) in _keeps:
        return _keeps[(crate, k)]
    _keeps[(crate, k)] = False
    P = prog(crate)
    occ = [(i, j, g) for i, t in enumerate(P.T) if t["k"] == "adt" and t["ak"] == "struct" and t["path"] == k[0] and t["variants"]
           for j, a in enumerate(t["variants"][0]["fields"]) if a["name"] == k[1]
           for g, b in enumerate(t["variants"][0]["fields"]) if b["name"] == k[2]]
    if not occ:
        return False

    def has(ty, d=0):
        t = P.T[ty]
        if any(ty == i for i, _, _ in occ):
            return True
        if d > 4:
            return False
        if t["k"] in ("ref", "ptr"):
            return has(t["to"], d + 1)
        if t["k"] in ("tuple",):
            return any(has(x, d + 1) for x in t["e"])
        if t["k"] == "adt":
            return any(has(y, d + 1) for v in t["variants"] for y in [z["ty"] for z in v["fields"]])
        return False

    old = dict(P.rel)
    for i, j, g in occ:
        P.rel[(i, j)] = g
    ok = True
    for n, x in enumerate(P.I):
        body = x.get("body")
        if not body or x.get("crate") not in (crate, None) or not any(has(body["locals"][q]) for q in range(body["argc"] + 1)):
            continue
        if x["name"].split("::")[-1].startswith("fmt"):
            continue
        run = Run(P, n)
        e = run.e

        def fine(st, v, d=0):
            if isinstance(v, Unk):
                return True
            if isinstance(v, Agg):
                for i, j, g in occ:
                    if v.ty == i:
                        at, r = v.f[j], v.f[g]
                        return isinstance(at, Lin) and isinstance(r, Ref) and r.n is not None and st.F.le0(at - r.n)
                return all(fine(st, y, d + 1) for y in v.f)
            if isinstance(v, Ref) and d < 4 and r_has(e, v):
                return fine(st, e.load(st, v), d + 1)
            return True

        def r_has(e, r):
            try:
                return has(r.obj[2]) if r.obj[0] == "ext" and not r.path and r.n is None else False
            except Exception:
                return False
        if run.err or not all(fine(st, v) and all(fine(st, a) for a in run.args) for st, v in run.outs):
            if os.environ.get("VP_DEBUG"):
                print("not kept:", k, x["name"], run.err)
            ok = False
            break
    P.rel.clear()
    P.rel.update(old)
    _keeps[(crate, k)] = ok
    return ok


class Finding:
    def __init__(self, key, msg, loc=""):
        self.key, self.msg, self.loc = key, msg, loc


class Result:
    """outcome of one check"""

    def __init__(self):
        self.findings = {}
        self.counts = {}
        self.undecided = {}
        self.notes = []
        self.data = []
        self.cut = False
        self.funcs = set()

    def bad(self, key, msg, loc=""):
        self.findings.setdefault(key, Finding(key, msg, loc or ""))

    def n(self, what, k=1):
        self.counts[what] = self.counts.get(what, 0) + k

    def und(self, what, why):
        self.undecided.setdefault(what, why)

    def merge(self, o):
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        for k, v in o.counts.items():
            self.n(k, v)
        for k, v in o.undecided.items():
            self.und(k, v)
        self.data += o.data
        self.notes += o.notes
        self.funcs |= o.funcs


class Run:
    """one abstract execution of a function"""

    def __init__(self, P, inst, args=None, hooks=(contracts.marshal_hook,), inv=True, st=None, setup=None, fresh=True,
                 budget=None, opts=None):
        if fresh:
            lin.reset()
        self.P = P
        self.x = x = P.I[inst]
        e = self.e = Engine(P, _models, list(hooks))
        if budget:
            e.budget = budget
        if opts:
            for k, v in opts.items():
                setattr(e, k, v)
        if inv:
            e.inv = P.inv
            e.rel = P.rel
        self.st = st or St({}, Facts())
        body = x.get("body")
        self.err = None
        self.outs = []
        t = time.time()
        try:
            if body is None:
                raise Unsupported("no body")
            if args is None:
                args = [e.mk_unk(body["locals"][j + 1], ("arg", j)) for j in range(body["argc"])]
            self.args = args
            if setup:
                setup(e, self.st, args)
            self.outs = e.call_fn(self.st.copy(), inst, list(args), ())
        except Unsupported as ex:
            self.err = str(ex)
        except Dead:
            self.outs = []
        except RecursionError:
            self.err = "recursion"
        except Exception as ex:
            if os.environ.get("VP_DEBUG"):
                traceback.print_exc()
            self.err = "internal " + repr(ex)[:200]
        self.dt = time.time() - t

    @property
    def name(self):
        return self.x["name"]

    def ret_ty(self):
        return self.x["body"]["locals"][0]


def short_span(sp):
    if isinstance(sp, (list, tuple)):
        sp = ":".join(map(str, sp))
    sp = str(sp or "")
    return sp.replace("/repo/", "")


def fn_file(sp):
    return re.sub(r":\d+.*$", "", short_span(sp))


def strip_generics(n):
    return re.sub(r"::<[^<>]*>", "", n)


def report_panics(res, run, prop_root=None):
    """every reachable panic of a run becomes a finding keyed by function and kind"""
    for (fn, what, inner), p in run.e.panics.items():
        key = f"panic:{fn}:{what}"
        if p["opaque"]:
            # depends on the result of a library function this analysis does not model
            res.und(key, p["opaque"][0])
            continue
        res.bad(key, f"{what} is reachable in {fn} (entered from {run.name})" + (f" via {inner}" if inner else ""),
                short_span(p["span"]))


def is_res(e, ty, what="Result"):
    t = e.T[ty]
    return t["k"] == "adt" and t["path"].endswith("result::" + what)


def is_ok(e, v, F):
    """True / False / None for a Result value"""
    if isinstance(v, Agg):
        return v.var == 0
    if isinstance(v, Unk):
        d = e.discr(v)
        if F.eq0(d):
            return True
        if F.ne0(d) or F.eq0(d - 1):
            return False
    return None


def check_inv_value(e, st, v, bad, seen=None, depth=0):
    """type invariants of everything inside a value that leaves the analysed function"""
    if depth > 12:
        return
    if isinstance(v, Agg):
        for i, f in enumerate(v.f):
            mx = e.inv.get((v.ty, i))
            if mx is not None:
                e.inv_ok += 1
                if not (isinstance(f, Lin) and st.F.le0(f - mx) and st.F.le0(-f)):
                    bad(v.ty, i, f, mx)
            else:
                check_inv_value(e, st, f, bad, seen, depth + 1)
    elif isinstance(v, Arr):
        if e.P.is_int(v.ety):
            return

        def con(c):
            if c[0] == "v":
                for x in c[1]:
                    check_inv_value(e, st, x, bad, seen, depth + 1)
            elif c[0] == "rep":
                check_inv_value(e, st, c[1], bad, seen, depth + 1)
            elif c[0] == "copy":
                check_inv_value(e, st, c[1], bad, seen, depth + 1)
            elif c[0] == "star":
                for it in c[2]:
                    con(it[2])
        con(v.base)
        for s in v.segs:
            con(s[2])


def _work(job):
    f, a = job
    try:
        return f(*a)
    except Exception:
        r = Result()
        r.und(f"{f.__name__}{a!r:.80}", traceback.format_exc()[-300:])
        return r


def _works(js):
    return [_work(j) for j in js]


START = time.time()
LIMIT = int(os.environ.get("VP_LIMIT", "3000" if "thorough" in sys.argv else "600"))


def parallel(jobs, res, procs=8):
    """jobs: [(function, args)] each returning a Result; merged into res"""
    if procs == 1 or len(jobs) < 2:
        for j in jobs:
            res.merge(_work(j))
        return res
    done = 0
    with Pool(min(procs, len(jobs))) as pool:
        k = max(1, min(40, len(jobs) // (procs * 4)))
        it = pool.imap_unordered(_works, [jobs[j:j + k] for j in range(0, len(jobs), k)])
        while True:
            try:
                for r in it.next(max(1, LIMIT - (time.time() - START))):
                    res.merge(r)
                    done += 1
            except StopIteration:
                break
            except PoolTimeout:
                # an answer about the rest, however long it takes, is worth more than none about any
                res.und("time", f"{len(jobs) - done} of {len(jobs)} analyses not finished after {LIMIT} s")
                res.cut = True
                pool.terminate()
                break
    return res


def cases(e, s, v):
    """[(facts, bool)] for a boolean value"""
    if isinstance(v, Lin):
        v = c_ne(v) if v.const is None else v.const != 0
    out = []
    if v is True or v is False:
        return [(s.F, v)]
    for F in e.assume(s.F, v):
        out.append((F, True))
    for F in e.assume(s.F, neg(v)):
        out.append((F, False))
    return out
