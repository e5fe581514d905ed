"""X01-X02: properties over all crates."""
from .core import *
from .codec import fname, is_dbg
from .errors import last
from .server import ev_ok, opaque, Server
from .tcp import io_hook, meth

CRATES = ("tpm2_rs_marshalable", "tpm2_rs_base", "tpm2", "tpm2_client", "tpm2_impl", "vp_probe")
# documented retries: a failed attempt is followed by another one
RETRY = ("TcpStream::connect", "fs::read_to_string")
SYS = ("std::io::", "core::io::", "std::net::", "std::process::", "std::fs::")


def relied(e, name):
    """is this call one of the fallible operations the library is built on"""
    if any(name.replace("<", "").startswith(p) or "::" + p in name or " " + p in name for p in SYS):
        return True
    return False


def is_result(P, ty):
    t = P.T[ty]
    return t["k"] == "adt" and t["path"].endswith("result::Result")


def is_option(P, ty):
    t = P.T[ty]
    return t["k"] == "adt" and t["path"].endswith("option::Option")


def failures(e, F, events, inner=False):
    """[(what failed, why)] on a path that goes on to succeed"""
    out = []
    for ev in events:
        if ev[0] in ("ENCERR", "DECERR"):
            out.append((("encoding" if ev[0] == "ENCERR" else "decoding") + " of " + str(ev[1])[:60], "failed"))
        elif ev[0] in ("W", "R"):
            ok = ev_ok(F, ev[4]) if ev[4] is not None else ev[5].var == 0
            if ok is not True:
                out.append((ev[2], "failed" if ok is False else "was not looked at"))
        elif ev[0] == "call":
            ty = e.rets.get(ev[3])
            if ty is None or not is_result(e.P, ty):
                continue
            if not (relied(e, ev[1]) or ev[1].split("::")[0].lstrip("<") in REPO or repo_trait(e, ev[1])):
                continue
            ok = ev_ok(F, ev[3])
            if ok is not True:
                out.append((ev[1], "failed" if ok is False else "was not looked at"))
        elif ev[0] == "ERR":
            out.append((ev[1], "failed"))
        elif ev[0] == "star":
            for b in ev[1].bodies:
                out += failures(e, b[1].F, b[0], True)
    return out


def repo_trait(e, name):
    c = e.P.__dict__.setdefault("_rtraits", None)
    if c is None:
        c = {t["path"] if isinstance(t, dict) else t for t in e.P.d.get("traits", ())}
        e.P._rtraits = c
    p = name.rsplit("::", 1)[0]
    return p in c or any(p.endswith("::" + x) or x.endswith("::" + p) for x in c) or not p.startswith(("core::", "std::", "alloc::", "<"))


def one(c, i):
    res = Result()
    P = prog(c)
    opts = {"join": False, "inline_leaves": 6, "err_events": True, "max_states": 4000}
    run = Run(P, i, hooks=(io_hook, contracts.marshal_hook), opts=opts)
    if run.err and "too many states" in run.err:
        run = Run(P, i, hooks=(io_hook, contracts.marshal_hook), opts={"err_events": True, "max_states": 4000})
    e = run.e
    res.n("fallible operations")
    res.funcs.add(run.name)
    if run.err:
        res.und(run.name, run.err)
        return res
    x = P.I[i]
    good = 1 if is_option(P, run.ret_ty()) else 0
    for s, v in run.outs:
        d = is_ok(e, v, s.F) if good == 0 else (v.var == 1 if isinstance(v, Agg) else None)
        fs = [s.F]
        if d is None and isinstance(v, Unk):
            from absint.vals import c_eq
            fs = e.assume(s.F, c_eq(e.discr(v) - good))
        elif d is not True:
            if d is None:
                res.und(run.name, "outcome not decidable")
            continue
        for F in fs:
            if not F.feasible():
                continue
            res.n("success outcomes")
            for what, why in failures(e, F, s.events()):
                if why == "failed" and any(r in what for r in RETRY):
                    continue
                o = opaque(s)
                if o:
                    res.und(run.name, o)
                    continue
                res.bad(f"{run.name}:{meth(what)}", f"{run.name} can report success although {what} {why}", short_span(x.get("span")))
    return res


def replies(name):
    """a reply with response code 0 is the server's success report"""
    from absint.vals import c_eq
    res = Result()
    sv = Server(name)
    run, e = sv.run, sv.e
    if run.err:
        res.und(run.name, run.err)
        return res
    for s, v in run.outs:
        if opaque(s):
            res.und(run.name, opaque(s))
            continue
        r = sv.reply(s, s.F)
        if r is None:
            res.und(run.name, "reply not resolved")
            continue
        for F in e.assume(s.F, c_eq(r[2])):
            if not F.feasible():
                continue
            if isinstance(v, Lin) and not any(g.feasible() for g in e.assume(F, ("le", K(10) - v))):
                continue
            res.n("success replies")
            for what, why in failures(e, F, [ev for ev in s.events() if ev[0] != "ERR"]):
                res.bad(f"{name}:{meth(what)}", f"the server answers with success although {what} {why} (entered from {run.name})",
                        "crates/tpm2-impl/src/tpmctx.rs")
    return res


def X01(res, tier):
    jobs = [(replies, (n,)) for n in ("server_separate", "server_in_place")]
    for c in CRATES:
        P = prog(c)
        for i in P.roots:
            x = P.I[i]
            b = x.get("body")
            if not b or is_dbg(x) or not (is_result(P, b["locals"][0]) or is_option(P, b["locals"][0])):
                continue
            if c != "vp_probe" and x["crate"] != c:
                continue
            jobs.append((one, (c, i)))
    parallel(jobs, res)
    return dict(rule="every function that returns a Result is followed on all paths; on every path that ends in Ok, each call that can fail and that "
                "the analysis does not follow into (trait operations supplied by the user, component codecs, standard input and output) must have "
                "been inspected and have succeeded; failures of calls that are followed into show up at the innermost such call",
                assumptions=["the documented connection and port-file retries are allowed to fail before a later success"],
                floors={"fallible operations": 300, "success outcomes": 300})


# ------------------------------------------------------------------ X02
PKGS = {"tpm2": "crates/tpm2", "tpm2-rs-marshalable": "marshalable", "tpm2-rs-base": "base", "tpm2-client": "crates/tpm2-client",
        "tpm2-impl": "crates/tpm2-impl"}
OURS = {"tpm2", "tpm2_rs_marshalable", "tpm2_rs_marshalable_derive", "tpm2_rs_base", "tpm2_client", "tpm2_impl"}


def repo_root():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    m = re.search(r'path = "(.*?)/crates/tpm2"', open(os.path.join(here, "probe", "Cargo.toml")).read())
    return m.group(1) if m else "/repo"


def asks_std(feats, f, seen=()):
    """does enabling feature f ask for the standard library"""
    if f in seen:
        return False
    if f == "std" or f.endswith("/std") or f.endswith("?/std"):
        return True
    return any(asks_std(feats, g, seen + (f,)) for g in feats.get(f, ()))


def lite(job):
    """compile one portable crate in one configuration without the standard library; what the compiler loaded"""
    import json
    import shutil
    import subprocess
    import tempfile
    root, pkg, feats = job
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    w = tempfile.mkdtemp(prefix="vp-lite.")
    try:
        os.makedirs(w + "/src")
        open(w + "/src/lib.rs", "w").write("#![no_std]\n")
        fl = ", ".join(f'"{f}"' for f in feats)
        open(w + "/Cargo.toml", "w").write(
            f'[package]\nname = "vp-lite"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
            f'{pkg} = {{ path = "{root}/{PKGS[pkg]}", default-features = false, features = [{fl}] }}\n')
        shutil.copy(os.path.join(here, "probe", "Cargo.lock"), w + "/Cargo.lock")
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
            env.pop(k, None)
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        dt = env.get("VP_DRIVER_TARGET") or os.path.join(here, "driver", "target")
        crate = pkg.replace("-", "_")
        env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
                   LD_LIBRARY_PATH=sysroot + "/lib", VP_LITE="1", VP_OUT=w + "/out", VP_CRATES=crate, RUSTC_WRAPPER=dt + "/debug/vp-mir-dump")
        r = subprocess.run(["cargo", "check", "--offline", "-q", "--lib", "--manifest-path", w + "/Cargo.toml", "--target-dir", w + "/t"],
                           env=env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0 and "could not compile `" + pkg not in r.stderr:
            return pkg, feats, None, None
        if r.returncode != 0:
            return pkg, feats, None, [x for x in r.stderr.splitlines() if x.startswith("error")][:3] or [r.stderr[-300:]]
        return pkg, feats, json.load(open(f"{w}/out/{crate}.json")), None
    finally:
        shutil.rmtree(w, ignore_errors=True)


def own_unsafe(u):
    """unsafe code the repository is responsible for: written by hand or by one of its own macros"""
    if u["kind"] == "block" and not u.get("user"):
        return False
    ms = u.get("macros") or []
    return not ms or ms[0] in OURS


def X02(res, tier):
    import itertools
    import tomllib
    from concurrent.futures import ThreadPoolExecutor
    root = repo_root()
    jobs = []
    for pkg, d in PKGS.items():
        try:
            t = tomllib.load(open(f"{root}/{d}/Cargo.toml", "rb"))
        except OSError:
            res.und(pkg, "no manifest")
            continue
        feats = t.get("features", {})
        free = sorted(f for f in feats if not asks_std(feats, f))[:4]
        for k in range(len(free) + 1):
            for c in itertools.combinations(free, k):
                jobs.append((root, pkg, c))
        if pkg == "tpm2":
            deps = dict(t.get("dependencies", {}))
            for v in t.get("target", {}).values():
                deps.update(v.get("dependencies", {}))
            res.n("dependency lists")
            if deps:
                res.bad("deps", "the foundation crate depends on " + ", ".join(sorted(deps)), d + "/Cargo.toml")
    with ThreadPoolExecutor(5) as ex:
        for pkg, feats, j, err in ex.map(lite, jobs):
            what = pkg + (" with " + "+".join(feats) if feats else " without features")
            where = PKGS[pkg] + "/src/lib.rs"
            res.n("configurations without the standard library")
            if j is None and err is None:
                res.und(what, "the compiler could not be run")
                continue
            if j is None:
                res.bad(f"build:{what}", f"{what} does not build without the standard library: " + "; ".join(err), where)
                continue
            res.funcs.add(what)
            for x in ("std", "alloc"):
                if x in j["externs"]:
                    res.bad(f"{x}:{pkg}", f"{what} pulls in the crate {x}", where)
            if pkg == "tpm2" and set(j["externs"]) - {"core", "compiler_builtins", "std", "alloc"}:
                res.bad("deps", f"the foundation crate loads {sorted(set(j['externs']) - {'core', 'compiler_builtins'})}", where)
            unsafe_of(res, j, pkg)
    for c in ("tpm2", "tpm2_rs_marshalable", "tpm2_rs_base", "tpm2_client", "tpm2_impl"):
        unsafe_of(res, prog(c).d, c)
    return dict(rule="each portable crate is type-checked in every feature configuration that does not ask for std; the compiler's list of loaded "
                "crates must contain neither std nor alloc; no unsafe block, function, extern block or unsafe trait impl may be written in "
                "the crates or produced by their own macros, in those configurations and with all features; the foundation crate has no dependencies",
                assumptions=["without the alloc crate no heap allocation is possible", "expansions of third-party macros are their authors' responsibility"],
                floors={"configurations without the standard library": 5, "crates scanned for unsafe code": 8})


def unsafe_of(res, j, pkg):
    res.n("crates scanned for unsafe code")
    for u in j["unsafe"]:
        res.n("unsafe constructs looked at")
        if own_unsafe(u):
            res.bad(f"unsafe:{u['owner']}", f"unsafe {u['kind']} in {u['owner']}", short_span(u["span"]))
