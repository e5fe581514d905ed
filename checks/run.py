"""Runner: decides one property on the dump in $VP_DUMP and writes its evidence."""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REG = {
    "codec": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10",
    "client": "L01 L02 L03 L04 L05 L06",
    "server": "S01 S02 S03 S04 S05 S06",
    "errors": "E01 E02 E03",
    "consts": "K01 K02 K03 K04",
    "hashes": "H01 H02",
    "tcp": "T01 T02 T03",
    "xcut": "X01 X02",
    "witness": "D01",
}


def known():
    """open findings: property -> {key: text}; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = next((m for m, ids in REG.items() if pid in ids.split()), None)
    if mod is None:
        print("unknown property", pid)
        return 1
    from checks import core
    res = core.Result()
    rc = os.environ.get("VP_DUMP_RC", "0")
    info = {}
    if rc != "0":
        log = ""
        try:
            log = open(os.environ["VP_DUMP_LOG"]).read()[-3000:]
        except Exception:
            pass
        err = [x for x in log.splitlines() if x.startswith("error")][:3]
        # the tree's own build and tests are not this check's business: decide what can be decided on the crates that were dumped
        res.und("build", "the current tree, or the witness crate instantiating its generic code, does not compile here: " + "; ".join(err))
        print(log[-1500:])
        print(f"UNDECIDED property={pid} the crates could not all be compiled")
    if True:
        m = importlib.import_module("checks." + mod)
        try:
            info = getattr(m, pid)(res, tier) or {}
        except Exception as ex:
            if os.environ.get("VP_DEBUG"):
                raise
            # the analysis met code it cannot follow: nothing is shown beyond what was found so far
            res.und("check", "internal error " + repr(ex)[:200])
            print(f"UNDECIDED property={pid} {repr(ex)[:200]}")
        for what, floor in info.get("floors", {}).items():
            if res.counts.get(what, 0) < floor and res.undecided:
                res.notes.append(f"only {res.counts.get(what, 0)} {what} (usually at least {floor}) because something was left undecided")
            elif res.counts.get(what, 0) < floor:
                res.bad("floor:" + what, f"only {res.counts.get(what, 0)} {what} were found (expected at least {floor}): "
                        "the analysed construct disappeared")
    kn = known().get(pid, {})
    viol = []
    for k, f in sorted(res.findings.items()):
        if k in kn:
            print(f"KNOWN-FINDING: property={pid} {k} {kn[k]}")
        else:
            viol.append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": info.get("rule", ""),
            "rule": info.get("rule", ""),
            "violation_list": [{"key": f.key, "what": f.msg, "where": f.loc} for f in viol],
            "counts": res.counts,
            "undecided": {k: str(v)[:300] for k, v in sorted(res.undecided.items())[:60]},
            "undecided_total": len(res.undecided),
            "functions": sorted(res.funcs)[:400],
            "notes": res.notes[:50],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": info.get("assumptions", []),
        "violations": len(viol),
    }
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    print(f"{pid}: " + ", ".join(f"{v} {k}" for k, v in sorted(res.counts.items())) +
          f"; {len(res.undecided)} undecided; {ev['wall_s']} s")
    if not viol:
        return 0
    for f in viol[:40]:
        print(f"  {f.loc}: {f.msg}"[:600])
    rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
    with open(rp, "w") as fh:
        for f in viol:
            fh.write(f"{f.key}\n  {f.loc}\n  {f.msg}\n")
        fh.write(f"replay: bash {HERE}/check.sh {pid}\n")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
