"""Writes MANIFEST.json: every property with a check module function is claimed."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
os.environ.setdefault("VP_DUMP", "/nonexistent")
from checks.run import REG
TECH = {
    "codec": "interprocedural abstract interpretation of rustc MIR (symbolic wire layouts, length invariants, panic reachability)",
    "client": "interprocedural abstract interpretation of rustc MIR with effect log at the transport and session boundaries",
    "server": "path-partitioned abstract interpretation of rustc MIR with effect log at the generator/entropy boundaries",
    "errors": "outcome partition of the pure conversion functions by abstract interpretation of MIR, compared with the specification's tables",
    "consts": "evaluated constants and bit-exact dataflow from MIR compared with transcribed specification tables",
    "hashes": "outcome partition of the hash tables and codecs by abstract interpretation of MIR",
    "tcp": "effect-sequence (typestate) analysis of the simulator protocol over MIR",
    "xcut": "whole-program lint over MIR: error-result dataflow, unsafe/std/extern inventory",
    "witness": "compile-fail witnesses against the derive macros: each ill-formed declaration must be rejected by the compiler, its well-formed twin accepted",
}
NA = {}
for l in open(os.path.join(H, "tools", "not_applicable.txt")):
    if ":" in l:
        k, v = l.strip().split(":", 1)
        NA[k] = v.strip()
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
mod = {i: m for m, ids in REG.items() for i in ids.split()}
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    try:
        m = importlib.import_module("checks." + mod[p])
        assert hasattr(m, p)
    except (ImportError, AssertionError, KeyError):
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p} quick",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH[mod[p]],
        "level": "other",
        "level_note": "sound-by-construction static decision over all paths of the analysed functions; what could not be decided "
                      "is listed as undecided in the evidence and never counted as held; see DESIGN.md",
    })
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(out, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", [x["property"] for x in na], "not")
