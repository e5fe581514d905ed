#!/usr/bin/env python3
"""Prints the layouts of the current dump in the oracle's format (used once to draft oracle/layouts.json,
which was then reviewed line by line against TPM 2.0 Part 2; checks never run this)."""
import json
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.core import *
from checks import wire
SIZEOF = "Attest SensitiveCreate Public Template Private IdObject ContextData CreationData".split()
out = {}
for c in ("tpm2_rs_base", "tpm2_client"):
    P = prog(c)
    for ts, d in wire.codecs(P).items():
        g, why = wire.grammar(P, ts, d["try_marshal"])
        if g is not None:
            if ts.startswith("Tpm2b") and ts[5:] in SIZEOF:
                g = [re.sub(r"<=\d+", "<=*", x) for x in g]
            out[ts] = g
json.dump(out, sys.stdout, indent=1)
print()
