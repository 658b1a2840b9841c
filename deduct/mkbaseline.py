#!/usr/bin/env python3
"""Writes deduct/baseline.json: hashes of the extracted functions the templates were written against (used only to decide which
functions to leave out when the verifier cannot process a unit of a changed tree at all)."""
import json, os, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract, verify
from props import UNITS
b = {}
with tempfile.TemporaryDirectory() as d:
    for u, tpls in UNITS.items():
        out = os.path.join(d, u + ".rs")
        meta = extract.expand("/repo", [(os.path.join(HERE, "tpl", t + ".rs"), m) for t, m in tpls] + [(os.path.join(HERE, "tpl", "end.rs"), "prove")], out, {})
        assert not meta["undecided"], meta["undecided"]
        b[u] = dict(sorted(verify.fn_hashes(meta, out).items()))
json.dump(b, open(verify.BASELINE, "w"), indent=0, sort_keys=True)
