#!/usr/bin/env python3
"""Development: run the check of each planted bug's property on a patched copy of /repo.  trial.py [ids...]"""
import json, os, shutil, subprocess, sys

S = "/verif/seeded"
W = "/tmp/trial"
ids = sys.argv[1:] or sorted(os.listdir(S))
os.makedirs(W, exist_ok=True)
for i in ids:
    d = os.path.join(S, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    r = W + "/repo"
    shutil.rmtree(r, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    shutil.rmtree(r + "/target", ignore_errors=True)
    subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
    env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=W + "/build", VERIF_EVIDENCE=W + "/ev")
    p = subprocess.run(["python3", "/verif/check.py", prop, "quick"], capture_output=True, text=True, env=env, timeout=1500)
    lines = [l for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "UNDECIDED", "NOTE", "  failed"))]
    ev = json.load(open(f"{W}/ev/{prop}.json"))
    vf = subprocess.run(["bash", "-c", f"grep -h '^failed obligation\\|^  function' {W}/ev/replay/{prop}-* 2>/dev/null | sort | uniq | head -6"], capture_output=True, text=True).stdout
    print(f"{i} {prop} rc={p.returncode}", flush=True)
    for l in lines[:6]:
        print("   ", l[:200])
    for l in vf.splitlines():
        print("      proof:", l[:160])
    shutil.rmtree(W + "/ev", ignore_errors=True)
shutil.rmtree(W + "/repo", ignore_errors=True)
