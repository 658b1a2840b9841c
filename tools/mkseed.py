#!/usr/bin/env python3
"""Build and confirm a planted bug: mkseed.py SPEC.py ID...   SPEC defines SEEDS = {id: dict(prop, edits=[(file, old, new)], demo, needs, breaks)}.
Confirms in a scratch copy of /repo: patch builds, the stable tests pass, demo passes without / fails with the patch."""
import json, os, shutil, subprocess, sys, runpy
spec = runpy.run_path(sys.argv[1])["SEEDS"]
ids = sys.argv[2:] or list(spec)
BASE = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD | tail -1", shell=True, capture_output=True, text=True).stdout.strip()
DEMO = r'''#!/bin/bash
# run in the repository's root, after its build; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
asn1-rs = { path = "$R", features = ["datetime", "bigint"] }
[profile.dev]
debug = false
[workspace]
T
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" timeout 250 cargo run -q --offline
'''
S = "/tmp/seedscratch"
shutil.rmtree(S, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", S])
for i in ids:
    s = spec[i]
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    out = f"/verif/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    bad = None
    for f, old, new in s["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            bad = f"anchor {n} times in {f}"
            break
        open(p, "w").write(t.replace(old, new))
        orig = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout
        newl = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
        for l in newl:
            if l.strip() not in orig:
                print(f"{i}: WARNING changed line not in original: {l.strip()}")
    if bad:
        print(i, "BAD", bad); continue
    open(out + "/main.rs", "w").write(s["demo"])
    open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
    d = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(d)
    r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=S, capture_output=True, text=True)
    b = subprocess.run("cd %s && . /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedscratch/target; cd %s; cargo test $PKGS --all-features --offline --no-run 2>&1 | tail -5" % (S, S), shell=True, capture_output=True, text=True, executable="/bin/bash")
    t = subprocess.run("cd %s && . /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedscratch/target; cd %s; cargo test $PKGS --all-features --offline --no-fail-fast 2>&1 | grep -E '^test .*FAILED|test result: F|^error' | head -20" % (S, S), shell=True, capture_output=True, text=True, executable="/bin/bash")
    subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
    r0 = subprocess.run(["bash", out + "/demo.sh"], cwd=S, capture_output=True, text=True)
    okk = r0.returncode == 0 and r1.returncode != 0 and not t.stdout.strip()
    print(i, s["prop"], "OK" if okk else "PROBLEM", f"demo clean={r0.returncode} patched={r1.returncode}", t.stdout.strip()[:600], (r0.stderr[-400:] if r0.returncode else ""), flush=True)
    if not okk:
        print("   patched says:", (r1.stderr or r1.stdout)[-300:])
        shutil.move(out, "/tmp/bad_" + i) if not os.path.exists("/tmp/bad_" + i) else shutil.rmtree(out)
shutil.rmtree(S, ignore_errors=True)
