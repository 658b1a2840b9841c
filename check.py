#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   -- decide one property on the current tree of /repo.

exit 0: held on everything explored; 1: violation (line VIOLATION property=.. replay=..).
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "deduct"))
import verify
from props import PROPS, UNITS, TRUST

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode = 124
            stdout = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            stderr = "timeout"
        return R()


def known_lines():
    k, fixed = [], []
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        m = re.match(r"finding: property=(\S+) kind=(\S+) input=(\S*) (.*)$", l)
        if m:
            k.append(m.groups())
        elif l.startswith("fixed:"):
            fixed.append(l)
    return k, fixed


# ------------------------------------------------------------------ native layer
def native_build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "native"), RUSTFLAGS="")
    src = os.path.join(ROOT, "native")
    if REPO != "/repo":
        # development only: same harness against another copy of the repository
        d = os.path.join(BUILD, "native-src")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d)
        p = os.path.join(d, "Cargo.toml")
        s = open(p).read().replace('"/repo"', f'"{REPO}"')
        open(p, "w").write(s)
        src = d
    r = sh(["cargo", "build", "--offline", "--locked"], 800, cwd=src, env=env)
    return r.returncode == 0, r.stderr[-3000:]


def native_bin():
    return os.path.join(BUILD, "native", "debug", "asn1-native")


def native_run(prop, tier, seed, work, known, only=None, budget=800):
    out = os.path.join(work, "native.json")
    if os.path.exists(out):
        os.remove(out)
    kf = os.path.join(work, "known.txt")
    with open(kf, "w") as f:
        for p, k, h, _ in known:
            f.write(f"{p} {k} {h or '-'}\n")
    tr = os.path.join(work, "trace.txt")
    cmd = [native_bin(), "run", prop, tier, str(seed), out, "known", kf]
    if only:
        cmd += ["only", only]
    r = sh(cmd, budget)
    if r.returncode in (0, 1, 3) and os.path.exists(out):
        return r.returncode, json.load(open(out)), None
    # crashed (stack overflow / abort): find the case with the tracing single-threaded run
    r2 = sh(cmd + ["trace", tr], budget)
    last = open(tr).read().splitlines()[0].split(" ") if os.path.exists(tr) and os.path.getsize(tr) else None
    if r2.returncode in (0, 1, 3) and os.path.exists(out):
        return r2.returncode, json.load(open(out)), None
    return r2.returncode, None, (last, r2.stderr[-1500:])


def replay_file(prop, name, content):
    d = os.path.join(ROOT, "evidence", "replay")
    if EVID != os.path.join(ROOT, "evidence"):
        d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{name}.txt")
    open(p, "w").write(content)
    return p


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[prop]
    work = os.path.join(BUILD, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    known, fixed = known_lines()
    known = [k for k in known if k[0] == prop]
    violations, notes = [], []

    # layer A (deciding): deductive verification of extracted functions; layer B: native build in parallel
    # a unit may be restricted to the functions keyed to some properties ("ints:P04"): failures elsewhere in it belong to another property
    sel = {u.split(":")[0]: (set(u.split(":")[1].split("+")) if ":" in u else None) for u in P["units"]}
    # units proving the contracts that the property's own units assume: run too, so that nothing proved rests on an unproved contract;
    # a failure there is reported by the properties that own the function and makes this one's proof incomplete (UNDECIDED here)
    provers = {t: u for u, tp in UNITS.items() for t, m in tp if m == "prove"}
    todo = list(sel)
    while todo:
        for t, m in UNITS[todo.pop()]:
            if provers[t] not in sel:
                sel[provers[t]] = set()
                todo.append(provers[t])
    cost = ["tobs", "tober", "tobc", "laws", "ints", "iter"]
    units = sorted(sel, key=lambda u: cost.index(u) if u in cost else 99)
    with cf.ThreadPoolExecutor(8) as ex:
        nb = ex.submit(native_build)
        jobs = []
        for u in units:
            jobs.append((u, None, ex.submit(verify.run_unit, REPO, u, UNITS[u], os.path.join(work, "verus"), 60 if tier == "quick" else 200)))
        if tier == "thorough":
            # proof stability: same obligations under other solver seeds
            for s in (7, 23):
                for u in units:
                    jobs.append((u, s, ex.submit(verify.run_unit, REPO, u, UNITS[u], os.path.join(work, f"verus{s}"), 200, s)))
        vres = []
        stab = []
        for u, s, j in jobs:
            (vres if s is None else stab).append(j.result())
        ok, err = nb.result()
    # "unit:safety" (P07): all functions of the unit, but only the obligations that exclude panics, overflow and endless loops
    mine = lambda r, key: sel[r["unit"]] is None or "safety" in sel[r["unit"]] or bool(sel[r["unit"]] & set((key or "").split("+")))
    owned = lambda r, f: mine(r, f["key"]) and (sel[r["unit"]] is None or "safety" not in sel[r["unit"]] or f["safety"])
    failed = [(r, f) for r in vres for f in r["failed"] if owned(r, f)]
    for r in vres:
        for f in r["failed"]:
            if not owned(r, f):
                r["undecided"].append(dict(function=f["function"], why=f"obligation failed ({f['obligation'][:60]}); it belongs to another property ({f['key'] or 'see the unit'})"))
    undec = [(r["unit"], d) for r in vres for d in r["undecided"]]
    if undec:
        for u, d in undec:
            print(f"UNDECIDED property={prop} unit={u} function={d['function']} reason={d['why'][:160]}")

    # layer B: bounded stand-in and witness search on the real crate
    nat = None
    nviol = []
    if not ok:
        notes.append("native harness did not build against the current tree (public interface changed?): " + err[-400:])
        print(f"NOTE property={prop} native harness did not build: bounded layer skipped")
    else:
        budget = 250 if tier == "quick" else 780
        rc, nat, crash = native_run(prop, tier, seed, work, known, budget=budget)
        if crash:
            last, tail = crash
            if rc == 124:
                notes.append("native layer exceeded its time budget")
                print(f"NOTE property={prop} native layer exceeded its time budget")
            else:
                nviol.append((last[0] if last else "?", last[1] if last and len(last) > 1 else "", f"process died (rc={rc}): {tail[-300:]}"))
        else:
            for k in nat["kinds"]:
                for v in k["violations"]:
                    nviol.append((k["kind"], v["hex"], v["msg"]))
            if nat["hang"]:
                nviol.append((nat["hang"]["kind"], nat["hang"]["hex"], "did not terminate within 20 s"))
            for k, h, d in [(k[1], k[2], k[3]) for k in known]:
                hit = any(kk["kind"] == k and h in kk["known"] for kk in nat["kinds"])
                if hit:
                    print(f"KNOWN-FINDING: property={prop} {d} (input {h})")
                else:
                    notes.append(f"known finding no longer reproduces: {k} {h}")
        if failed and not nviol and rc in (0, 1) and tier == "quick":
            # an obligation failed: look harder for a failing input
            for s in range(2, 5):
                rc, n2, crash = native_run(prop, "quick", seed + s * 1000, work, known, budget=60)
                if n2:
                    for k in n2["kinds"]:
                        for v in k["violations"]:
                            nviol.append((k["kind"], v["hex"], v["msg"]))
                if nviol:
                    break

    obligations_txt = ""
    for r, f in failed:
        obligations_txt += f"failed obligation: {f['obligation']}\n  function {f['cont']}::{f['name'] if 'name' in f else f['function']} ({f['source']})\n  {f['where']}\n  unit {r['unit']}; command: {r['cmd']}\n\n{f['rendered']}\n\n"

    if nviol:
        seen = set()
        for i, (k, h, m) in enumerate(nviol):
            if k in seen:
                continue
            seen.add(k)
            p = replay_file(prop, k, f"property {prop}: {P['title']}\nkind {k}\ninput {h}\nresult {m}\nreplay: cd /verif && ./replay.sh {k} {h}\n\n{obligations_txt}")
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {k} input={h[:200]} : {m[:300]}")
            violations.append(dict(kind=k, input=h, what=m, replay=p))
            if len(seen) >= 5:
                break
    elif failed:
        p = replay_file(prop, "obligation", f"property {prop}: {P['title']}\nno failing input found by the bounded search\n\n{obligations_txt}")
        for r, f in failed[:5]:
            print(f"  failed obligation: {f['obligation']} in {f['function']} ({f['source']})")
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        violations.append(dict(kind="obligation", functions=[f["function"] for _, f in failed], replay=p))

    # ---------------------------------------------------------------- evidence
    proved = [f for r in vres for f in r["functions"] if f["mode"] == "prove" and mine(r, f["key"])]
    assumed = [f for r in vres for f in r["functions"] if f["mode"] == "assume"]
    discharged = sum(r["verified"] for r in vres)
    total = discharged + sum(r["errors"] for r in vres) + len(undec)
    trusted = sorted({t for r in vres for t in r["trusted"]})
    level = P["level"]
    cov = dict(
        obligations=total,
        discharged=discharged,
        checker_cmd=f"python3 /verif/check.py {prop} {tier}",
        trusted_base=["Verus 0.2026.09.13 / vstd / Z3 (as shipped)", "extractor /verif/deduct/extract.py (drops and rewrites listed below)"] + trusted + TRUST,
        functions_under_contract=sorted({f"{f['name']} ({f['source']})" for f in proved}),
        dependencies_proved=sorted({f"{f['name']} ({f['source']})" for r in vres for f in r["functions"] if f["mode"] == "prove" and not mine(r, f["key"])}),
        contract_only_in_a_unit=sorted({f"{f['name']} ({f['source']})" for f in assumed}),
        lemmas=sum(len(r.get("lemmas", [])) for r in vres),
        units=[dict(unit=r["unit"], status=r["status"], verified=r["verified"], errors=r["errors"], solver_ms=r["solver_ms"], wall_s=r["wall_s"]) for r in vres],
        back_end="Verus -> Z3",
        extraction=dict(drops=extract_consts()[0], rewrites=extract_consts()[1], applied=sorted({x for r in vres for x in r["rewrites"]})[:60]),
        undecided=[dict(unit=u, **d) for u, d in undec],
        proof_stability=[dict(unit=r["unit"], status=r["status"], verified=r["verified"]) for r in stab],
        scope_of_proof=P["proof"],
        bounded_standin=dict(
            label="bounded: not counted as proved",
            kinds=[dict(kind=k["kind"], domain=k["domain"], evaluations=k["evaluations"], nontrivial=k["nontrivial"], truncated=k["truncated"]) for k in nat["kinds"]] if nat else [],
        ),
        explanation=P["proof"],
    )
    if nat:
        cov["evaluations"] = sum(k["evaluations"] for k in nat["kinds"])
        cov["distinct_nontrivial"] = sum(k["nontrivial"] for k in nat["kinds"])
        cov["rule"] = "bounded layer: every enumerated/seeded input of each kind is run through the real crate and compared with an independent executable specification (native/src/spec.rs); nontrivial = the property's premise held"
        cov["samples"] = [dict(kind=k["kind"], input=s) for k in nat["kinds"] for s in k["samples"][:2]][:12]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=P.get("assumptions", []) + notes,
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    shutil.rmtree(os.path.join(work, "verus"), ignore_errors=True) if not violations else None
    print(f"{prop} {tier}: {len(proved)} functions under contract, {discharged}/{total} obligations discharged" + (f", bounded layer {cov.get('evaluations')} cases" if nat else "") + f", {ev['wall_s']} s")
    return 1 if violations else 0


def extract_consts():
    import extract
    return extract.DROPS, extract.REWRITES


if __name__ == "__main__":
    sys.exit(main())
