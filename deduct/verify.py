"""Run one Verus unit on the current /repo: extraction, verification, classification of the outcome."""
import hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract

OBLIG = re.compile(
    r"postcondition not satisfied|precondition not (satisfied|met)|invariant not satisfied|assertion failed|assert(ion)? .*failed"
    r"|possible arithmetic (under|over)flow|possible (division|bit shift)|decreases not satisfied|could not prove termination|termination"
    r"|recommendation not met|index out of bounds|unreachable|requires not satisfied|possible .* out of bounds|loop must have a decreases|bitvector assertion|bitvector ensures|cannot show|ensures not satisfied|condition failed|might not be allowed|unable to prove|panic",
    re.I,
)
RLIMIT = re.compile(r"rlimit|resource limit|timed? ?out|solver.*unknown", re.I)


SAFETY = re.compile(r"precondition not met: |possible arithmetic (under|over)flow|possible (division|bit shift)|decreases not satisfied|termination|index out of bounds|unreachable|possible .* out of bounds|loop must have a decreases|might not be allowed|panic", re.I)


def is_safety(m, out, lines, fn_of):
    """Does this failed obligation stand for a possible panic, overflow or endless loop (property P07)?

    Preconditions count if the callee is a core/alloc/vstd function or a trusted stand-in for one (unwrap, indexing, split_at, ...),
    not if it is a lemma or another extracted function."""
    if SAFETY.search(m["message"]):
        return True
    if "precondition" not in m["message"]:
        return False
    for s in m["spans"]:
        if "failed precondition" not in (s.get("label") or ""):
            continue
        if os.path.abspath(os.path.join(os.path.dirname(out), s["file_name"])) != os.path.abspath(out):
            return True
        l = s["line_start"]
        if fn_of(l):
            return False
        for i in range(l - 1, max(0, l - 60), -1):
            t = lines[i]
            if re.search(r"assume_specification", t):
                return True
            if re.search(r"\bfn \w+", t):
                return "proof fn" not in t
        return False
    return True  # the precondition is not in this file: a core/alloc/vstd function


BASELINE = os.path.join(HERE, "baseline.json")


def fn_hashes(meta, out):
    lines = open(out).read().split("\n")
    return {f["id"]: hashlib.sha1("\n".join(lines[f["start"] - 1 : f["end"]]).encode()).hexdigest()[:12] for f in meta["functions"] if f["mode"] == "prove"}


def run_unit(repo, unit, tpls, workdir, rlimit=60, seed=None, threads=3, timeout=600):
    """One unit; a failed obligation counts only if it also fails under another solver seed (the retry is limited to the functions concerned)."""
    r = run_once(repo, unit, tpls, workdir, rlimit, seed, threads, timeout)
    if r["status"] == "failed" and seed is None:
        names = sorted({f["function"] for f in r["failed"]})
        only = names[0] if len(names) == 1 else None
        r2 = run_once(repo, unit, tpls, workdir + "-retry", rlimit, 11, threads, timeout, only)
        r["wall_s"] = round(r["wall_s"] + r2["wall_s"], 2)
        if r2["status"] in ("failed", "ok"):
            names = {(f["cont"], f["function"]) for f in r2["failed"]}
            keep = [f for f in r["failed"] if (f["cont"], f["function"]) in names]
            for f in r["failed"]:
                if f not in keep:
                    r.setdefault("unstable", []).append(f"{f['cont']}::{f['function']}: {f['obligation']} (discharged with another solver seed)")
            r["errors"] = len(keep)
            r["verified"] = max(r["verified"], r2["verified"])
            r["failed"] = keep
            r["status"] = "failed" if keep else ("undecided" if r["undecided"] else "ok")
    return r


def run_once(repo, unit, tpls, workdir, rlimit=60, seed=None, threads=3, timeout=600, only=None):
    """tpls: [(template name, mode)].  Result dict: status ok|failed|undecided"""
    os.makedirs(workdir, exist_ok=True)
    out = os.path.join(workdir, unit + ".rs")
    res = dict(unit=unit, failed=[], undecided=[], functions=[], verified=0, errors=0, solver_ms=0, wall_s=0.0, trusted=[], rewrites=[], items=[])
    t0 = time.time()
    demoted = {}
    for rnd in range(8):
        files = [(os.path.join(HERE, "tpl", t + ".rs"), m) for t, m in tpls] + [(os.path.join(HERE, "tpl", "end.rs"), "prove")]
        try:
            meta = extract.expand(repo, files, out, demoted)
        except extract.Undecided as e:
            res["undecided"].append(dict(function="*", why=str(e)))
            res["status"] = "undecided"
            res["wall_s"] = time.time() - t0
            return res
        for d in meta["undecided"]:
            if d not in res["undecided"]:
                res["undecided"].append(d)
        cmd = ["verus", out, "--crate-type=bin", "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "1" if only else "2", "--num-threads", str(threads), "--rlimit", str(rlimit)]
        if only:
            cmd += ["--verify-root", "--verify-function", "*" + only]
        if seed:
            cmd += ["--smt-option", f"smt.random_seed={seed}"]
        res["cmd"] = " ".join(cmd)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
        except subprocess.TimeoutExpired:
            res["undecided"].append(dict(function="*", why="verifier timeout"))
            res["status"] = "undecided"
            res["wall_s"] = time.time() - t0
            return res
        msgs = []
        for l in p.stderr.splitlines():
            if l.startswith("{"):
                try:
                    msgs.append(json.loads(l))
                except ValueError:
                    pass
        try:
            js = json.loads(p.stdout)
        except ValueError:
            js = {}
        vr = js.get("verification-results", {})
        errs = [m for m in msgs if m.get("level", "").startswith("error") and m.get("spans")]

        def fn_of(line):
            best = None
            for f in meta["functions"]:
                if f["start"] <= line < f["end"]:
                    best = f
            return best

        gave_up = not vr.get("success") and not errs
        if gave_up or "verified" not in vr or vr.get("encountered-vir-error") or any(not (OBLIG.search(m["message"]) or RLIMIT.search(m["message"])) for m in errs):
            # not verifiable text: demote the functions holding the errors to contract-only and retry
            new = False
            for m in errs:
                if OBLIG.search(m["message"]) and "verified" in vr:
                    continue
                for s in m["spans"]:
                    f = fn_of(s["line_start"])
                    if f and f["id"] not in demoted and f["mode"] == "prove":
                        demoted[f["id"]] = "not accepted by the verifier: " + m["message"][:200]
                        new = True
            if not new and os.path.exists(BASELINE):
                # the verifier gave up without naming a function of the code: leave out the functions whose text is not the one
                # the templates were written against, and verify the rest
                base = json.load(open(BASELINE)).get(unit, {})
                hs = fn_hashes(meta, out)
                for f in meta["functions"]:
                    if f["mode"] == "prove" and f["id"] not in demoted and base.get(f["id"]) != hs[f["id"]]:
                        demoted[f["id"]] = "changed, and the verifier does not accept the unit with it: " + ((errs[0]["message"] if errs else p.stderr[-300:])[:200])
                        new = True
            if new:
                continue
            why = "; ".join(m["message"][:200] for m in errs[:3]) or p.stderr[-300:]
            res["undecided"].append(dict(function="*", why="verifier front end: " + why))
            res["status"] = "undecided"
            res["wall_s"] = time.time() - t0
            return res
        break
    res["wall_s"] = round(time.time() - t0, 2)
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    res["rewrites"], res["items"] = meta["rewrites"], meta["items"]
    breakdown = []
    smt = js.get("times-ms", {}).get("smt", {})
    res["solver_ms"] = smt.get("smt-run", 0)
    for m in smt.get("smt-run-module-times", []):
        breakdown += m.get("function-breakdown", [])
    res["lemmas"] = sorted(b["function"].split("::", 1)[1] for b in breakdown if b.get("mode:", b.get("mode")) == "proof")
    lines = open(out).read().split("\n")
    for m in errs:
        ps = [s for s in m["spans"] if s.get("is_primary")] or m["spans"]
        f = None
        for s in ps + m["spans"]:
            f = fn_of(s["line_start"])
            if f:
                break
        where = "; ".join(f"{s['line_start']}: {(s['text'][0]['text'].strip() if s.get('text') else '')}" + (f" [{s['label']}]" if s.get("label") else "") for s in m["spans"])
        rec = dict(function=f["name"] if f else "?", source=f["source"] if f else "?", cont=f["cont"] if f else "", key=f["key"] if f else "", obligation=m["message"], where=where, safety=is_safety(m, out, lines, fn_of), rendered=m.get("rendered", "")[:4000])
        if RLIMIT.search(m["message"]) or f is None:
            # resource limit, or a failure outside extracted functions (lemma of the template): not a verdict on the code
            res["undecided"].append(dict(function=rec["function"], why=m["message"] + " @ " + where[:200]))
        else:
            res["failed"].append(rec)
    for f in meta["functions"]:
        res["functions"].append(dict(name=(f["cont"] + "::" if f["cont"] else "") + f["name"], source=f["source"], mode=f["mode"], key=f["key"]))
    txt = open(out).read()
    res["trusted"] = scan_trusted(txt)
    res["status"] = "failed" if res["failed"] else ("undecided" if res["undecided"] else "ok")
    if vr.get("errors", 0) and not res["failed"] and not res["undecided"]:
        res["undecided"].append(dict(function="*", why="unclassified verifier error"))
        res["status"] = "undecided"
    return res


def scan_trusted(txt):
    r = []
    for m in re.finditer(r"#\[verifier::external_body\](?! /\*proved elsewhere)\s*(?:#\[[^\]]*\]\s*)*(pub\s+)?((?:broadcast\s+)?(?:proof\s+)?(?:fn|struct)\s+\w+)", txt):
        r.append(re.sub(r"\s+", " ", m.group(2)))
    for m in re.finditer(r"assume_specification[^\[]*\[\s*(.*?)\s*\]\s*\(", txt, re.S):
        r.append("assume_specification " + re.sub(r"\s+", "", m.group(1)))
    for m in re.finditer(r"\b(assume|admit)\s*\(", txt):
        r.append(f"{m.group(1)} at offset {m.start()}")
    for m in re.finditer(r"\baxiom fn (\w+)", txt):
        r.append("axiom " + m.group(1))
    for m in re.finditer(r"uninterp spec fn (\w+)", txt):
        r.append("uninterpreted " + m.group(1))
    return sorted(set(r))
