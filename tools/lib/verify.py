#!/usr/bin/env python3
"""Extract the functions under contract from /repo's working tree and have Verus discharge every
obligation; map each diagnostic back to (function, clause, properties)."""
import glob, json, os, re, subprocess, sys, time, shutil

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.realpath(__file__)), "..", ".."))
REPO = os.environ.get("VX_REPO", "/repo")


def build_extractor():
    d = os.path.join(VERIF, "tools/extract")
    b = os.path.join(d, "target/debug/vx-extract")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, capture_output=True, text=True)
    if not os.path.exists(b):
        raise RuntimeError("extractor does not build:\n" + p.stderr)
    return b


def extract(binary, workdir, repo=REPO, trust=(), nocontract=(), contracts=None, name="out", probe=None, derive=None):
    os.makedirs(workdir, exist_ok=True)
    out, mp = os.path.join(workdir, name + ".rs"), os.path.join(workdir, name + ".json")
    cmd = [binary, "--repo", repo, "--out", out, "--map", mp]
    for f in contracts or sorted(glob.glob(os.path.join(VERIF, "contracts", "*.vspec"))):
        cmd += ["--contracts", f]
    if probe:
        cmd += ["--probe", probe]
    if derive:
        cmd += ["--derive", derive]
    if trust:
        cmd += ["--trust", ",".join(trust)]
    if nocontract:
        cmd += ["--nocontract", ",".join(nocontract)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        return None, None, p.stderr[-4000:]
    return out, json.load(open(mp)), None


def run_verus(out, extra=(), timeout=800):
    t0 = time.time()
    cmd = ["verus", out, "--multiple-errors", "20", "--triggers-mode", "silent", "--error-format=json",
           "--output-json", "--time-expanded", "--num-threads", str(os.cpu_count() or 4)] + list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(out))
    except subprocess.TimeoutExpired:
        return {"timeout": True, "diags": [], "json": {}, "wall": time.time() - t0, "rc": -1}
    diags = []
    for l in p.stderr.splitlines():
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("$message_type") == "diagnostic" or "spans" in d:
                diags.append(d)
    try:
        js = json.loads(p.stdout)
    except ValueError:
        js = {}
    return {"timeout": False, "diags": diags, "json": js, "wall": time.time() - t0, "rc": p.returncode, "stderr": p.stderr[-3000:] if not diags else ""}


VERIF_MSG = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|"
                       r"recommendation not met|possible division|resource limit|rlimit|could not prove termination|decreases not satisfied|"
                       r"loop invariant|possible bit shift|unable to prove|not satisfied|cannot prove|while loop: Resource", re.I)


def analyse(m, diags):
    """-> (failures, compile_errors); each has fn key, line, message, clause names, rendered text"""
    fns = m["functions"]

    def fn_at(line):
        best = None
        for f in fns:
            if f["from"] <= line <= f["to"] and (best is None or f["from"] >= best["from"]):
                best = f
        return best

    fails, comp = [], []
    for d in diags:
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to") or not d.get("spans"):
            continue
        isv = bool(VERIF_MSG.search(msg)) and d.get("code") is None
        spans = d["spans"]
        # the function whose body fails: for postconditions the non-primary span, for preconditions the primary
        cands = []
        for s in spans:
            f = fn_at(s["line_start"])
            cands.append((s, f))
        clause, owner, body = None, None, None
        for s, f in cands:
            if f is None:
                continue
            inclause = None
            for c in f.get("clauses", []):
                if c["from"] <= s["line_start"] <= c["to"]:
                    inclause = c
            if inclause is not None:
                clause, owner = inclause, f
            else:
                body = f
        if body is None:
            body = owner
        rec = {"fn": body["key"] if body else None, "message": msg, "clause": None, "clause_fn": owner["key"] if owner else None,
               "line": spans[0]["line_start"], "rendered": d.get("rendered", "")}
        if clause is not None:
            rec["clause"] = clause.get("name") or "%s#%d" % (clause["kind"], owner["clauses"].index(clause))
            rec["clause_kind"] = clause["kind"]
        (fails if isv else comp).append(rec)
    return fails, comp


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--trust", default="")
    ap.add_argument("--repo", default=REPO)
    ap.add_argument("--work", default="/tmp/vx")
    ap.add_argument("--auto", action="store_true", help="trust functions without contract")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--fn", default="")
    a, rest = ap.parse_known_args()
    b = build_extractor()
    out, m, err = extract(b, a.work, a.repo, [t for t in a.trust.split(",") if t])
    if err:
        print(err); sys.exit(2)
    if a.auto:
        tr = sorted({g["key"] for g in m["functions"] if not g["contract"] and g["has_body"]} | {t for t in a.trust.split(",") if t})
        out, m, err = extract(b, a.work, a.repo, tr)
        if err:
            print(err); sys.exit(2)
    for k in m.get("missing_contract_targets", []):
        print("MISSING TARGET", k)
    for f in m["functions"]:
        if f["drift"]:
            print("DRIFT", f["key"], f["drift"])
        if f["contract"] and f["calls_uncontracted"]:
            print("UNCONTRACTED-CALLS", f["key"], f["calls_uncontracted"])
    r = run_verus(out, rest)
    fails, comp = analyse(m, r["diags"])
    for c in comp:
        print("COMPILE", c["fn"], c["message"][:200], "line", c["line"])
        print(c["rendered"][:1500])
    for f in fails:
        if a.fn and a.fn not in (f["fn"] or ""):
            continue
        print("FAIL", f["fn"], "|", f["message"][:60], "|", f["clause_fn"], f["clause"], "| line", f["line"])
        if a.v:
            print(f["rendered"])
    print(r["json"].get("verification-results"), "wall %.1f" % r["wall"], r.get("stderr", ""))
