#!/usr/bin/env python3
"""check <property> — decide one property on /repo's current working tree.

1. tools/extract takes the functions out of /repo's sources and puts the contracts of contracts/*.vspec on them.
2. Verus discharges every obligation, function by function.
3. An obligation that fails is a violation; the simulator in harness/ is asked for a failing input for it,
   which it replays on the real crate.
4. Functions whose contract could not be brought onto the changed text (anchor of a loop invariant lost, construct
   outside Verus's subset) are decided by the simulator alone, labelled bounded.
"""
import glob, json, os, re, subprocess, sys, threading, time, shutil, hashlib

HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
import verify as V
from props import P, SLUG

VERIF = V.VERIF
REPO = V.REPO
WORK = os.environ.get("VX_WORK", os.path.join(VERIF, "work"))
T0 = time.time()


def log(*a):
    print("[%5.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- harness
class Harness:
    """the simulator, built against the real crate"""

    def __init__(self, unicache=False):
        self.unicache = unicache
        self.bin = None
        self.err = None
        self.pers = True

    def build(self):
        d = os.path.join(VERIF, "harness")
        if REPO != "/repo":
            # a copy of the tree is checked: same harness, other path
            d2 = os.path.join(WORK, "harness")
            shutil.rmtree(d2, ignore_errors=True)
            shutil.copytree(d, d2, ignore=shutil.ignore_patterns("target"))
            p = os.path.join(d2, "Cargo.toml")
            t = open(p).read().replace("/repo/", REPO + "/")
            open(p, "w").write(t)
            d = d2
        tgt = os.environ.get("VX_TARGET", os.path.join(VERIF, "harness/target"))
        tgt = os.path.join(tgt, "uc" if self.unicache else "std")
        feats = ["unicache"] if self.unicache else []
        for pers in (True, False):
            cmd = ["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", tgt, "--no-default-features",
                   "--features", ",".join(feats + (["pers"] if pers else []))]
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
            if p.returncode == 0:
                self.pers = pers
                self.bin = os.path.join(tgt, "release/vsim")
                return
            self.err = "\n".join(l for l in p.stderr.splitlines() if "error" in l)[:2000] or p.stderr[-2000:]

    def run(self, tags, secs, seed, out, threads=8):
        """-> dict with the counters and 'first' (violation) or None"""
        if not self.bin:
            return None
        cmd = [self.bin, "run", "--prop", "+".join(tags), "--secs", str(secs), "--seed", str(seed), "--out", out, "--threads", str(threads)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 60)
        except subprocess.TimeoutExpired:
            return None
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            log("simulator gave no result:", p.stderr[-500:])
            return None
        return r

    def replay(self, f):
        p = subprocess.run([self.bin, "replay", f], capture_output=True, text=True, timeout=200)
        return p.returncode, p.stdout


# ---------------------------------------------------------------- the derive macro
def expand_derive():
    """what the derive macro of the tree makes of derive/src/lib.rs -> (file, None) or (None, reason)"""
    d = os.path.join(VERIF, "derive")
    if REPO != "/repo":
        d2 = os.path.join(WORK, "derive")
        shutil.rmtree(d2, ignore_errors=True)
        shutil.copytree(d, d2, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(d2, "Cargo.toml")
        t = open(p).read().replace("/repo/", REPO + "/")
        open(p, "w").write(t)
        d = d2
    tgt = os.path.join(os.environ.get("VX_TARGET", os.path.join(VERIF, "harness/target")), "derive")
    cmd = ["cargo", "rustc", "--offline", "--quiet", "--profile", "check", "--lib", "--target-dir", tgt, "--", "-Zunpretty=expanded"]
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=300, env=dict(os.environ, RUSTC_BOOTSTRAP="1"))
    except subprocess.TimeoutExpired:
        return None, "expansion timed out"
    if p.returncode != 0 or "DCache" not in p.stdout:
        return None, "the derive macro's expansion fails: " + "\n".join(l for l in p.stderr.splitlines() if "error" in l)[:600]
    f = os.path.join(WORK, "derive.rs")
    open(f, "w").write(p.stdout)
    return f, None


# ---------------------------------------------------------------- proof
def auto_trust(m):
    """functions that carry no contract: their bodies are not verified, callers know nothing about them"""
    return [f["key"] for f in m["functions"] if not f["contract"] and f["has_body"]]


LIMIT = 800  # seconds a check may take altogether


def left(reserve=0):
    return LIMIT - (time.time() - T0) - reserve


def texts(slug):
    """the texts to prove for this property: (work folder, contract files)"""
    c = lambda *g: sorted(f for x in g for f in glob.glob(os.path.join(VERIF, "contracts", x)))
    if slug == "unicache-roundtrip":
        shared = [f for f in c("*.vspec") if "00_files" not in f and "22_persistent" not in f]
        return [("uc", [f for f in shared if "01_shims" in f] + c("uc/*.vspec")), ("ucp", c("ucp/*.vspec") + shared)]
    return [("proof", c("*.vspec"))]


def prove(binary, slug):
    """the proof over every text of the property; one that cannot be set up decides none of its functions"""
    tot = None
    for name, files in texts(slug):
        r = prove_text(binary, name, files)
        if tot is None:
            tot = r
            tot["outs"] = [r.get("out")]
            continue
        if r["error"] or tot["error"]:
            bad, good = (r, tot) if r["error"] else (tot, r)
            if bad["error"] and good["error"]:
                continue
            for k in contract_props(bad["files"]):
                good["lost"].setdefault(k, "no proof of its text: " + bad["error"][:200])
            good["outs"] = [good.get("out")]
            tot = good
            continue
        tot["fails"] += r["fails"]
        tot["lost"].update(r["lost"])
        tot["secs"] += r["secs"]
        tot["trusted"] = sorted(set(tot["trusted"]) | set(r["trusted"]))
        tot["map"]["functions"] = tot["map"]["functions"] + r["map"]["functions"]
        tot["outs"].append(r["out"])
        tot["results"] += r["results"]
        tot["smt_ms"] += r["smt_ms"]
    return tot


def prove_text(binary, name, files):
    """where the whole text cannot be set up, without the RocksDB storage (its model of the library is the part most
    sensitive to the shape of the code)"""
    derive, why = None, None
    kept = files
    if any("30_derive" in f for f in files):
        derive, why = expand_derive()
        if not derive:
            log(why)
            kept = [f for f in files if "30_derive" not in f]
    res = prove_with(binary, name, kept, derive)
    if res["error"] and derive and left(300) > 0:
        log("no proof (%s); once more without the derived cache" % res["error"][:200])
        kept = [f for f in files if "30_derive" not in f]
        res2 = prove_with(binary, name, kept)
        if not res2["error"]:
            why, res = res["error"], res2
    if kept != files and not res["error"]:
        for k in set(contract_props(files)) - set(contract_props(kept)):
            res["lost"][k] = "left out: " + str(why)[:200]
    res["files"] = files
    if res["error"] and left(300) > 0 and any("22_persistent" in f for f in files):
        log("no proof (%s); once more without PersistentStorage" % res["error"][:200])
        res2 = prove_with(binary, name, [f for f in files if "22_persistent" not in f])
        res2["files"] = files
        if not res2["error"]:
            for k in contract_props(files):
                if "PersistentStorage" in k:
                    res2["lost"][k] = "left out: " + res["error"][:200]
            return res2
    return res


SIM = {}


def concrete():
    """the simulator has found a failing input already"""
    return bool((SIM.get("r") or {}).get("first"))


def retry(out, m, fails):
    bad = sorted({f["fn"] for f in fails if f["fn"]})
    if not bad or len(bad) > 6 or any(not f["fn"] for f in fails):
        for seed in (3, 11):
            if not fails or left(250) <= 30:
                break
            r2 = V.run_verus(out, ["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % seed], timeout=min(300, left(220)))
            if r2["timeout"]:
                break
            f2, c2 = V.analyse(m, r2["diags"])
            if not c2:
                bad1 = {f["fn"] for f in fails}
                fails = [f for f in f2 if f["fn"] in bad1]
        return fails
    ok = {}

    def one(k):
        for seed in (3, 11):
            if left(220) <= 20:
                return
            name = re.sub(r"^<(\w+).*? as .*>::", r"\1::", k)
            r2 = V.run_verus(out, ["--rlimit", "60", "--smt-option", "smt.random_seed=%d" % seed, "--verify-root", "--verify-function", "*" + name],
                             timeout=min(300, left(200)))
            vr = r2["json"].get("verification-results") or {}
            f2, c2 = V.analyse(m, r2["diags"])
            if not r2["timeout"] and not c2 and vr.get("verified", 0) > 0 and not any(f["fn"] == k for f in f2):
                ok[k] = True
                return

    ts = [threading.Thread(target=one, args=(k,)) for k in bad]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if ok:
        log("discharged on another attempt:", sorted(ok))
    return [f for f in fails if f["fn"] not in ok]


def prove_with(binary, name, contracts, derive=None):
    """-> dict(map, fails, lost, runs) ; lost: function -> reason why its contract could not be decided"""
    res = {"fails": [], "lost": {}, "ok": False, "error": None, "map": None, "verus": None, "secs": 0.0}
    wd = os.path.join(WORK, name)
    out, m, err = V.extract(binary, wd, contracts=contracts, derive=derive)
    if err:
        res["error"] = "extraction: " + err
        return res
    trust = set(auto_trust(m))
    unsupported = {}
    for f in m["functions"]:
        if f.get("unsupported"):
            unsupported[f["key"]] = str(f["unsupported"])
            trust.add(f["key"])
    for rnd in range(8):
        out, m, err = V.extract(binary, wd, trust=sorted(trust), contracts=contracts, derive=derive)
        if err:
            res["error"] = "extraction: " + err
            return res
        r = V.run_verus(out, timeout=max(60, min(450, left(120))))
        res["secs"] += r["wall"]
        fails, comp = V.analyse(m, r["diags"])
        if r["timeout"]:
            res["error"] = "verifier timed out"
            return res
        if comp:
            new = {c["fn"] for c in comp if c["fn"]} - trust
            for c in comp:
                log("not in the verifier's reach:", c["fn"], c["message"][:160])
                if c["fn"]:
                    unsupported.setdefault(c["fn"], c["message"][:300])
            if not new:
                res["error"] = "verifier rejects the extracted text: " + comp[0]["message"][:300]
                res["map"] = m
                return res
            trust |= new
            continue
        break
    else:
        res["error"] = "verifier rejects the extracted text"
        return res
    vr = r["json"].get("verification-results") or {}
    if not vr or vr.get("encountered-vir-error"):
        res["error"] = "verifier failed: " + r.get("stderr", "")[:500]
        return res
    if fails and not concrete():
        # once more with more resources and other seeds: an obligation counts as discharged if one run discharges it
        t0 = time.time()
        fails = retry(out, m, fails)
        res["secs"] += time.time() - t0
    smt = 0
    try:
        for mod in r["json"]["times-ms"]["smt"]["smt-run-module-times"]:
            for fb in mod.get("function-breakdown", []):
                smt += fb.get("time", 0)
    except (KeyError, TypeError):
        pass
    res.update(map=m, fails=fails, out=out, trusted=sorted(trust), ok=True, results=[dict(vr, text=name)], smt_ms=smt)
    for k, why in unsupported.items():
        res["lost"][k] = "outside the verifier's subset: " + why
    for f in m["functions"]:
        # (a function that is verified is verified, whatever became of its anchors)
        if f["contract"] and f["drift"] and any(x["fn"] == f["key"] for x in fails):
            res["lost"][f["key"]] = "anchors of its contract lost: " + "; ".join(map(str, f["drift"]))
        elif f["contract"] and f["calls_uncontracted"]:
            res["lost"][f["key"]] = "calls functions without a contract that cannot be inlined: " + ", ".join(map(str, f["calls_uncontracted"]))
    for k in m.get("missing_contract_targets", []):
        res["lost"].setdefault(k if isinstance(k, str) else str(k), "the function is gone from the source")
    return res


def contract_props(files):
    """function key -> slugs, from the contract files (also for functions that are gone from the source)"""
    d = {}
    for f in files:
        for l in open(f):
            mm = re.match(r"@fn\s+(.*?)\s*\[([^\]]*)\]\s*$", l)
            if mm:
                d[mm.group(1)] = [x.strip() for x in mm.group(2).split(",") if x.strip()]
    return d


def assumptions(out):
    """every assumption left in the verified text, found by scanning it"""
    s = []
    if not out or not os.path.exists(out):
        return s
    lines = open(out).read().splitlines()
    for i, l in enumerate(lines):
        if "external_body" in l or "external_type_specification" in l or "assume_specification" in l:
            for k in range(i, min(i + 6, len(lines))):
                mm = re.search(r"(?:fn|struct|assume_specification)\b[^{;]*", lines[k])
                if mm:
                    s.append("trusted: " + re.sub(r"\s+", " ", mm.group(0)).strip()[:120])
                    break
        if re.search(r"\b(assume|admit)\s*\(", l) and "assume_specification" not in l:
            s.append("assumed: " + l.strip()[:160])
        if re.search(r"\baxiom fn\b", l):
            s.append("axiom: " + l.strip()[:160])
    return sorted(set(s))


def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            mm = re.match(r"known: property=(C\d+) id=(\S+) (.*)", l)
            if mm:
                r.append(mm.groups())
    return r


def main():
    pid = sys.argv[1]
    slug, tags = P[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    quick = tier == "quick"
    if not quick:
        global LIMIT
        LIMIT = 3000
    sim_secs = 25 if quick else 420
    sim_more = 150 if quick else 300

    h = Harness(unicache=(slug == "unicache-roundtrip"))
    th = threading.Thread(target=h.build)
    th.start()
    binary = V.build_extractor()
    simres = SIM
    trace = os.path.join(WORK, "%s.trace" % pid)
    for f in (trace,):
        if os.path.exists(f):
            os.remove(f)

    def bg():
        th.join()
        log("harness built" if h.bin else "harness does not build: %s" % h.err)
        simres["r"] = h.run(tags, sim_secs, seed, trace, threads=6)

    tb = threading.Thread(target=bg)
    tb.start()
    pr = prove(binary, slug)
    log("verifier: %s" % (pr["error"] or pr["results"]))
    tb.join()
    sim = simres.get("r")
    log("simulator:", sim)

    # --- which obligations concern this property
    cp = contract_props([f for _, fs in texts(slug) for f in fs])
    m = pr["map"]
    fn_by = {f["key"]: f for f in m["functions"]} if m else {}
    mine = sorted(k for k, p in cp.items() if slug in p)

    def relevant(f):
        f_props = cp.get(f["fn"], [])
        if not f_props and f["fn"] is None:
            return True
        return slug in f_props

    my_fails = [f for f in pr["fails"] if relevant(f)]
    lost = {k: v for k, v in pr["lost"].items() if slug in cp.get(k, [])}
    hard = [f for f in my_fails if f["fn"] not in pr["lost"]]
    soft = [f for f in my_fails if f["fn"] in pr["lost"]]

    concrete = bool(sim and sim.get("first"))
    extra = None
    sim_more = int(min(sim_more, left(40)))
    if (my_fails or lost or pr["error"]) and not concrete and h.bin and sim_more > 20:
        log("asking the simulator for a failing input: %d failed obligations, %d functions without decision" % (len(my_fails), len(lost)))
        extra = h.run(tags, sim_more, seed + 1000, trace, threads=8)
        log("simulator:", extra)
        if extra and extra.get("first"):
            concrete, sim = True, extra
    violation = None
    replay = os.path.join(VERIF, "evidence", "%s.replay.txt" % pid)
    if concrete or hard:
        with open(replay, "w") as fo:
            if concrete:
                fo.write(open(trace).read())
                fo.write("# replay: vsim replay <this file>   (built by the check in harness/, against the real crate)\n")
            for f in my_fails:
                fo.write("# failed obligation: %s | %s | clause %s of %s\n" % (f["fn"], f["message"], f["clause"], f["clause_fn"]))
                for l in f["rendered"].splitlines():
                    fo.write("#   %s\n" % l)
        violation = {"concrete": concrete, "obligations": ["%s: %s [%s]" % (f["fn"], f["message"], f["clause"]) for f in my_fails]}

    # --- evidence
    proved = pr["ok"]
    trusted = set(pr.get("trusted", []))
    under = [k for k in mine if k in fn_by and fn_by[k]["has_body"] and k not in trusted and k not in pr["lost"] and k not in {f["fn"] for f in pr["fails"]}]
    clauses = sum(len(fn_by[k]["clauses"]) for k in mine if k in fn_by)
    smt_ms = pr.get("smt_ms", 0)
    obligations = len([k for k in mine if k in fn_by and fn_by[k]["has_body"] and k not in trusted])
    cov = {
        "obligations": obligations,
        "discharged": len(under),
        "checker_cmd": "verus %s (text extracted from /repo on this run; %s)" % (" ".join("work/%s/out.rs" % t for t, _ in texts(slug)), verus_version()),
        "trusted_base": sorted({a for o in pr.get("outs", []) for a in assumptions(o)}),
        "functions_under_contract": under,
        "contract_clauses": clauses,
        "whole_run": (pr["results"] if proved else {"error": pr["error"]}),
        "verifier_wall_s": round(pr["secs"], 1),
        "smt_ms": smt_ms,
        "backend": "Verus / Z3",
        "functions_without_decision": lost,
        "bounded_stand_in": {
            "what": "random schedules of the real crate (2-5 servers, crashes, partitions, losses), judged by the monitors %s" % ",".join(tags),
            "counts_as_proof": False,
            "result": sim or ("harness does not build: %s" % h.err if not h.bin else None),
            "extended": extra,
        },
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - T0, 1),
          "violations": 1 if violation else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)

    for k in known_findings():
        if k[0] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    for k, why in sorted(lost.items()):
        print("note: %s is decided by the bounded stand-in only (%s)" % (k, why[:200]))
    if pr["error"]:
        print("note: no proof on this tree (%s); bounded stand-in only" % pr["error"][:300].replace("\n", " "))
    if violation:
        for o in violation["obligations"][:20]:
            print("failed obligation: " + o)
        if concrete:
            print("failing input: " + str((sim.get("first") or {}).get("what"))[:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if concrete else " no-failing-input-found"))
        sys.exit(1)
    print("OK property=%s: %d of %d functions under contract discharged (%d clauses), %d simulated runs" % (
        pid, len(under), obligations, clauses, (sim or {}).get("runs", 0)))
    sys.exit(0)


def verus_version():
    try:
        return subprocess.run(["verus", "--version"], capture_output=True, text=True, timeout=30).stdout.split("Version:")[-1].split()[0]
    except Exception:
        return "verus"


ASSUME = [
    "machine arithmetic: index additions do not overflow usize/u64 (vp_add); subtraction and indexing are checked",
    "the extraction: modules flattened, cfg(feature) evaluated for the default features, logging and serde derives dropped, Box<dyn Error> replaced by an opaque error type, iterator chains rewritten into the loops they stand for (tools/extract)",
    "the user's Entry and Snapshot implementations are deterministic and Snapshot::merge/create obey their documented meaning",
    "messages obey the environment contracts stated as requires on the message handlers (each is established by the sender's contract, see DESIGN.md)",
]

if __name__ == "__main__":
    main()
