#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

Decides one property: extracts the functions under contract from /repo's current source (vx), lets Verus discharge
every obligation, repeats the run with vacuity probes, and replays/searches on the real compiled code.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Nothing else."""
import json, os, re, subprocess, sys, time, hashlib, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from claims import CLAIMS  # noqa: E402

DEFINITE = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
            "loop ensures not satisfied", "unable to prove", "possible bit shift underflow/overflow", "index out of bounds",
            "requires not satisfied", "ensures not satisfied", "assert_by", "loop invariant")
INCONCLUSIVE_MSG = ("Resource limit", "rlimit", "not all errors may have been reported", "aborting due to", "could not prove termination",
                    "decreases checks: Resource")
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def envsh(extra=None):
    """environment of /opt/vp/env.sh"""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout.decode("utf-8", "replace")
    e = dict(x.split("=", 1) for x in out.split("\0") if "=" in x)
    e.update(extra or {})
    return e


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace"), "timeout"


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_vx():
    tgt = os.path.join(BUILD, "vx")
    exe = os.path.join(tgt, "debug", "vx")
    with Lock("vx"):
        srcs = [os.path.join(VERIF, "vx", "src", f) for f in os.listdir(os.path.join(VERIF, "vx", "src"))]
        if os.path.exists(exe) and os.path.getmtime(exe) > max(os.path.getmtime(s) for s in srcs):
            return exe
        e = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", RUSTFLAGS="", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
        rc, o, err = run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "vx", "Cargo.toml")], 600, env=e, cwd=os.path.join(VERIF, "vx"))
        if rc != 0:
            raise RuntimeError("building the extractor failed: " + err[-2000:])
        os.utime(exe)
    return exe


# ------------------------------------------------------------------ proof
class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.ok = False
        self.failures = []      # definite: dicts(fn, message, obligation, text)
        self.unknown = []       # strings
        self.vacuous = []
        self.fns = []
        self.verified = 0
        self.meta = {}
        self.trusted = []
        self.smt_ms = 0
        self.wall = 0.0
        self.probes = 0
        self.rendered = ""
        self.opt = False


def parse_meta(text):
    m = {"FN": [], "UNCONTRACTED": [], "INLINED": [], "PROBE": [], "NOTE": [], "LOCALS": {}, "LOOPS": {}}
    for l in text.splitlines():
        k, _, r = l.partition(" ")
        if k in ("LOCALS", "LOOPS"):
            n, _, v = r.partition(" ")
            m[k][n] = v.split()
        elif k == "FN":
            m["FN"].append(tuple(r.split(" ", 1)))
        elif k in m:
            m[k].append(r)
    return m


def regions(path):
    """line -> name of the enclosing extracted function / lemma"""
    names = {}
    cur = None
    lemma = None
    for i, l in enumerate(open(path), 1):
        if l.startswith("//VXFN "):
            cur = l.split()[1]
        elif l.startswith("//VXEND"):
            cur = None
        mm = re.match(r"\s*(?:pub )?(?:broadcast )?proof fn (\w+)", l)
        if mm and cur is None:
            lemma = mm.group(1)
        mm = re.match(r"\s*(?:pub )?fn (\w+)", l)
        if mm and cur is None:
            lemma = mm.group(1)
        names[i] = (cur, lemma)
    return names


def verus(path, timeout, rlimit, extra=()):
    cmd = ["verus", path, "--output-json", "--time", "--error-format=json", "--triggers-mode", "silent", "--rlimit", str(rlimit), *extra]
    rc, o, err = run(cmd, timeout, cwd=os.path.dirname(path))
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") in ("error", "warning", "note"):
                diags.append(d)
    res = {}
    i = o.find("{")
    if i >= 0:
        try:
            res = json.loads(o[i:])
        except ValueError:
            pass
    return rc, res, diags, o, err


def scan_trusted(path):
    """everything the generated file assumes: external bodies, axioms, assumes, uninterpreted functions"""
    t = open(path).read()
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(proof fn|fn|struct|exec fn)\s+(\w+)", t):
        if re.match(r"lit_\d+$", m.group(2)):
            continue
        out.append(("axiom " if m.group(1) == "proof fn" else "contract of " if "fn" in m.group(1) else "opaque type ") + m.group(2))
    for m in re.finditer(r"\b(assume|admit)\s*\(", t):
        out.append("ASSUME in text at offset %d" % m.start())
    for m in re.finditer(r"assume_specification", t):
        out.append("assume_specification")
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def failures_of(diags, regs, allow_probe=False):
    definite, unknown = [], []
    for d in diags:
        if d["level"] != "error":
            if d["level"] == "note" and "rlimit" in d["message"]:
                unknown.append(d["message"])
            continue
        msg = d["message"]
        if msg.startswith("aborting due to"):
            continue
        fn = lemma = None
        clause = []
        for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
            r = regs.get(s["line_start"], (None, None))
            if s["is_primary"] and fn is None:
                fn, lemma = r
            txt = " ".join(x["text"].strip() for x in s["text"])[:300]
            lab = s.get("label") or ""
            if s["is_primary"] or "failed" in lab:
                if s["line_end"] - s["line_start"] < 12:
                    clause.append((lab + ": " if lab else "") + txt)
        if fn is None:
            for s in d["spans"]:
                r = regs.get(s["line_start"], (None, None))
                if r[0]:
                    fn = r[0]
        rec = {"fn": fn, "lemma": None if fn else lemma, "message": msg, "clause": clause, "rendered": d.get("rendered") or ""}
        if any(msg.startswith(x) or x in msg for x in DEFINITE) and not any(x in msg for x in INCONCLUSIVE_MSG) and d.get("code") is None:
            definite.append(rec)
        else:
            unknown.append("%s: %s" % (fn or lemma or "?", msg[:300]))
    return definite, unknown


def prove_unit(vx, unit, tier, tag):
    r = UnitResult(unit)
    t0 = time.time()
    gen = os.path.join(BUILD, "gen", tag)
    os.makedirs(gen, exist_ok=True)
    upath = os.path.join(VERIF, "units", unit + ".rs")
    out = os.path.join(gen, unit + ".rs")
    pout = os.path.join(gen, unit + "_probe.rs")
    base = {}
    bp = os.path.join(VERIF, "units", unit + ".base")
    if os.path.exists(bp):
        base = parse_meta(open(bp).read())
    e = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
    rc, o, err = run([vx, "--repo", REPO, "--unit", upath, "--shim", os.path.join(VERIF, "shim"), "--out", out], 120, env=e)
    if rc != 0:
        r.unknown.append("extraction: " + (o.strip().splitlines() or [err[-300:]])[-1][:500])
        r.wall = time.time() - t0
        return r
    r.meta = parse_meta(o)
    r.fns = [f[0] for f in r.meta["FN"]]
    r.trusted = scan_trusted(out)
    run([vx, "--repo", REPO, "--unit", upath, "--shim", os.path.join(VERIF, "shim"), "--out", pout, "--probe"], 120, env=e)
    rl = 30 if tier == "quick" else 120
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(verus, out, 400, rl)
        fb = ex.submit(verus, pout, 400, rl, ("--multiple-errors", "4"))
        rc, res, diags, so, se = fa.result()
        prc, pres, pdiags, pso, pse = fb.result()
    regs = regions(out)
    definite, unknown = failures_of(diags, regs)
    vr = res.get("verification-results", {})
    r.verified = int(vr.get("verified") or 0)
    try:
        r.smt_ms = int(res["times-ms"]["smt"]["total"])
    except (KeyError, TypeError):
        pass
    if rc != 0 and not definite and not unknown:
        unknown.append("verus gave no verdict: " + (se or so)[-300:])
    if rc == 0 and r.verified == 0:
        unknown.append("no obligations were generated")
    new_unc = sorted(set(r.meta["UNCONTRACTED"]) - set(base.get("UNCONTRACTED", [])))
    for d in definite:
        fn = d["fn"]
        why = None
        if new_unc:
            why = "new helper without a contract: " + ", ".join(new_unc)
        elif fn and base and r.meta["LOOPS"].get(fn, []) != base.get("LOOPS", {}).get(fn, []):
            why = "loop structure of %s changed, its invariants no longer fit" % fn
        if why:
            unknown.append("%s (%s; %s)" % (d["message"], fn or d["lemma"], why))
        else:
            r.failures.append(d)
    r.unknown += unknown
    r.rendered = "\n".join(d.get("rendered") or "" for d in diags if d["level"] == "error")
    # vacuity: every probed function must fail exactly because of its probe
    pregs = regions(pout)
    hit = set()
    for d in pdiags:
        if d["level"] == "error" and "postcondition not satisfied" in d["message"]:
            for s in d["spans"]:
                for x in s["text"]:
                    for m in re.finditer(r"vx_probe_(\d+)\(\)", x["text"][max(0, x["highlight_start"] - 1):x["highlight_end"]]):
                        hit.add(int(m.group(1)))
    nprobe = len([l for l in open(pout) if l.startswith("pub uninterp spec fn vx_probe_")])
    r.probes = nprobe
    if rc == 0:
        for k in range(nprobe):
            if k not in hit:
                r.vacuous.append(k)
        if r.vacuous:
            r.unknown.append("vacuity probes not refuted: %s" % r.vacuous)
    r.ok = rc == 0 and not r.failures and not r.unknown
    if tier == "thorough" and r.ok:
        # stability: the same obligations under other solver seeds
        for seed in (7, 23):
            rc2, res2, d2, _, _ = verus(out, 800, rl, ("--smt-option", "smt.random_seed=%d" % seed))
            r.meta.setdefault("seeds", []).append([seed, rc2, int(res2.get("verification-results", {}).get("verified") or 0)])
    r.wall = time.time() - t0
    return r


# ------------------------------------------------------------------ real code
def build_lib():
    """compile /repo's crate from the working tree; returns the paths of the artifacts"""
    tgt = "/repo/target" if REPO == "/repo" else os.path.join(REPO, "target")
    e = envsh({"CARGO_TARGET_DIR": tgt})
    tests = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, "tests")) if f.endswith(".rs"))
    cmd = ["cargo", "build", "-p", "pmcp", "--all-features", "--lib", "--offline", "--message-format=json"]
    if tests:
        cmd += ["--test", min(tests, key=lambda t: os.path.getsize(os.path.join(REPO, "tests", t + ".rs")))]
    rc, o, err = run(cmd, 700, cwd=REPO, env=e)
    arts = {}
    for l in o.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("reason") == "compiler-artifact":
                for f in d["filenames"]:
                    if f.endswith(".rlib") or f.endswith(".so"):
                        arts[d["target"]["name"].replace("-", "_")] = f
    if rc != 0 or "pmcp" not in arts:
        return None, err[-1500:], e, tgt
    return arts, "", e, tgt


EXTERNS = ["tokio", "serde_json", "serde", "futures", "async_trait", "reqwest", "uuid", "chrono", "url", "indexmap", "parking_lot",
           "bytes", "http", "axum", "tracing", "base64", "sha2", "hyper", "dashmap", "tower", "regex", "thiserror", "anyhow", "tokio_util", "tokio_tungstenite"]


def build_harness(pid, tag):
    src = os.path.join(VERIF, "harness", CLAIMS[pid]["harness"] + ".rs")
    if not os.path.exists(src):
        return None, "no harness"
    try:
        with Lock("lib"):
            arts, err, e, tgt = build_lib()
            if arts is None:
                return None, "building /repo failed: " + err
            exe = os.path.join(BUILD, "gen", tag, "h_" + CLAIMS[pid]["harness"])
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            cmd = ["rustc", "--edition", "2021", "-Cdebuginfo=0", "-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on", "--cap-lints", "allow",
                   "-L", "dependency=" + os.path.join(tgt, "debug", "deps"), "-o", exe, src, "--extern", "pmcp=" + arts["pmcp"]]
            cmd[1:1] = [x for x in e.get("RUSTFLAGS", "").split() if x]
            text = open(src).read()
            for x in EXTERNS:
                if x in arts and (x == "serde_json" or re.search(r"\b%s::" % x, text)):
                    cmd += ["--extern", "%s=%s" % (x, arts[x])]
            rc, o, err = run(cmd, 300, env=e, cwd=os.path.join(VERIF, "harness"))
            if rc != 0:
                return None, "harness does not compile against the current tree: " + err[-1500:]
        return exe, ""
    except OSError as x:
        return None, str(x)


def search(pid, exe, seconds, seed, tag):
    """run the replay/search harness; returns dict(status, cases, cex, known, samples)"""
    scratch = os.path.join(BUILD, "scratch", tag)
    os.makedirs(scratch, exist_ok=True)
    e = dict(os.environ, VERIF_SEED=str(seed), H_SECONDS=str(seconds), RUST_BACKTRACE="0", H_SCRATCH=scratch)
    rc, o, err = run([exe], seconds + 120, env=e, cwd=scratch)
    r = {"status": "pass", "cases": 0, "nontrivial": 0, "cex": None, "known": [], "samples": [], "note": ""}
    for l in o.splitlines():
        if l.startswith("CASES "):
            r["cases"], r["nontrivial"] = [int(x) for x in l.split()[1:3]]
        elif l.startswith("CEX "):
            r["cex"] = l[4:]
        elif l.startswith("KNOWN "):
            r["known"].append(l[6:])
        elif l.startswith("SAMPLE "):
            r["samples"].append(l[7:])
    if r["cex"]:
        r["status"] = "fail"
    elif rc != 0:
        r["status"] = "unknown"
        r["note"] = "harness ended with %s: %s" % (rc, (err or o)[-400:])
    shutil.rmtree(scratch, ignore_errors=True)
    return r


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CLAIMS[pid]
    tag = pid
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    units = c["units"]
    try:
        vx = build_vx()
        vxerr = ""
    except Exception as x:  # noqa: BLE001
        vx, vxerr = None, str(x)
    with ThreadPoolExecutor(4) as ex:
        fh = ex.submit(build_harness, pid, tag)
        if vx:
            rs = list(ex.map(lambda u: prove_unit(vx, u, tier, tag), units))
        else:
            rs = []
            for u in units:
                r = UnitResult(u)
                r.unknown.append(vxerr)
                rs.append(r)
        exe, herr = fh.result()
    proved = bool(rs) and all(r.ok for r in rs)
    failures = [f for r in rs for f in r.failures]
    unknown = ["%s: %s" % (r.unit, x) for r in rs for x in r.unknown]
    if proved:
        secs = 4 if tier == "quick" else 120
    else:
        secs = 45 if tier == "quick" else 240
    h = {"status": "none", "cases": 0, "nontrivial": 0, "cex": None, "known": [], "samples": [], "note": herr}
    if exe:
        h = search(pid, exe, secs, seed, tag)
    # ---- known findings
    kf = known_findings(pid)
    for k in kf:
        if k["key"] in h["known"] or k.get("always"):
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    stray = [k for k in h["known"] if k not in [x["key"] for x in kf]]
    if stray and not h["cex"]:
        h["cex"] = "finding not listed: " + stray[0]
        h["status"] = "fail"
    viol = None
    replay = os.path.join(VERIF, "evidence", pid + ".replay.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if h["status"] == "fail" or failures:
        with open(replay, "w") as f:
            f.write("property: %s\n" % pid)
            for x in failures:
                f.write("failed obligation: %s in %s\n" % (x["message"], x["fn"] or x["lemma"]))
                for cl in x["clause"]:
                    f.write("    " + cl + "\n")
            for x in unknown:
                f.write("undecided: %s\n" % x)
            if h["cex"]:
                f.write("\nfailing input, replayed against the code compiled from /repo:\n%s\n" % h["cex"])
                f.write("\nreplay: VERIF_SEED=%d python3 %s/check.py %s   (the search is deterministic in the seed)\n" % (seed, VERIF, pid))
            else:
                f.write("\nno failing input found by the search on the real code (%d cases). Search note: %s\n" % (h["cases"], h["note"]))
            f.write("\nverifier output:\n")
            for r in rs:
                f.write(r.rendered + "\n")
        viol = "VIOLATION property=%s replay=%s" % (pid, replay)
        if not h["cex"]:
            viol += " no-failing-input-found"
    # ---- evidence
    trusted = []
    for r in rs:
        for t in r.trusted:
            if t not in trusted:
                trusted.append(t)
    nver = sum(r.verified for r in rs)
    nfail = len({(f["fn"], f["lemma"], f["message"], str(f["clause"])) for f in failures})
    cov = {
        "obligations": nver + nfail,
        "discharged": nver,
        "explanation": "obligations = verification units (functions under contract, their loops, and lemmas) accepted by Verus/Z3 in this run, each standing for all the pre/postcondition, invariant, termination and overflow conditions of one function; %s" % (
            "all discharged" if proved else "NOT all discharged: see undecided/failures"),
        "checker_cmd": "vx --unit units/<u>.rs (extraction from /repo) ; verus <u>.rs --rlimit 30   [Verus 0.2026.09.13, Z3 back end]",
        "trusted_base": trusted,
        "functions_under_contract": sorted({f for r in rs for f in r.fns}),
        "functions_extracted_without_contract": sorted({f for r in rs for f in r.meta.get("UNCONTRACTED", [])}),
        "helpers_inlined": sorted({f for r in rs for f in r.meta.get("INLINED", [])}),
        "vacuity_probes": sum(r.probes for r in rs),
        "vacuity_probes_refuted": sum(r.probes - len(r.vacuous) for r in rs) if proved else 0,
        "solver_ms": sum(r.smt_ms for r in rs),
        "undecided": unknown,
        "failed": [{"in": f["fn"] or f["lemma"], "what": f["message"], "clause": f["clause"]} for f in failures],
        "bounded_conformance": {
            "label": "bounded: random and enumerated inputs against the code compiled from /repo; supports the trusted contracts, never counted as proved",
            "evaluations": h["cases"], "distinct_nontrivial": h["nontrivial"], "seconds": secs, "status": h["status"], "note": h["note"], "samples": h["samples"][:5]},
    }
    if tier == "thorough":
        cov["solver_seed_stability"] = {r.unit: r.meta.get("seeds", []) for r in rs}
    level = "proof" if proved and nver > 0 else "exploration"
    if level == "exploration":
        cov.update({"evaluations": h["cases"], "distinct_nontrivial": h["nontrivial"], "samples": h["samples"][:5] or ["none"],
                    "rule": "bounded stand-in search on the real code; the proof was not completed on this tree"})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %s; %d units accepted, %d failures, %d undecided; bounded search %s (%d cases); %.1f s" % (
        pid, "proved" if proved else "not proved", nver, len(failures), len(unknown), h["status"], h["cases"], time.time() - T0))
    for x in unknown:
        log("  undecided:", x[:300])
    if h["note"]:
        log("  note:", h["note"][:600])
    for x in failures[:6]:
        log("  failed:", x["message"], "in", x["fn"] or x["lemma"])
    if h["cex"]:
        log("  failing input:", h["cex"][:500])
    if viol:
        log(viol)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as x:  # an error of the machinery is never an alarm
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else "?"
        try:
            json.dump({"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": 1, "level": "other",
                       "coverage": {"explanation": "the check itself failed: %r; nothing was decided" % (x,)}, "wall_s": round(time.time() - T0, 2)},
                      open(os.path.join(VERIF, "evidence", pid + ".json"), "w"))
        except Exception:  # noqa: BLE001
            pass
        sys.exit(0)
