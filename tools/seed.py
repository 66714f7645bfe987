"""python3 tools/seed.py BUGS.py [ids]: make and confirm planted bugs in the scratch copy /tmp/w/repo (cp -a of /repo).
BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
def sh(c, **k):
    e = dict(os.environ, DEMO_REPO=W)
    p = subprocess.run(c, shell=True, capture_output=True, text=True, env=e, **k)
    return p.returncode, p.stdout + p.stderr
def testsuite():
    # the repo's own test command, on the copy
    s = open("/opt/vp/test.sh").read().replace("cd /repo ", "cd %s " % W).replace("LOGS=/opt/vp/logs", "LOGS=/tmp/w/logs")
    s = s.replace(". /opt/vp/env.sh", ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target" % W)
    s = s.replace("/opt/vp/results.py", "/tmp/w/results.py")
    shutil.copy("/opt/vp/results.py", "/tmp/w/results.py")
    open("/tmp/w/test.sh", "w").write(s)
    rc, o = sh("bash /tmp/w/test.sh /tmp/w/out.json")
    res = json.load(open("/tmp/w/out.json"))
    return res, o
base = json.load(open("/opt/vp/BASELINE.json"))
def names(d):
    for k in ("stable", "passed"):
        if isinstance(d.get(k), list): return set(map(str, d[k]))
        if isinstance(d.get(k), dict): return {t for t, v in d[k].items() if v in ("passed", "pass", True)}
    raise SystemExit(str(d.keys()))
for b in ns["BUGS"]:
    if ids and b["id"] not in ids: continue
    sh("git checkout -q -- .", cwd=W)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT MATCHES", s.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", cwd=W)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(b["demo"])
    shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc1, o1 = sh("bash %s/demo.sh" % d)
    if rc1 == 0 or "panicked" not in o1: print(b["id"], "demo with patch gives", rc1, o1[-1500:]); ok = False
    if ok:
        res, o = testsuite()
        missing = names(base) - names(res)
        if missing: print(b["id"], "TESTS FAIL", list(missing)[:5]); ok = False
    rc3, o3 = sh("VX_REPO=%s VERIF_SEED=1 python3 %s/check.py %s" % (W, V, b["property"]), cwd=V)
    verdict = [l for l in o3.splitlines() if l.startswith("VIOLATION")] or [o3.splitlines()[0] if o3 else "?"]
    sh("git checkout -q -- .", cwd=W)
    rc2, o2 = sh("bash %s/demo.sh" % d)
    if rc2 != 0: print(b["id"], "demo without patch gives", rc2, o2[-1500:]); ok = False
    print(b["id"], "KEPT" if ok else "REJECTED", "| check rc", rc3, verdict[0], flush=True)
    if not ok: shutil.rmtree(d)
