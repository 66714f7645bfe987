#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (between the markers) from units/, claims.py, prop_texts.py, seeded/ and seeded_results.json."""
import os, re, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
ns = {}
exec(open("claims.py").read(), ns)
CL, COMMON = ns["CLAIMS"], ns["COMMON"]
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
notes = {c["property"]: c["level_note"].split(" Trusted: the extraction")[0] for c in man["checks"]}
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
res = json.load(open("seeded_results.json")) if os.path.exists("seeded_results.json") else {}
seeds = {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
out = []
def unit_info(u):
    t = open("units/%s.rs" % u).read()
    fns = re.findall(r"^//@fn (\S+)", t, re.M); lifts = re.findall(r"^//@lift (\S+)", t, re.M)
    files = []
    for l in re.findall(r"^//@extract (.*)$", t, re.M):
        f = l.split()[0]
        if f not in files: files.append(f)
    inc = re.findall(r"^//@include (\S+)", t, re.M)
    return fns, lifts, files, inc, len(re.findall(r"^\s*(?:broadcast )?(?:pub )?(?:broadcast )?proof fn", t, re.M)), len(re.findall(r"external_body", t))
out.append("## Per property\n")
out.append("For each: what is under contract (every listed function is extracted from the current source and verified against the contract in the unit), what the deciding argument is, what is assumed beyond the shims, and which planted bugs the check was measured with. The oracle is always the specification in `units/<id>.rs`, whose top-level `ensures` state the property; there is no bound on inputs, iterations or histories. Cost: 5–45 s per quick check.\n")
for p in props:
    i = p["id"]
    out.append("### %s — %s" % (i, p["title"]))
    out.append("> " + p["statement"] + "\n")
    if i in na:
        out.append("**Not applicable.** " + na[i] + "\n"); continue
    c = CL[i]
    for u in c["units"]:
        fns, lifts, files, inc, lem, ext = unit_info(u)
        out.append("* Under contract (`units/%s.rs`, from %s): %s%s." % (u, ", ".join("`%s`" % f for f in files), ", ".join("`%s`" % f for f in fns), ("; closures and spawned tasks lifted to functions over their captures: " + ", ".join("`%s`" % f for f in lifts)) if lifts else ""))
        out.append("* %d lemmas; shims: %s; %d opaque/assumed items local to the unit." % (lem, ", ".join(inc), ext))
    if notes.get(i): out.append("* Argument and limits: " + notes[i])
    ex = [a for a in c["assumptions"] if a not in COMMON]
    if ex: out.append("* Assumed: " + "; ".join(ex) + ".")
    out.append("* Why tests cannot settle it: " + p["why_tests_cant"] + ".")
    out.append("* Bounded companion (replay and shim conformance, never counted as proof): `harness/%s.rs`." % c["harness"])
    if seeds.get(i): out.append("* Planted bugs: " + ", ".join("`%s` (%s)" % (n, res.get(n, "caught")) for n, _ in seeds[i]) + ".")
    out.append("")
out.append("## Planted bugs\n")
out.append("| bug | property | needs | outcome of the check |\n|---|---|---|---|")
for i in sorted(seeds):
    for n, d in seeds[i]:
        out.append("| `%s` | %s | %s | %s |" % (n, i, d["needs"].replace("|", "\\|"), res.get(n, "caught")))
out.append("")
out.append("## Genuine defects\n\nFrom `known_findings.json` (repaired ones are `fix:` commits in /repo):\n")
for k in json.load(open("known_findings.json")):
    out.append("* " + k.get("line", json.dumps(k)))
out.append("")
s = open("DESIGN.md").read()
A, B = "<!-- generated by tools/design.py -->", "<!-- end of generated part -->"
if A not in s: s += "\n" + A + "\n" + B + "\n"
s = s[:s.index(A) + len(A)] + "\n" + "\n".join(out) + s[s.index(B):]
open("DESIGN.md", "w").write(s)
print(len(out), "lines")
