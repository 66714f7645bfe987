"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from claims import CLAIMS
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, level_note="", na=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["return values and public state of the API named in mechanism"], "hook_needed": None}}
    P.append((d, level_note))
    if na:
        NA.append({"property": id, "reason": na})
exec(open(os.path.join(V, "tools", "prop_texts.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _ in sorted(P, key=lambda x: x[0]["id"]):
        f.write(json.dumps(d) + "\n")
checks = []
for d, note in sorted(P, key=lambda x: x[0]["id"]):
    i = d["id"]
    if i not in CLAIMS:
        assert any(n["property"] == i for n in NA), i
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification: Verus contracts on functions extracted mechanically from /repo on every run",
        "level": "proof", "level_note": " ".join(note.split()) + " Trusted: the extraction (async/locks/logging/Arc dropped), the shim contracts for std/serde/chrono listed in the evidence file, Verus and Z3. "
        "When the changed source no longer fits the contracts (unsupported construct, lost anchor, changed loop shape) the check falls back to the bounded harness on the real code and says so in the evidence (level exploration)."})
assert set(CLAIMS) <= {d["id"] for d, _ in P}, set(CLAIMS) - {d["id"] for d, _ in P}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: functions are extracted from the unmodified source. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties,", len(checks), "claimed,", len(NA), "not applicable")
