#!/usr/bin/env python3
"""Source of properties.jsonl and of the check list in MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []
def prop(id, title, statement, over, q, why, files, mech, tech, note, claimed=True, reason="", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, tech=tech, note=note, claimed=claimed, reason=reason, observe=observe, state=state))
exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())
for p in P:
    for x in p["files"] + [w for _, w in p["mech"]]:
        if not os.path.exists(os.environ.get("RP","/repo/") + x): print("MISSING", p["id"], x)
assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
     "notes": "All checks drive the public API of the crate in /repo from the harness in /verif/harness (path dependency), so no hooks are needed. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(m["checks"]), "claimed")
