#!/usr/bin/env python3
"""The list of properties. Writes ../properties.jsonl, ../MANIFEST.json and ../checks.json, so that they stay in step."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "src/generated_schema/"
VS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
SCH = [G + v + "/mcp_schema.rs" for v in VS]
UT = [G + v + "/schema_utils.rs" for v in VS]
VAL = [G + v + "/validators.rs" for v in VS]
ONE = "Bounded-exhaustive: every document of the reference model with at most a stated number of deviations from its minimal and its full form is replayed on the real code. "
TRUST = "Trusted: the reference model (the JSON schemas published with each protocol version plus the hand-written envelope and gating rules in mc/core), serde_json as JSON reader of the oracle, and the small-scope assumption beyond the stated bounds. "
P = []


def prop(id, title, statement, over, text, tests, files, mech, tech, note, state=None, observe=None, **conf):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a}, tech, note, conf))


exec(open(os.path.join(H, "tools", "claims_list.py")).read())

assert len({p[0]["id"] for p in P}) == len(P)
for p, *_ in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
NA = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1,
           "setup_cmd": "python3 run.py setup",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
                       "technique": t, "level": "model_checking", "level_note": n} for p, t, n, c in P],
           "not_applicable": NA,
           "notes": "No hooks: everything is observed through the crate's public API. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.json."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: c for p, t, n, c in P}, open(os.path.join(H, "checks.json"), "w"), indent=1)
print(len(P), "properties")
