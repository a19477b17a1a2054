"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe=observe))


S = "src/direpack/"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")

checks = []
na = []
for p in P:
    if not os.path.exists(os.path.join(ROOT, "harness", "props", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bin/check {p['id']} --tier quick",
        "thorough_cmd": f"bin/check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"] or "TLA+ specification model-checked with TLC; TLC-generated and seeded behaviours replayed in the real code; recorded traces validated by TLC against the specification",
        "level": "model_checking",
        "level_note": p["level_note"],
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na, "hooks": [],
     "notes": "Specification language: TLA+ (TLC). See DESIGN.md. No hooks in /repo: everything is observed through the public API."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
