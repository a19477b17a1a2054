"""Maintains the 'fixed' entries of known_findings.json from the fix: commits of /repo."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(ROOT, "tools", "fixed_map.json")))
k = [x for x in json.load(open(os.path.join(ROOT, "known_findings.json"))) if x["status"] != "fixed"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "aad333b..HEAD"], text=True)
for line in log.splitlines():
    h, msg = line.split(" ", 1)
    if not msg.startswith("fix: "):
        continue
    props = MAP.get(h)
    if props is None:
        print("no property for", line)
        continue
    for p in props:
        k.append({"status": "fixed", "entry": f"fixed: property={p} {h} {msg[5:]}", "property": p, "commit": h})
json.dump(k, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
