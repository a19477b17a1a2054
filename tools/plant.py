"""plant.py make DEFS.py   write seeded/<id>/ from a file defining BUGS
   plant.py try ID... [--all-props]  apply to /repo, build, test, demo, check, undo."""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def make(defs):
    ns = {}
    exec(open(defs).read(), ns)
    for b in ns["BUGS"]:
        w = tempfile.mkdtemp(prefix="plant_")
        sh(f"git clone -q /repo {w}/r")
        for f, old, new in b["edits"]:
            p = f"{w}/r/src/direpack/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {w}/r diff -U0").stdout  # only lines of the original repository may change
        base = sh(f"git -C {w}/r rev-list --max-parents=0 HEAD").stdout.split()[0]
        for f in {e[0] for e in b["edits"]}:
            orig = set(sh(f"git -C {w}/r show {base}:src/direpack/{f}").stdout.splitlines())
            for ln in diff.splitlines():
                if ln.startswith("-") and not ln.startswith("---") and ln[1:].strip() and len(b["edits"]) == 1:
                    assert ln[1:] in orig, ("not an original line", b["id"], ln)
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {w}/r diff").stdout)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh(f"rm -rf {w}")
        print("made", b["id"])


def attempt(i, props=None):
    d = os.path.join(SEED, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stderr)
        return
    try:
        b = sh("bash /opt/vp/build.sh")
        sh("bash /opt/vp/test.sh /tmp/pl.json")
        t = json.load(open("/tmp/pl.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        c = sh(f"bin/check {prop} --tier quick", cwd=ROOT)
        line = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION") or x.startswith("  case")][:2]
        print(f"{i}: demo clean={r0.returncode} bug={r1.returncode} build={b.returncode} tests_broken={sorted(base - set(t['passed']))} "
              f"check={c.returncode} {'CAUGHT' if c.returncode == 1 else 'MISSED'} {line}", flush=True)
        if r0.returncode:
            print(r0.stdout[-500:], r0.stderr[-800:])
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(SEED)):
            attempt(i)
