"""check = model check the design + generate behaviours + replay them in the real
code + validate the recorded traces against the specification."""
import argparse
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from harness import tlc  # noqa: E402

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONPATH=os.environ.get("VF_REPO", "/repo") + "/src",
           PYTHONWARNINGS="ignore")
NPROC = 8


def log(*a):
    print(*a, flush=True)


def replay_cases(prop, cases, limit=60, wall=700):
    """run the cases in NPROC workers; returns sessions in case order"""
    tmp = tempfile.mkdtemp(prefix="vf_drv_")
    shards = [cases[k::NPROC] for k in range(NPROC)]
    procs = []
    for k, sh in enumerate(shards):
        if not sh:
            continue
        cf, of = os.path.join(tmp, f"c{k}.json"), os.path.join(tmp, f"o{k}.ndjson")
        with open(cf, "w") as f:
            json.dump(sh, f)
        ef = open(os.path.join(tmp, f"e{k}.txt"), "w")
        procs.append((subprocess.Popen([PY, os.path.join(HERE, "worker.py"), prop, cf, of, str(limit)],
                                       env=ENV, stdout=subprocess.DEVNULL, stderr=ef, cwd=tmp), sh, of, ef))
    end = time.time() + wall
    done = {}
    for p, sh, of, ef in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        ef.close()
        if os.path.exists(of):
            with open(of) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                        done[r["id"]] = r
                    except ValueError:
                        pass
        if p.returncode != 0:
            err = open(ef.name).read()[-2000:]
            for c in sh:
                if c["id"] not in done:
                    done[c["id"]] = {"id": c["id"], "events": [], "error": f"worker exit {p.returncode}: {err}"}
    subprocess.run(["rm", "-rf", tmp])
    return [done.get(c["id"], {"id": c["id"], "events": [], "error": "not run"}) for c in cases]


def validate(module, sessions, workers=NPROC, timeout=800, depth=0):
    """TLC checks every recorded event; returns (fails, states, transitions)
    fails: list of (session id, event number, event name, clause set string)"""
    if not sessions:
        return [], 0, 0
    fd, tf = tempfile.mkstemp(prefix="vf_trace_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(sessions, f)
    cfg = f'INIT Init\nNEXT Next\nCONSTANT TraceFile = "{tf}"\n'
    r = tlc.run(module, cfg, workers=workers, timeout=timeout)
    os.unlink(tf)
    if "Parsing or semantic analysis failed" in r.out:
        raise SystemExit("SPEC-ERROR " + r.out[-3000:])
    fails = []
    for m in re.finditer(r'"FAIL\|([^|]*)\|(\d+)\|([^|]*)\|(.*?)"\n', r.out + "\n"):
        fails.append((m.group(1), int(m.group(2)), m.group(3), m.group(4).replace("\\", "")))
    expect = sum(len(s["events"]) + 1 for s in sessions)
    if r.ok and r.distinct == expect:
        return sorted(set(fails)), r.distinct, expect - len(sessions)
    # TLC could not interpret some session: isolate it
    if len(sessions) == 1:
        msg = [l for l in r.out.splitlines() if "rror" in l or "ttempted" in l][:3]
        return [(sessions[0]["id"], 0, "session", "spec-cannot-interpret: " + " ".join(msg)[:300])], 0, 0
    if depth > 12:
        return [(s["id"], 0, "session", "spec-cannot-interpret") for s in sessions], 0, 0
    h = len(sessions) // 2
    a = validate(module, sessions[:h], workers, timeout, depth + 1)
    b = validate(module, sessions[h:], workers, timeout, depth + 1)
    return a[0] + b[0], a[1] + b[1], a[2] + b[2]


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def check(prop, tier, seed, only_case=None):
    t0 = time.time()
    mod = importlib.import_module("harness.props." + prop.lower())
    tlc.ensure_build()
    cov = {"states": 0, "transitions": 0, "models": [], "gen_behaviours": 0}
    # 1. the design
    for m in (mod.models(tier) if only_case is None else []):
        r = tlc.run(m["module"], m["cfg"], timeout=m.get("timeout", 600), simulate=m.get("simulate"),
                    extra=m.get("extra", ()))
        if m.get("simulate") is None and not r.ok or "rror:" in r.out:
            log(f"MODEL-ERROR {m['module']}\n{r.out[-3000:]}")
            return 3
        cov["models"].append({"module": m["module"], "states": r.distinct, "generated": r.generated,
                              "depth": r.depth})
        cov["states"] += r.distinct
        cov["transitions"] += r.generated
        log(f"model {m['module']}: {r.distinct} distinct states, depth {r.depth}, ok "
            f"({time.time() - t0:.0f}s)")
    # 2. cases
    if only_case is not None:
        cases = [only_case]
    else:
        gen = []
        for g in getattr(mod, "GEN", {}).get(tier, []):
            gen += generate(g)
        cov["gen_behaviours"] = len(gen)
        cases = mod.cases(tier, seed, gen)
    ids = [c["id"] for c in cases]
    assert len(ids) == len(set(ids)), "duplicate case ids"
    log(f"{len(cases)} cases ({cov['gen_behaviours']} generated by TLC) ({time.time() - t0:.0f}s)")
    # 3. replay
    sessions = replay_cases(prop, cases, getattr(mod, "CASE_LIMIT", 60))
    nev = sum(len(s["events"]) for s in sessions)
    log(f"recorded {nev} events ({time.time() - t0:.0f}s)")
    # 4. validation
    viol = []
    good = []
    for s in sessions:
        if s.get("error"):
            viol.append((s["id"], 0, "driver", s["error"]))
        else:
            good.append({"id": s["id"], "events": s["events"]})
    fails, st, tr = validate(mod.TRACE, good)
    viol += fails
    cov["trace_states"], cov["trace_events"] = st, tr
    cov["states"] += st
    cov["transitions"] += tr
    log(f"validated {tr} events ({time.time() - t0:.0f}s)")
    # 5. verdict
    known = [k for k in known_findings() if k.get("status") == "known" and k["property"] == prop]
    new, hit = [], {}
    bycase = {c["id"]: c for c in cases}
    for v in viol:
        k = next((k for k in known if re.fullmatch(k["case"], v[0]) and re.search(k["clause"], v[3])
                  and re.fullmatch(k.get("event", ".*"), v[2])), None)
        if k is None:
            new.append(v)
        else:
            hit.setdefault(k["id"], (k, 0))
            hit[k["id"]] = (k, hit[k["id"]][1] + 1)
    for k, cnt in hit.values():
        log(f"KNOWN-FINDING: property={prop} {k['what']} [{cnt} recorded event(s)]")
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    seen = set()
    for v in new:
        if v[0] in seen or len(seen) >= int(os.environ.get("VF_MAX", "12")):
            continue
        seen.add(v[0])
        h = hashlib.sha1(v[0].encode()).hexdigest()[:10]
        path = os.path.join(evdir, "replay", f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": bycase.get(v[0]), "fails": [x for x in new if x[0] == v[0]]}, f)
        log(f"  case {v[0]} event {v[1]} ({v[2]}): {v[3][:600]}")
        log(f"VIOLATION property={prop} replay={path}")
    if only_case is None:
        clauses = sorted({e["ev"] for s in good for e in s["events"]})
        cov.update({"traces_validated_against_impl": len(good), "samples": len(cases),
                    "event_kinds": clauses, "exhaustive": False})
        ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL if hasattr(mod, "LEVEL") else
              "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1),
              "violations": len(new), "assumptions": getattr(mod, "ASSUMPTIONS", [])}
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if new:
        log(f"{prop}: {len(new)} failing events in {len({v[0] for v in new})} cases ({time.time() - t0:.0f}s)")
        return 1
    log(f"{prop}: held on everything explored ({time.time() - t0:.0f}s)")
    return 0


def generate(g):
    """run a generator module; every line  "CASE|<json>"  it prints is a behaviour"""
    r = tlc.run(g["module"], g["cfg"], workers=g.get("workers", 1), simulate=g.get("simulate"),
                extra=g.get("extra", ()), timeout=g.get("timeout", 300))
    out = []
    for m in re.finditer(r'"CASE\|(.*)"$', r.out, re.M):
        out.append(json.loads(m.group(1).replace('\\"', '"')))
    if not out:
        raise RuntimeError("generator produced nothing: " + r.out[-2000:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    case = None
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)["case"]
    sys.exit(check(a.prop, a.tier, a.seed, case))


if __name__ == "__main__":
    main()
