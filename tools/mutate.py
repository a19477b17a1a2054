"""Mutation sweep: change one token of the code under test at a time, replay the
quick cases of the properties that depend on that file and let TLC judge the traces
that differ from the unchanged tree's.   mutate.py FILE PROP[,PROP..] OUT [--sample N] [--seed S]
FILE is relative to src/direpack.  Works on a scratch copy of /repo; prints MISSED mutants."""
import argparse
import ast
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
SRC = os.environ.get("VF_REPO", "/repo")
for v_ in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[v_] = "1"
os.environ.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
scratch = tempfile.mkdtemp(prefix="vf_mut_")
os.environ["VF_REPO"] = scratch
from harness import runner  # noqa: E402

sys.dont_write_bytecode = True


def preload():
    """third-party libraries are imported once; the code under test is imported after the fork"""
    import dcor, matplotlib.pyplot, numpy, pandas, scipy.optimize, scipy.stats, sklearn.model_selection, sklearn.pipeline, statsmodels.api, statsmodels.robust, statsmodels.regression.quantile_regression  # noqa
    numpy.seterr(all="ignore")
    import warnings
    warnings.filterwarnings("ignore")


def fork_replay(prop, mod, cases, limit, wall):
    import contextlib, signal, time, traceback
    import numpy as np
    tmp = tempfile.mkdtemp(prefix="vf_mutr_")
    pids = []
    for k in range(8):
        pid = os.fork()
        if pid == 0:
            try:
                os.setsid()
                sys.path.insert(0, scratch + "/src")
                sys.stdout = open(os.devnull, "w")
                os.dup2(sys.stdout.fileno(), 2)
                os.chdir(tmp)

                class TO(BaseException):
                    pass

                def al(*_):
                    raise TO()
                signal.signal(signal.SIGALRM, al)
                with open(f"{tmp}/o{k}", "w") as out:
                    for case in cases[k::8]:
                        np.random.seed(12345)
                        signal.alarm(limit)
                        try:
                            ev, err = mod.run_case(case), None
                        except TO:
                            ev, err = [], "timeout"
                        except Exception:
                            ev, err = [], traceback.format_exc()
                        finally:
                            signal.alarm(0)
                        r = {"id": case["id"], "events": ev}
                        if err:
                            r["error"] = err
                        out.write(json.dumps(r) + "\n")
                        out.flush()
            finally:
                os._exit(0)
        pids.append(pid)
    end = time.time() + wall
    for pid in pids:
        while True:
            if os.waitpid(pid, os.WNOHANG)[0]:
                break
            if time.time() > end:
                os.killpg(pid, 9)
                os.waitpid(pid, 0)
                break
            time.sleep(0.02)
    done = {}
    for k in range(8):
        if os.path.exists(f"{tmp}/o{k}"):
            for line in open(f"{tmp}/o{k}"):
                try:
                    r = json.loads(line)
                    done[r["id"]] = r
                except ValueError:
                    pass
    shutil.rmtree(tmp)
    return [done.get(c["id"], {"id": c["id"], "events": [], "error": "not run"}) for c in cases]


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
NAMES = {"median": "mean", "mean": "median", "nanmedian": "nanmean", "nanmean": "nanmedian", "max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax",
         "std": "var", "abs": "float", "sqrt": "square", "square": "sqrt", "ceil": "floor", "floor": "ceil", "inv": "asarray", "argsort": "arange_like", "any": "all", "all": "any",
         "zeros": "ones", "ones": "zeros", "union1d": "intersect1d", "intersect1d": "union1d", "sin": "cos", "cos": "sin", "trim_mean": "trim_median", "sort": "asarray"}


def mutants(text):
    tree = ast.parse(text)
    lines = text.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = text.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, new, what):
        a, b = span(n)
        out.append((a, b, new, n.lineno, what))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
                skip.add(n.body[0])
            if isinstance(n, ast.FunctionDef) and n.name in ("_get_param_names", "__str__", "__repr__"):
                skip.update(ast.walk(n))
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("print", "warn")):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n)
            l, r = span(n.left), span(n.comparators[0])
            new = raw[l[0]:l[1]].decode() + " " + CMP[type(n.ops[0])] + " " + raw[r[0]:r[1]].decode()
            put(n, "(" + new + ")", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = span(n.left), span(n.right)
            mid = raw[l[1]:r[0]].decode()
            tok = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}[type(n.op)]
            if mid.count(tok) == 1:
                out.append((l[1], r[0], mid.replace(tok, BIN[type(n.op)]), n.lineno, "binop"))
        elif isinstance(n, ast.BoolOp):
            a = span(n.values[0])[1]
            b = span(n.values[1])[0]
            mid = raw[a:b].decode()
            w, x = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if mid.count(w) == 1:
                out.append((a, b, mid.replace(w, x), n.lineno, "bool"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n.operand)
            put(n, "(" + raw[a:b].decode() + ")", "unary")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, bool):
            if isinstance(n.value, int):
                put(n, str(n.value + 1), "const")
                if n.value > 0:
                    put(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 1.25), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "flag")
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            if isinstance(n, ast.If):
                out.append((a, b, "True", n.lineno, "if-true"))
            out.append((a, b, "False", n.lineno, "if-false"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            put(n, "pass", "delete")
        if isinstance(n, ast.Attribute) and n.attr in NAMES and NAMES[n.attr] not in ("arange_like", "trim_median"):
            a, b = span(n)
            v = span(n.value)
            put(n, raw[v[0]:v[1]].decode() + "." + NAMES[n.attr], "name")
    seen, res = set(), []
    for a, b, new, ln, what in sorted(out, key=lambda t: t[:2]):
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen or m == raw:
            continue
        seen.add(m)
        try:
            compile(m, "m", "exec")
        except SyntaxError:
            continue
        res.append((ln, what, raw[a:b].decode()[:70].replace("\n", " ") + "  ->  " + new[:70].replace("\n", " "), m))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("props")
    ap.add_argument("out")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    shutil.copytree(SRC + "/src", scratch + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    path = os.path.join(scratch, "src/direpack", a.file)
    text = open(path).read()
    muts = mutants(text)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        muts = [m for m in muts if lo <= m[0] <= hi]
    if a.sample:
        random.Random(a.seed).shuffle(muts)
        muts = sorted(muts[:a.sample], key=lambda m: m[0])
    done = set()
    if os.path.exists(a.out):
        done = {(r["line"], r["what"], r["mut"]) for r in map(json.loads, open(a.out)) if r["file"] == a.file}
    props = a.props.split(",")
    base = {}
    preload()
    runner.tlc.ensure_build()
    for p in props:
        mod = importlib.import_module("harness.props." + p.lower())
        gen = []
        for g in getattr(mod, "GEN", {}).get("quick", []):
            gen += runner.generate(g)
        cases = mod.cases("quick", 1, gen)
        ref = {s["id"]: json.dumps(s, sort_keys=True) for s in fork_replay(p, mod, cases, getattr(mod, "CASE_LIMIT", 60), 600)}
        base[p] = (mod, cases, ref)
        print(p, len(cases), "cases", flush=True)
    known = [k for k in runner.known_findings() if k.get("status") == "known"]
    import re
    for ln, what, desc, m in muts:
        if (ln, what, desc) in done:
            continue
        open(path, "wb").write(m)
        status, info = "MISSED", ""
        for p in props:
            mod, cases, ref = base[p]
            ses = fork_replay(p, mod, cases, 30, 120)
            diff = [s for s in ses if json.dumps(s, sort_keys=True) != ref[s["id"]]]
            err = [s for s in diff if s.get("error")]
            if err:
                status, info = "CAUGHT", p + " driver"
                break
            if not diff:
                info += p + ":no-difference "
                continue
            k = [x for x in known if x["property"] == p]
            hit = False
            for q in range(0, len(diff), 25):
                f, _, _ = runner.validate(mod.TRACE, [{"id": s["id"], "events": s["events"]} for s in diff[q:q + 25]])
                f = [v for v in f if not any(re.fullmatch(x["case"], v[0]) and re.search(x["clause"], v[3]) for x in k)]
                if f:
                    hit = True
                    break
            if hit:
                status, info = "CAUGHT", p
                break
            info += p + ":%d-differ-but-allowed " % len(diff)
        with open(a.out, "a") as f:
            f.write(json.dumps({"file": a.file, "line": ln, "what": what, "mut": desc, "status": status, "info": info}) + "\n")
        if status == "MISSED":
            print(f"MISSED {a.file}:{ln} [{what}] {desc}   ({info})", flush=True)
    open(path, "w").write(text)
    shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
