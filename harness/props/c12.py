"""C12: energy statistics."""
import copy

import numpy as np

from harness import data as D
from harness import enc as E
from harness.props.c11 import parts

TRACE = "T_C12"
ASSUMPTIONS = ["trimming is combined with the biased estimators only",
               "sign of distance moments of odd order is not specified",
               "bias-corrected squared divergences below zero have no defined root"]
MODES = ["mom", "var", "std", "com", "cov", "corr", "continuum", "mdd", "skew", "kurt", "cos", "cok", "M3"]


def models(tier):
    c = ("{0, 1, 4}", "{0, 3}", 4) if tier == "quick" else ("{0, 1, 4}", "{0, 1, 3}", 5)
    return [{"module": "MC_Energy", "cfg": "INIT Init\nNEXT Next\nINVARIANT Symmetric Scales Correlation Constant Divergence\n"
             "CONSTANTS XVals = %s YVals = %s N = %d\n" % c, "timeout": 1500}]


def cases(tier, seed, gen):
    rng = D.RNG(12000 + seed)
    out = []
    for r in range(30 if tier == "quick" else 240):
        n = int(rng.choice([5, 6, 8, 9, 12, 14]))
        p = int(rng.choice([1, 1, 2, 3]))
        q = int(rng.choice([1, 1, 2]))
        X = D.normal(rng, n, p, 2.0, 1.0, 16) if r % 5 else rng.integers(-2, 3, size=(n, p)).astype(float)
        Y = D.grid(X[:, :1] @ np.ones((1, q)) * 0.6 + rng.normal(size=(n, q)) * rng.choice([0.3, 2.0]), 16)
        if r % 6 == 1:
            X[0] += 12
        calls = []
        for k in range(14):
            m = MODES[(r + k) % len(MODES)]
            calls.append({"mode": m, "center": "median" if rng.random() < 0.2 and m in ("mom", "var", "com", "cov") else "mean",
                          "trim": 0.0, "bias": bool(rng.random() < 0.4), "order": 2, "option": 1,
                          "alpha4": int(rng.choice([0, 2, 4, 6, 8])), "fast": bool((k + r) % 2),
                          "yk": ["col", "vector", "frame"][k % 3] if q == 1 else ["col", "frame"][k % 2],
                          "xk": ["col", "vector", "frame"][(k + 1) % 3] if p == 1 else ["col", "frame"][k % 2],
                          "self": bool(rng.random() < 0.1)})
            c = calls[-1]
            if rng.random() < 0.25 and m not in ("cos", "cok", "skew", "kurt", "M3"):
                c["trim"], c["bias"] = 0.1, False
            if m in ("mom", "com") and rng.random() < 0.4:
                c["order"], c["bias"] = int(rng.choice([3, 4])), False
            if OrderOf(c) > 2:
                c["option"] = int(rng.integers(1, OrderOf(c)))
                c["center"] = "mean"
            c["metric"] = ["euclidean", "euclidean", "cityblock", "chebyshev", "sqeuclidean"][int(rng.integers(5))]
            if c["center"] == "median":
                c["trim"] = 0.0
                c["bias"] = False
        out.append({"id": f"en-{r}-n{n}p{p}q{q}", "x": X.tolist(), "y": Y.tolist(), "calls": calls, "reuse": bool(r % 2)})
    out.append({"id": "kf-mdc", "calls": []})
    return out


def OrderOf(c):
    return {"skew": 3, "cos": 3, "M3": 3, "kurt": 4, "cok": 4, "var": 2, "cov": 2, "std": 2}.get(c["mode"], c["order"])


def box(M, k):
    import pandas as pd

    M = np.array(M, dtype=float)
    return {"vector": lambda: M.ravel().copy(), "col": lambda: M.copy(), "frame": lambda: pd.DataFrame(M.copy())}[k]()


def run_case(case):
    from direpack.dicomo._dicomo_utils import MDDM
    from direpack.dicomo.dicomo import dicomo

    if case["id"] == "kf-mdc":
        _, out = E.outcome(lambda: dicomo(est="distance", mode="mdc"))
        return [{"ev": "documented", "out": out}]
    X, Y = case["x"], case["y"]
    q = len(Y[0])
    ev = []
    obj = dicomo(est="distance")
    for c in case["calls"]:
        yv = X if c["self"] and len(X[0]) == 1 else Y
        if c["mode"] == "mdd" and len(yv[0]) > 1:
            yv = [[r[0]] for r in yv]
        yk = c["yk"] if not (c["yk"] == "vector" and len(yv[0]) > 1) else "col"
        if c["mode"] == "mdd" and yk == "frame":
            yk = "col"
        if case["reuse"]:
            obj.set_params(mode=c["mode"], center=c["center"])
        else:
            obj = dicomo(est="distance", mode=c["mode"], center=c["center"])
        kw = {"biascorr": c["bias"], "calcmode": "fast" if c["fast"] else "naive"}
        if c["trim"]:
            kw["trimming"] = c["trim"]
        if c["mode"] in ("mom", "com"):
            kw["order"] = c["order"]
        if OrderOf(c) > 2:
            kw["option"] = c["option"]
        if c["mode"] == "continuum":
            kw["alpha"] = c["alpha4"] / 4
        if c["metric"] != "euclidean":
            kw["dmetric"] = c["metric"]
        xi, yi = box(X, c["xk"]), box(yv, yk)
        x0, y0 = copy.deepcopy(xi), copy.deepcopy(yi)
        if c["mode"] not in ("mom", "var", "std", "skew", "kurt"):
            kw["y"] = yi
        before = obj.get_params()
        val, out = E.outcome(obj.fit, xi, **kw)
        unit = 1.0 if c["mode"] in ("corr", "cos", "cok", "skew", "kurt") else float(
            np.max(np.abs(np.array(X))) + np.max(np.abs(np.array(yv))))
        if c["metric"] == "sqeuclidean":
            unit = unit ** 2
        if c["mode"] == "continuum":
            unit = unit ** 2
        e = {"ev": "moment", "o": {k: c[k] for k in ("mode", "center", "trim", "bias", "order", "option", "alpha4")},
             "x": X, "y": yv, "out": out, "unit": unit, "metric": c["metric"]}
        if out == "ok":
            e["val"] = float(val) if np.ndim(val) == 0 else "array"
            at = getattr(obj, "moment_", None)
            e["attr"] = float(at) if np.ndim(at) == 0 else "array"
            e["parts"], e["unit2"] = parts(obj), float(np.max(np.abs(np.array(X))) + np.max(np.abs(np.array(yv)))) ** (2 if c["metric"] == "sqeuclidean" else 1)
        ev.append(e)
        ev.append({"ev": "unchanged", "same": bool(np.array_equal(np.asarray(xi), np.asarray(x0))
                                                 and np.array_equal(np.asarray(yi), np.asarray(y0)))})
        ev.append({"ev": "params", "same": before == obj.get_params()})
    M, out = E.outcome(MDDM, np.array(X), np.array(Y))
    ev.append({"ev": "mddm", "x": X, "y": Y, "out": out, "M": E.arr(M)})
    for m in ("cov", "mdd"):
        _, out = E.outcome(dicomo(est="distance", mode=m).fit, np.array(X), y=np.array(Y)[:-1])
        ev.append({"ev": "rejected", "out": out})
        _, out = E.outcome(dicomo(est="distance", mode=m).fit, np.array(X))
        ev.append({"ev": "rejected", "out": out})
    return ev
