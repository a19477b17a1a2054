"""C11: product-moment statistics."""
import copy

import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C11"
ASSUMPTIONS = ["non-degenerate data (zero variances are left out of standardised statistics)",
               "values compared to 1e-7 relative to the magnitude of the terms summed"]
MODES = ["mom", "var", "std", "skew", "kurt", "com", "cov", "cos", "cok", "M3", "corr", "continuum"]


def models(tier):
    c = ("{0, 1, 4}", "{0, 3}", 4) if tier == "quick" else ("{0, 1, 4}", "{0, 1, 3}", 5)
    return [{"module": "MC_Moments", "cfg": "INIT Init\nNEXT Next\nINVARIANT CovLaws VarLaws CorrLaws Diagonal Standardised "
             "ContinuumAtOne\nCONSTANTS XVals = %s YVals = %s N = %d\n" % c, "timeout": 1500}]


def cases(tier, seed, gen):
    rng = D.RNG(11000 + seed)
    out = []
    for r in range(36 if tier == "quick" else 300):
        n = int(rng.choice([4, 6, 7, 9, 12, 21, 30]))
        if r % 5 == 0:
            x = rng.integers(-3, 4, size=n).astype(float)
            y = rng.integers(-3, 4, size=n).astype(float)
        else:
            x = D.normal(rng, n, 1, 2.0, 1.0).ravel()
            y = D.grid(0.7 * x + rng.normal(size=n) * rng.choice([0.2, 1.0, 4.0]) - 2)
        if r % 4 == 1:
            x[0] += 25
            y[-1] -= 30
        if len(set(x)) < 3:
            x[:3] = [0, 1, 5]
        if len(set(y)) < 3:
            y[:3] = [4, 0, 1]
        calls = []
        for q in range(16):
            m = MODES[(r + q) % len(MODES)]
            c = {"mode": m, "center": "median" if rng.random() < 0.35 and m not in ("corr", "continuum") else "mean",
                 "trim": float(rng.choice([0, 0, 0, 0.1, 0.2])) if n > 4 else 0.0, "bias": bool(rng.random() < 0.5),
                 "order": int(rng.choice([1, 2, 3, 4, 5])) if m in ("mom", "com") else 2, "option": 1,
                 "alpha4": int(rng.choice([0, 2, 4, 6, 8, 12])), "std": True, "fisher": True,
                 "xk": ["vector", "col", "frame", "series", "matrix"][(q + r) % 5], "yk": ["vector", "col", "frame", "series"][q % 4],
                 "self": bool(rng.random() < 0.1)}
            k = {"cos": 3, "M3": 3, "cok": 4}.get(m, c["order"])
            if k > 2:
                c["option"] = int(rng.integers(1, k))
            if m in ("cos", "cok"):
                c["std"] = bool(rng.random() < 0.7)
            if m in ("kurt", "cok"):
                c["fisher"] = bool(rng.random() < 0.6)
            if n <= 5 and (c["bias"]):
                c["trim"] = 0.0
            calls.append(c)
        out.append({"id": f"mo-{r}-n{n}", "x": x.tolist(), "y": y.tolist(), "calls": calls, "reuse": bool(r % 2)})
    x = D.normal(D.RNG(3), 15, 1).ravel()
    y = D.grid(x + D.RNG(4).normal(size=15))
    out.append({"id": "kf-median-corr", "x": x.tolist(), "y": y.tolist(), "calls": [], "reuse": False})
    return out


def box(v, k):
    import pandas as pd

    v = np.array(v, dtype=float)
    return {"vector": lambda: v.copy(), "col": lambda: v.reshape(-1, 1).copy(), "frame": lambda: pd.DataFrame(v.reshape(-1, 1)),
            "series": lambda: pd.Series(v.copy()), "matrix": lambda: np.matrix(v.reshape(-1, 1))}[k]()


def parts(obj):
    r = {}
    for k, a in (("x", "x_moment_"), ("y", "y_moment_"), ("xy", "co_moment_")):
        v = getattr(obj, a, None)
        r[k] = "none" if v is None or np.size(v) != 1 else float(np.ravel(v)[0])
    return r


def run_case(case):
    from direpack.dicomo.dicomo import dicomo

    x, y = case["x"], case["y"]
    ev = []
    if case["id"].startswith("kf-"):
        d = dicomo(mode="corr", center="median")
        a, _ = E.outcome(d.fit, np.array(x), y=np.array(y))
        b, _ = E.outcome(d.fit, 100 * np.array(x), y=np.array(y))
        return [{"ev": "invariance", "a": float(a), "b": float(b)}]
    obj = dicomo()
    for c in case["calls"]:
        yv = x if c["self"] else y
        kw = {"biascorr": c["bias"], "trimming": c["trim"]}
        if c["mode"] in ("mom", "com"):
            kw["order"] = c["order"]
        k = {"cos": 3, "M3": 3, "cok": 4}.get(c["mode"], c["order"])
        if k > 2:
            kw["option"] = c["option"]
        if c["mode"] == "continuum":
            kw["alpha"] = c["alpha4"] / 4
        if c["mode"] in ("cos", "cok"):
            kw["standardized"] = c["std"]
        if c["mode"] in ("var", "cov", "std") and len(ev) % 2:
            kw["order"] = 4            # only moments and co-moments have an order to choose
        if c["mode"] in ("kurt", "cok"):
            kw["Fisher"] = c["fisher"]
        if case["reuse"]:
            obj.set_params(mode=c["mode"], center=c["center"])
        else:
            obj = dicomo(est="arithmetic", mode=c["mode"], center=c["center"])
        xi, yi = box(x, c["xk"]), box(yv, c["yk"])
        x0, y0 = copy.deepcopy(xi), copy.deepcopy(yi)
        before = obj.get_params()
        two = c["mode"] in ("com", "cov", "cos", "cok", "M3", "corr", "continuum")
        if two:
            kw["y"] = yi
        val, out = E.outcome(obj.fit, xi, **kw)
        o = {q: c[q] for q in ("mode", "center", "trim", "bias", "order", "option", "alpha4", "std", "fisher")}
        if c["mode"] in ("corr", "continuum"):
            o["option"] = 1
        kk = {"skew": 3, "kurt": 4, "cos": 3, "M3": 3, "cok": 4}.get(c["mode"], c["order"])
        sx = float(np.max(np.abs(np.array(x))) + np.max(np.abs(np.array(yv))))
        unit = 1.0 if c["mode"] in ("corr", "skew", "kurt") or (c["mode"] in ("cos", "cok") and c["std"]) else sx ** kk
        if c["mode"] == "continuum":
            unit = 0.0
        e = {"ev": "moment", "o": o, "x": x, "y": yv, "out": out, "unit": float(unit)}
        if out == "ok":
            e["val"] = float(val) if np.ndim(val) == 0 else "array"
            at = getattr(obj, "moment_", None)
            e["attr"] = float(at) if np.ndim(at) == 0 else "array"
            e["parts"], e["unit2"] = parts(obj), sx ** 2
        ev.append(e)
        ev.append({"ev": "unchanged", "same": bool(np.array_equal(np.asarray(xi), np.asarray(x0))
                                                 and np.array_equal(np.asarray(yi), np.asarray(y0)))})
        after = obj.get_params()
        ev.append({"ev": "params", "same": before == after})
    _, out = E.outcome(dicomo(mode="cov").fit, np.array(x), y=np.array(y)[:-1])
    ev.append({"ev": "rejected", "out": out})
    _, out = E.outcome(dicomo(mode="corr").fit, np.array(x))
    ev.append({"ev": "rejected", "out": out})
    for kw in ({"mode": "nonsense"}, {"est": "nonsense"}, {"center": "nonsense"}, {"mode": "mdd"}):
        _, out = E.outcome(lambda: dicomo(**kw))
        ev.append({"ev": "rejected", "out": out})
    return ev
