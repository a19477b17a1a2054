"""C06: M-estimation weights and the robust cross-validation loss."""
import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C06"
ASSUMPTIONS = ["Huber and Hampel are evaluated on non-negative scaled distances, as their callers do"]


def models(tier):
    return [{"module": "MC_Weights", "cfg": "INIT Init\nNEXT Next\nINVARIANT InUnit Decreasing Even CoreOne ZeroOne "
             "Redescends BoundedInfluence StickSums\nCONSTANT K = %d\n" % (40 if tier == "quick" else 120)}]


def cases(tier, seed, gen):
    from scipy.stats import norm, chi2

    rng = D.RNG(6000 + seed)
    out = []
    reps = 15 if tier == "quick" else 200
    for r in range(reps):
        for fun in ("Fair", "Huber", "Hampel"):
            pr = sorted(rng.uniform(0.55, 0.9999, 3))
            if r % 3 == 0:
                pr = [0.95, 0.975, 0.999]
            if r % 2:
                c = [float(norm.ppf(q)) for q in pr]
            else:
                df = int(rng.integers(1, 9))
                c = [float(chi2.ppf(q, df)) for q in pr]
            if r % 5 == 4:
                c[2] = float("inf")   # the cut-off of probability one: nothing is rejected
            x = np.abs(rng.normal(size=int(rng.integers(1, 40)))) * 10.0 ** rng.integers(-1, 2)
            x = D.grid(x, 256)
            extra = [0.0, c[0], c[1], c[2], c[0] * 1.0001, c[1] * 1.0001, c[2] * 1.0001, c[2] * 0.999, 100.0]
            extra = [v for v in extra if np.isfinite(v)]
            x = list(x) + extra
            out.append({"id": f"w-{r}-{fun}", "kind": "w", "fun": fun, "x": [float(v) for v in x], "c": c,
                        "shape": ["1d", "1d", "col"][r % 3]})
        n = int(rng.integers(3, 30))
        y = D.normal(rng, n, 1, 3.0).reshape(-1)
        f = D.grid(y + rng.normal(size=n) * 1.2)
        f[0] = y[0] + 2.5
        f[1] = y[1] - 2.5
        f[2] = y[2] - 2.2
        out.append({"id": f"loss-{r}", "kind": "loss", "y": y.tolist(), "f": f.tolist(),
                    "fun": ["Hampel", "Huber", "Fair"][r % 3], "lfun": ["mse", "mae"][r % 2],
                    "shape": ["1d", "col", "frame"][r % 3], "default": bool(r % 4 == 0 and r % 3 == 0)})
    for n in range(1, 12):
        out.append({"id": f"stick-{n}", "kind": "stick", "n": n})
    for r in range(3):
        out.append({"id": f"cv-{r}", "kind": "cv", "seed": int(rng.integers(10 ** 6)),
                    "etas": [[0.1, 0.5, 0.9], [0.0, 0.3], [0.7]][r], "hs": [[1, 2], [1, 2, 3], [2, 1]][r]})
    return out


def run_case(case):
    from scipy.stats import norm
    from sklearn.metrics import mean_absolute_error, mean_squared_error

    from direpack.cross_validation._cv_support_functions import cv_score_table, robust_loss
    from direpack.sprm import _m_support_functions as M

    if case["kind"] == "w":
        x = np.array(case["x"])
        xin = x.copy() if case["shape"] == "1d" else x.copy().reshape(-1, 1)
        f = getattr(M, case["fun"])
        c = case["c"]
        w, out = E.outcome(f, xin, *c)
        return [{"ev": "weights", "fun": case["fun"], "x": case["x"], "w": E.vec(w), "out": out, "c": c[0], "b": c[1],
                 "r": c[2], "same": bool(np.array_equal(xin.reshape(-1), x))}]
    if case["kind"] == "loss":
        y, f = np.array(case["y"]), np.array(case["f"])
        yy, ff = y.copy(), f.copy()
        if case["shape"] == "col":
            yy, ff = y.reshape(-1, 1), f.reshape(-1, 1)
        if case["shape"] == "frame":
            import pandas as pd
            yy = pd.DataFrame(y.reshape(-1, 1))
        lf = mean_squared_error if case["lfun"] == "mse" else mean_absolute_error
        cut = [float(norm.ppf(q)) for q in (0.95, 0.975, 0.999)]
        if case["default"]:
            cut = [float(norm.ppf(q)) for q in (0.975, 0.99, 0.999)]
            v, out = E.outcome(robust_loss, yy, ff)
            lfun, fun = "mse", "Hampel"
        else:
            v, out = E.outcome(robust_loss, yy, ff, lfun=lf, fun=getattr(M, case["fun"]), probct=cut[0], hampelb=cut[1],
                               hampelr=cut[2])
            lfun, fun = case["lfun"], case["fun"]
        return [{"ev": "loss", "y": case["y"], "f": case["f"], "fun": fun, "lfun": lfun, "c": cut[0], "b": cut[1],
                 "r": cut[2], "out": out, "loss": float(v) if out == "ok" else "none"}]
    if case["kind"] == "stick":
        q, out = E.outcome(M.brokenstick, case["n"])
        return [{"ev": "stick", "n": case["n"], "q": E.vec(q), "out": out}]
    if case["kind"] == "cv":
        from sklearn.model_selection import GridSearchCV
        from direpack.sprm.snipls import snipls
        rng = D.RNG(case["seed"])
        X = rng.normal(size=(30, 4))
        y = X[:, 0] + 0.1 * rng.normal(size=30)
        gs = GridSearchCV(snipls(verbose=False), {"eta": case["etas"], "n_components": case["hs"]}, cv=3,
                          scoring="neg_mean_squared_error")
        gs.fit(X, y)
        t, out = E.outcome(cv_score_table, gs)
        exp = [[float(a["eta"]), float(a["n_components"]), float(b)]
               for a, b in zip(gs.cv_results_["params"], gs.cv_results_["mean_test_score"])]
        rows = "none"
        if out == "ok":
            rows = [[float(t["etas"][k]), float(t["n_components"][k]), float(t["score"][k])] for k in range(len(t))]
        return [{"ev": "cvtable", "out": out, "rows": rows, "expect": exp}]
