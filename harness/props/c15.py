"""C15: sufficient dimension reduction by spectral methods."""
import copy

import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C15"
CASE_LIMIT = 120
ASSUMPTIONS = ["covariance matrix of the predictors is well conditioned", "more cases than variables",
               "kernels compared to 1e-6 of their largest eigenvalue"]
METHS = ["sir", "save", "dr", "phd", "iht"]


def models(tier):
    q = tier == "quick"
    return [{"module": "MC_Sdr", "cfg": "INIT Init\nNEXT Next\nINVARIANT Partition TiesTogether Ordered Ranks Sizes Classes Symmetric "
             "NonNegative BetweenWithin Equivariant\nCONSTANT Rowz <- RowzDef\nCONSTANTS YVals = {0, 1, 2} N = %d H = %d\n" % (n, h),
             "timeout": 1500} for n, h in (((4, 2), (4, 3)) if q else ((5, 2), (5, 3), (4, 4)))]


def cases(tier, seed, gen):
    rng = D.RNG(15000 + seed)
    out = []
    k = 0
    for r in range(5 if tier == "quick" else 24):
        for meth in METHS:
            for center in ("mean", "median"):
                for cd, sd in ((True, True), (True, False), (False, True), (False, False)):
                    k += 1
                    n, p = int(rng.integers(14, 30)), int(rng.integers(2, 5))
                    X = D.grid(rng.normal(size=(n, p)) @ (np.eye(p) + 0.4 * rng.normal(size=(p, p))) * rng.choice([0.5, 1, 3], size=p)
                               + rng.integers(-4, 5, size=p), 32)
                    b = rng.normal(size=p)
                    y = D.grid(np.sin(X @ b) * 2 + X[:, 0] ** 2 * 0.5 + 0.3 * rng.normal(size=n), 32)
                    yk = int(rng.integers(0, 5))
                    discrete = False
                    if yk == 0:
                        y = np.round(y / 2)                       # ties: fewer slices than asked for
                    elif yk == 1:
                        y, discrete = rng.integers(0, rng.choice([2, 4, 9]), size=n).astype(float), True
                    out.append({"id": f"{meth}-{k}-{center}-{int(cd)}{int(sd)}{'-d' if discrete else ''}", "meth": meth, "X": X.tolist(), "y": y.tolist(),
                                "center": center, "cd": cd, "sd": sd, "slices": int(rng.choice([2, 3, 4, 6])), "d": int(rng.integers(1, p + 1)),
                                "discrete": discrete, "copy": bool(k % 3), "xk": ["array", "frame", "fortran"][k % 3],
                                "yk": ["vector", "col", "frame", "series"][k % 4], "trim": float(rng.choice([0.0, 0.1])),
                                "Xn": D.normal(rng, int(rng.integers(1, 4)), p, 2.0).tolist(), "ret": bool(k % 2)})
        for q, meth in enumerate(METHS):   # one variable: its direction, on the scale of the method
            n, p = int(rng.integers(10, 20)), 1
            X = D.normal(rng, n, 1, 2.0, 1.0)
            y = D.grid(np.sin(X[:, 0]) + 0.3 * rng.normal(size=n), 32)
            out.append({"id": f"p1-{meth}-{r}", "meth": meth, "X": X.tolist(), "y": y.tolist(), "center": ["mean", "median"][(q + r) % 2], "cd": bool((r + q) % 3), "sd": bool((r + q) % 4),
                        "slices": 3, "d": 1, "discrete": False, "copy": bool(r % 2), "xk": ["array", "frame", "fortran"][q % 3], "yk": ["vector", "col", "frame", "series"][q % 4],
                        "trim": 0.0, "Xn": D.normal(rng, 2, 1, 2.0).tolist(), "ret": True})
        for q, meth in enumerate(METHS):
            n, p = 18, 3
            X = D.normal(rng, n, p)
            y = D.grid(X[:, 0] + 0.5 * X[:, 1] ** 2 + 0.2 * rng.normal(size=n), 32)
            out.append({"id": f"dim-{meth}-{r}", "meth": meth, "X": X.tolist(), "y": y.tolist(), "B": 3, "slices": [3, 6, 4][(r + q) % 3],
                        "cd": bool((r + q) % 3), "sd": bool((r + q) % 4 != 1), "discrete": False, "defaults": bool(q % 2 == r % 2), "center": ["mean", "median"][r % 2], "yk": ["vector", "series", "frame"][r % 3], "kind": "dim"})
    for nm in ("kf-whiten", "kf-compression"):
        n, p = (20, 3) if nm == "kf-whiten" else (8, 12)
        X = D.normal(D.RNG(5), n, p)
        out.append({"id": nm, "X": X.tolist(), "y": D.grid(X[:, 0] - X[:, 1] + X[:, 2] ** 2, 16).tolist()})
    return out


def ybox(y, k):
    import pandas as pd

    y = np.array(y)
    return {"vector": lambda: y.copy(), "col": lambda: y.reshape(-1, 1).copy(), "frame": lambda: pd.DataFrame(y.reshape(-1, 1)),
            "series": lambda: pd.Series(y.copy())}[k]()


def run_case(case):
    import pandas as pd
    import direpack.sudire.sudire  # noqa
    import sys

    S = sys.modules["direpack.sudire.sudire"]
    sudire = S.sudire
    X, y = np.array(case["X"]), np.array(case["y"])
    n, p = X.shape
    if case["id"].startswith("kf-"):
        kw = {"whiten_data": True} if case["id"] == "kf-whiten" else {"compression": True, "n_slices": 2}
        m = sudire("sir", n_components=1, **kw)
        before = copy.deepcopy(m.get_params())
        _, out = E.outcome(m.fit, X.copy(), y.copy())
        ok = False
        if out == "ok":   # same subspace as without the option
            P = sudire("sir", n_components=1).fit(X, y).x_loadings_
            Q = m.x_loadings_
            ok = bool(Q.shape == P.shape and abs(np.corrcoef(P[:, 0], Q[:, 0])[0, 1]) > 1 - 1e-6 and before == m.get_params())
        return [{"ev": "works", "out": out, "consistent": ok}]
    if case.get("kind") == "dim":
        log = []
        orig = sudire.fit

        def fit(self, Xa, *a, **k):
            r = orig(self, Xa, *a, **k)
            ya = a[0] if a else k["y"]
            log.append({"X": E.arr(Xa), "y": E.vec(ya), "k": int(self.n_components), "proj": E.arr(self.proj_mat_), "P": E.arr(self.x_loadings_),
                        "center": self.center})
            return r

        sudire.fit = fit
        kw = {"n_slices": case["slices"], "center_data": case["cd"], "scale_data": case["sd"], "center": case["center"]}
        if case["defaults"]:   # an option that has its default value may be left out
            kw = {k: v for k, v in kw.items() if {"n_slices": 6, "center_data": True, "scale_data": True, "center": "mean"}[k] != v}
        try:
            res, out = E.outcome(S.estimate_structural_dim, case["meth"], pd.DataFrame(X) if case["yk"] == "frame" else X.copy(),
                                 ybox(y, case["yk"]), case["B"], **kw)
        finally:
            sudire.fit = orig
        e = {"ev": "dim", "out": out, "X": E.arr(X), "y": E.vec(y), "B": case["B"], "meth": case["meth"], "slices": case["slices"], "discrete": False,
             "center": case["center"], "center_data": case["cd"], "scale_data": case["sd"]}
        if out == "ok":
            e.update(h=int(res[0]), diff=E.vec(res[1]), fits=log)
        return [e]
    m = sudire(case["meth"], n_components=case["d"], center=case["center"], center_data=case["cd"], scale_data=case["sd"],
               n_slices=case["slices"], response_type="discrete" if case["discrete"] else "continuous", copy=case["copy"], verbose=False,
               trimming=case["trim"], return_scaling_object=case["ret"])
    Xi, yi = D.container(X, "readonly" if case["xk"] == "fortran" and case["copy"] and len(X) % 2 else case["xk"]), ybox(y, case["yk"])
    X0, y0 = copy.deepcopy(Xi), copy.deepcopy(yi)
    before = copy.deepcopy(m.get_params())
    _, out = E.outcome(m.fit, Xi, yi)
    one = lambda v: float(np.ravel(v)[0]) if v is not None and np.size(v) == 1 else "shape"  # noqa
    e = {"ev": "fit", "out": out, "X": case["X"], "y": case["y"], "meth": case["meth"], "slices": case["slices"], "discrete": case["discrete"],
         "d": case["d"], "center": case["center"], "center_data": case["cd"], "scale_data": case["sd"], "trim": case["trim"]}
    ev = [e, {"ev": "unchanged", "same": bool(np.array_equal(np.asarray(Xi), np.asarray(X0)) and np.array_equal(np.asarray(yi), np.asarray(y0)))},
          {"ev": "params", "same": before == m.get_params()}]
    if out != "ok":
        return ev
    P = E.arr(m.x_loadings_)
    e.update(P=P, T=E.arr(m.x_scores_), proj=E.arr(m.proj_mat_), loc=E.vec(m.x_loc_), sca=E.vec(m.x_sca_),
             yloc=one(getattr(m, "y_loc_", None)), ysca=one(getattr(m, "y_sca_", None)))
    for q, Xn in enumerate((np.array(case["Xn"]), pd.DataFrame(case["Xn"]), X, X[:1])):
        arg = Xn.copy()
        Z, out = E.outcome(m.transform, arg)
        ev.append({"ev": "transform", "out": out, "Xn": E.arr(Xn), "P": P, "Z": E.arr(Z)})
        yp, out = E.outcome(m.predict, arg)
        ev.append({"ev": "predict", "out": out, "Xn": E.arr(Xn), "P": P, "X": case["X"], "y": case["y"], "yp": E.vec(yp)})
        ev.append({"ev": "unchanged", "same": bool(np.array_equal(np.asarray(arg), np.asarray(Xn)))})
    for f in (m.transform, m.predict):
        _, out = E.outcome(f, np.ones((3, p + 1)))
        ev.append({"ev": "rejected", "out": out})
    _, out = E.outcome(lambda: sudire(case["meth"], n_components=p + 1).fit(X.copy(), y.copy()))
    ev.append({"ev": "rejected", "out": out})
    _, out = E.outcome(lambda: sudire(case["meth"], n_components=1).fit(X.copy(), y[:-1].copy()))
    ev.append({"ev": "rejected", "out": out})
    _, out = E.outcome(lambda: sudire("nomethod"))
    ev.append({"ev": "rejected", "out": out})
    _, out = E.outcome(lambda: sudire(case["meth"], center="kurtosis"))
    ev.append({"ev": "rejected", "out": out})
    return ev
