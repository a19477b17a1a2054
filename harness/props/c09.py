"""C09: sparse NIPALS."""
import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C09"
ASSUMPTIONS = ["variables within 1e-9 of the sparsity threshold make a session undetermined",
               "components extracted while the deflated data are not numerically zero"]


def models(tier):
    v = ("{0, 1, 3}", "{0, 2}") if tier == "quick" else ("{0, 1, 3}", "{0, 2, 5}")
    return [{"module": "MC_Snipls", "cfg": "INIT Init\nNEXT Next\nINVARIANT Orthogonal Nested Sparse FitIsProjection "
             "EvBounded\nCONSTANTS XVals = %s YVals = %s\n" % v, "timeout": 1500}]


def cases(tier, seed, gen):
    rng = D.RNG(9000 + seed)
    out = []
    reps = 5 if tier == "quick" else 40
    combos = [("mean", "None"), ("mean", "std"), ("median", "mad"), ("None", "None"), ("median", "std"),
              ("l1median", "mad"), ("mean", "mad"), ("kstepLTS", "None")]
    k = 0
    for r in range(reps):
        for eta in (0.0, 0.3, 0.5, 0.7, 0.9):
            for centre, scale in [combos[(k + q) % len(combos)] for q in range(2)]:
                k += 1
                p = int(rng.integers(1, 8))
                n = int(rng.integers(p + 6, p + 25)) if rng.random() < 0.8 else int(rng.integers(6, 9))
                X = D.normal(rng, n, p, 2.0, 3.0)
                if p > 2 and rng.random() < 0.5:
                    X[:, 1] = D.grid(X[:, 0] + 0.3 * rng.normal(size=n))
                y = X @ (rng.normal(size=p) * np.where(rng.random(p) < 0.5, 3, 0.3)) + rng.normal(size=n)
                if rng.random() < 0.4:
                    y[:2] += [25, -30]
                y = D.grid(y)
                nan = bool(rng.random() < 0.25 and n > 8 and centre in ("mean", "median", "None"))
                if nan:
                    if k % 3:       # entries missing in X, in y, or in both
                        X = D.with_nan(rng, X, 0.06)
                    if k % 3 != 1:
                        y[rng.permutation(n)[:max(1, n // 8)]] = np.nan
                if p > 1 and rng.random() < 0.2 and scale != "mad":
                    X[:, -1] = 1.5
                H = min(p, 4, n - 2)
                if np.nanstd(X[:, -1]) == 0:
                    H = max(1, min(H, p - 1))
                out.append({"id": f"sn-{k}-eta{eta}-{centre}-{scale}" + ("-nan" if nan else ""), "X": X.tolist(),
                            "y": y.tolist(), "Xn": D.normal(rng, int(rng.integers(1, 5)), p, 3.0).tolist(), "eta": eta,
                            "centre": centre, "scale": scale, "H": H, "nan": nan,
                            "kind": ["array", "frame", "fortran", "object"][k % 4], "ykind": ["vector", "col", "frame", "series"][k % 4],
                            "columns": [False, "list", True][k % 3] if k % 4 == 1 else [False, "list"][k % 2]})
    # the retained set grows from component to component
    r0 = D.RNG(0)
    for t in range(6):
        X = D.normal(r0, 20, 5)
        y = D.grid(X @ np.array([3, 1, .5, 0, 0.2]) + .1 * r0.normal(size=20))
        out.append({"id": f"kf-snipls-grow-{t}", "X": X.tolist(), "y": y.tolist(), "Xn": X[:2].tolist(), "eta": 0.6,
                    "centre": "mean", "scale": "None", "H": 3, "nan": False, "kind": "array", "ykind": "vector",
                    "columns": False, "strict": True})
    return D.retype(out, "kind", ["X", "Xn"], y="y")


def run_case(case):
    import pandas as pd
    from direpack.sprm.snipls import snipls

    X = np.array(case["X"], dtype=float)
    y = np.array(case["y"])
    n, p = X.shape
    names = ["v%d" % j for j in range(p)]
    o = {"eta": float(case["eta"]), "centre": case["centre"], "scale": case["scale"]}
    ev = []
    est = None
    for h in range(1, case["H"] + 1):
        cols = {"list": list(names), True: True, False: False}[case["columns"]]
        if cols is True and case["kind"] != "frame":
            cols = list(names)
        est = snipls(eta=case["eta"], n_components=h, verbose=False, columns=cols, centre=case["centre"],
                     scale=case["scale"], copy=bool(h % 2) or case["kind"] == "readonly")
        Xi = D.container(X, case["kind"])
        yi = {"vector": y.copy(), "col": y.reshape(-1, 1).copy(), "int": y.astype(int), "frame": pd.DataFrame(y.reshape(-1, 1)),
              "series": pd.Series(y)}[case["ykind"]]
        _, out = E.outcome(est.fit, Xi, yi)
        e = {"ev": "comp", "h": h, "X": case["X"], "y": case["y"], "o": o, "out": out}
        if out == "ok":
            cr = list(np.ravel(est.colret_))
            # names when names were given, positions otherwise
            ret = [names.index(c) + 1 if c in names else 0 for c in cr] if cols is not False else [0 if isinstance(c, str) else int(c) + 1 for c in cr]
            e.update(W=E.arr(est.x_weights_), P=E.arr(est.x_loadings_), T=E.arr(est.x_scores_), C=E.vec(est.C_),
                     b=E.vec(est.coef_scaled_), coef=E.vec(est.coef_), icpt=float(est.intercept_), R=E.arr(est.x_Rweights_),
                     xev=E.vec(est.x_ev_), yev=E.vec(est.y_ev_), fit=E.vec(est.fitted_), res=E.vec(est.residuals_),
                     mx=E.vec(est.x_loc_), sx=E.vec(est.x_sca_), my=float(np.ravel(est.y_loc_)[0]),
                     sy=float(np.ravel(est.y_sca_)[0]), ret=ret)
        ev.append(e)
        if out != "ok":
            return ev
        base = {"mx": e["mx"], "sx": e["sx"], "R": e["R"], "coef": e["coef"], "icpt": e["icpt"]}
        for q, Xn in enumerate((np.array(case["Xn"]), pd.DataFrame(case["Xn"]), np.array(case["Xn"])[0])):
            if (h + q) % 3:
                continue
            XX = np.asarray(Xn, dtype=float).reshape(-1, p).tolist()
            yp, out = E.outcome(est.predict, Xn)
            ev.append(dict(base, ev="predict", X=XX, out=out, yp=E.vec(yp)))
            Z, out = E.outcome(est.transform, Xn)
            ev.append(dict(base, ev="transform", X=XX, out=out, Z=E.arr(Z)))
        if not case["nan"]:
            Z, out = E.outcome(est.transform, X)
            ev.append({"ev": "train-transform", "out": out, "Z": E.arr(Z), "T": e["T"], "strict": bool(case.get("strict"))})
    for f in (est.predict, est.transform):
        _, out = E.outcome(f, np.ones((2, p + 1)))
        ev.append({"ev": "badwidth", "out": out})
    return ev
