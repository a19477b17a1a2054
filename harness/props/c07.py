"""C07: robust M regression."""
import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C07"
ASSUMPTIONS = ["well-conditioned predictors, non-zero column scales", "iterations observed by limiting maxit (2, 3, ...)",
               "stopping decisions within 1e-6 of the tolerance are treated as undetermined"]


def models(tier):
    v, n = ("{0, 3, 5, 12}", 4) if tier == "quick" else ("{0, 3, 5, 12}", 5)
    return [{"module": "MC_Rm", "cfg": "INIT Init\nNEXT Next\nINVARIANT WeightsInUnit Equivariant\n"
             "CONSTANTS YVals = %s N = %d MaxK = 2\n" % (v, n)}]


def cases(tier, seed, gen):
    rng = D.RNG(7000 + seed)
    out = []
    reps = 4 if tier == "quick" else 30
    combos = [("median", "mad"), ("mean", "std"), ("median", "std"), ("mean", "mad"), ("l1median", "mad"),
              ("kstepLTS", "mad"), ("median", "None"), ("mean", "None"), ("l1median", "std"), ("median", "scaleTau2"), ("l1median", "scaleTau2")]
    probs = [["0.95", "0.975", "0.999"], ["0.8", "0.9", "0.99"], ["0.9", "0.95", "0.975"], ["0.6", "0.8", "0.95"]]
    k = 0
    for r in range(reps):
        for fun in ("Hampel", "Huber", "Fair"):
            for mode in ("specific", "ally"):
                for j in range(3):
                    centre, scale = combos[(k + j * 3) % len(combos)]
                    k += 1
                    p = int(rng.integers(1, 6))
                    n = int(rng.integers(4 * p + 6, 4 * p + 18))
                    X = D.normal(rng, n, p, 1.0 if scale == "None" else 2.5, 0.0 if scale == "None" else 4.0)
                    beta = D.grid(rng.normal(size=p) * 2)
                    y = X @ beta + rng.normal(size=n) * 0.7 + 3
                    m = max(1, n // 6)
                    y[:m] += 14 * np.where(np.arange(m) % 2 == 0, 1, -1) * (1 + rng.random(m))
                    if rng.random() < 0.5:
                        X[m:2 * m] += 9
                    tag = ""
                    if k % 5 == 0 and p > 1 and scale in ("mad", "std") and centre != "kstepLTS":   # a variable of zero scale
                        tag = "-zero"
                        X[:, -1] = 2.0
                        if scale == "mad" and k % 2:
                            X[: n // 4, -1] = 3.5
                    if k % 6 == 1:   # bad leverage and bad response together in more than half of the cases
                        tag += "-half"
                        q = (2 * n) // 5
                        X[:q, 0] += 40 * rng.uniform(1, 2, size=q)
                        y[:q] = rng.normal(size=q)
                        y[q:2 * q] += 60 * rng.uniform(1, 2, size=q)
                    out.append({"id": f"rm-{r}-{k}-{fun}-{mode}-{centre}-{scale}{tag}", "X": D.grid(X).tolist(),
                                "y": D.grid(y).tolist(), "Xn": D.normal(rng, int(rng.integers(1, 6)), p, 3.0).tolist(),
                                "fun": fun, "mode": mode, "centre": centre, "scale": scale,
                                "probs": probs[int(rng.integers(4))], "tol": float([0.01, 0.001, 1e-4][k % 3]),
                                "steps": 6 if tier == "quick" else 12,
                                "kind": ["array", "frame", "fortran", "object"][k % 4], "ykind": ["vector", "col", "frame"][k % 3]})
    for r in range(6 if tier == "quick" else 40):   # the edges: exactly half of the cases without residual, exactly half rejected
        for edge in ("fit", "rejected"):
            k += 1
            n = int(rng.choice([10, 12, 16]))
            if edge == "fit":
                X = D.grid(rng.uniform(0.5, 4, size=(n, 1 + r % 2)) * np.where(np.arange(n) % 2 == 0, 1, -1)[:, None])
                X[: n // 2] = 0
                y = X @ np.ones(X.shape[1]) * 2 + rng.normal(size=n)
                y[: n // 2] = 0
            else:
                sign = np.where(np.arange(n) % 2 == 0, 1, -1)
                X = D.grid(rng.uniform(0.8, 1.3, size=(n, 1)) * np.where(np.arange(n) % 4 < 2, 1, -1)[:, None])
                y = 2 * X[:, 0] + rng.uniform(0.2, 0.4, size=n) * sign
                q = n // 4
                X[:q] *= 30
                y[:q] = 2 * X[:q, 0]
                y[q:n // 2] += 6000 * sign[q:n // 2]
                # two of the kept cases in the graded part of the weight function, so that stopping
                # at exactly half the cases rejected and iterating on give different coefficients
                y[-2:] = 2 * X[-2:, 0] + np.array([0.7, -0.9]) * [1.0, 0.8, 1.2][r % 3]
            out.append({"id": f"edge-{edge}-{r}", "X": D.grid(X).tolist(), "y": D.grid(y).tolist(), "Xn": D.normal(rng, 2, X.shape[1], 3.0).tolist(),
                        "fun": "Hampel" if edge == "rejected" else ["Hampel", "Huber", "Fair"][r % 3], "mode": ["specific", "ally"][r % 2], "centre": "median",
                        "scale": "mad" if r % 3 or edge == "fit" else "std", "probs": probs[r % 4], "tol": 1e-4, "steps": 6, "kind": "array", "ykind": "vector"})
    return D.retype(out, "kind", ["X", "Xn"], y="y")


def run_case(case):
    import pandas as pd
    from direpack.sprm.rm import rm

    X = np.array(case["X"])
    y = np.array(case["y"])
    n, p = X.shape
    o = {"fun": case["fun"], "p1": case["probs"][0], "p2": case["probs"][1], "p3": case["probs"][2],
         "centre": case["centre"], "scale": case["scale"], "mode": case["mode"], "tol": case["tol"]}

    def make(maxit, copy=True):
        return rm(case["fun"], *[float(q) for q in case["probs"]], case["centre"], case["scale"], case["mode"], False,
                  maxit, case["tol"], copy)

    def data():
        Xi = D.container(X, case["kind"])
        yi = {"vector": y.copy(), "col": y.reshape(-1, 1).copy(), "int": y.astype(int), "frame": pd.DataFrame(y.reshape(-1, 1))}[case["ykind"]]
        return Xi, yi

    ev = []
    est = None
    for k in range(2, case["steps"] + 2):
        est = make(k, copy=bool(k % 2) or case["kind"] == "readonly")
        Xi, yi = data()
        _, out = E.outcome(est.fit, Xi, yi)
        e = {"ev": "rmrun", "k": k, "X": case["X"], "y": case["y"], "o": o, "out": out}
        if out == "ok":
            e.update(b=E.vec(est.coef_scaled_), coef=E.vec(est.coef_), icpt=float(est.intercept_),
                     b0=float(est.intercept_scaled_), fit=E.vec(est.fitted_), res=E.vec(est.residuals_),
                     w=E.vec(est.caseweights_), wx=E.vec(est.x_caseweights_), wy=E.vec(est.y_caseweights_),
                     mx=E.vec(est.x_loc_), sx=E.vec(est.x_sca_), my=float(np.ravel(est.y_loc_)[0]),
                     sy=float(np.ravel(est.y_sca_)[0]))
        ev.append(e)
        if out != "ok":
            return ev
        if len(ev) > 2 and ev[-1]["b"] == ev[-2]["b"] == ev[-3]["b"]:
            break
    for Xn in (np.array(case["Xn"]), pd.DataFrame(case["Xn"]), np.array(case["Xn"])[0]):
        yp, out = E.outcome(est.predict, Xn)
        XX = np.asarray(Xn, dtype=float).reshape(-1, p)
        ev.append({"ev": "predict", "X": XX.tolist(), "out": out, "yp": E.vec(yp), "coef": E.vec(est.coef_),
                   "icpt": float(est.intercept_)})
    full = make(100)
    _, out = E.outcome(full.fit, *data())
    ev.append({"ev": "converged", "X": case["X"], "out": out, "b": E.vec(getattr(full, "coef_scaled_", None))})
    _, out = E.outcome(est.predict, np.ones((2, p + 1)))
    ev.append({"ev": "badwidth", "X": [[1.0]], "out": out})
    return ev
