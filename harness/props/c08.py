"""C08: sparse partial robust M regression."""
import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C08"
ASSUMPTIONS = ["iterations observed by limiting maxit (2, 3, ...)",
               "decisions within 1e-9 (sparsity threshold, broken stick) or 1e-6 (convergence) of a threshold are undetermined",
               "location/scale estimates needing an optimiser are taken from the real scaler (checked by C01 and C03)",
               "singular vectors are supplied by the driver and certified by the specification"]


def models(tier):
    v, k = ("{0, 3, 9}", 2) if tier == "quick" else ("{0, 2, 3, 9}", 3)
    return [{"module": "MC_Sprm", "cfg": "INIT Init\nNEXT Next\nINVARIANT WeightsInUnit Equivariant Exchangeable Sparse\n"
             "CONSTANTS YVals = %s MaxK = %d\n" % (v, k), "timeout": 1500}]


def cases(tier, seed, gen):
    rng = D.RNG(8000 + seed)
    out = []
    reps = 2 if tier == "quick" else 14
    combos = [("median", "mad"), ("mean", "std"), ("median", "std"), ("l1median", "mad"), ("kstepLTS", "mad"),
              ("mean", "None"), ("median", "None"), ("mean", "mad"), ("l1median", "std"), ("median", "scaleTau2"), ("kstepLTS", "scaleTau2")]
    probs = [["0.95", "0.975", "0.999"], ["0.8", "0.9", "0.99"], ["0.9", "0.95", "0.975"], ["0.6", "0.8", "0.95"]]
    k = 0
    for r in range(reps):
        for fun in ("Hampel", "Huber", "Fair"):
            for mode in ("specific", "ally"):
                for init in ("pcapp", "xonly"):
                    for j in range(2):
                        centre, scale = combos[(k + j * 5) % len(combos)]
                        k += 1
                        p = int(rng.integers(2, 7))
                        n = int(rng.integers(4 * p + 6, 4 * p + 16)) if rng.random() < 0.85 else int(rng.integers(p, p + 3)) + 2
                        X = D.normal(rng, n, p, 1.0 if scale == "None" else 2.5, 0.0 if scale == "None" else 3.0)
                        if p > 2 and rng.random() < 0.5:
                            X[:, 1] = X[:, 0] + 0.4 * rng.normal(size=n)
                        beta = rng.normal(size=p) * np.where(rng.random(p) < 0.5, 2.5, 0.2)
                        y = X @ beta + rng.normal(size=n) * 0.7 + 3
                        m = max(1, n // 6)
                        y[:m] += 12 * np.where(np.arange(m) % 2 == 0, 1, -1) * (1 + rng.random(m))
                        if rng.random() < 0.5:
                            X[m:2 * m] += 7
                        zero = None
                        if p > 3 and rng.random() < (0.35 if scale != "scaleTau2" else 0.7) and scale != "None":
                            zero = int(rng.integers(0, p))
                            X[:, zero] = 2.0
                            if scale in ("mad", "scaleTau2") and rng.random() < 0.6:    # zero scale, but not constant
                                X[rng.permutation(n)[:max(1, n // 4)], zero] += 1.5
                        small = zero is None and p > 2 and scale != "None" and k % 3 == 0
                        h = int(rng.integers(1, min(p - (zero is not None or small), 3) + 1))
                        # one variable in a small unit: its spread stays above the threshold for "no spread", or falls below
                        unit = np.ones(p)
                        if small:
                            unit[k % p] = 2.0 ** (-13 if k % 2 else -20)
                        cols = ["none", "list", "frame"][k % 3]
                        out.append({"id": f"sp-{k}-{fun}-{mode}-{init}-{centre}-{scale}" + ("-zero" if zero is not None else ""),
                                    "X": (D.grid(X) * unit).tolist(), "y": D.grid(y).tolist(),
                                    "Xn": D.normal(rng, int(rng.integers(4, 12)), p, 3.0).tolist(), "fun": fun, "mode": mode,
                                    "init": init, "centre": centre, "scale": scale, "probs": probs[int(rng.integers(4))],
                                    "eta": float(rng.choice([0.0, 0.3, 0.5, 0.7, 0.9])), "h": h,
                                    "tol": float([0.01, 0.001, 1e-4][k % 3]), "steps": 4 if tier == "quick" else 8, "columns": cols,
                                    "kind": "frame" if cols == "frame" else ["array", "frame", "fortran"][k % 3],
                                    "ykind": ["vector", "col", "frame"][k % 3]})
    r0 = D.RNG(5)
    X = D.normal(r0, 24, 3)
    y = D.grid(X @ np.array([2, -1, .5]) + .3 * r0.normal(size=24))
    y[:4] -= 15
    base = {"X": X.tolist(), "y": y.tolist(), "Xn": X[:7].tolist(), "fun": "Hampel", "mode": "ally", "init": "xonly",
            "centre": "mean", "scale": "std", "probs": probs[0], "eta": 0.3, "h": 2, "tol": 0.01, "steps": 3, "columns": "none",
            "kind": "array", "ykind": "vector"}
    out.append(dict(base, id="kf-sprm-signed-start", strict=True, steps=1))
    out.append(dict(base, id="kf-sprm-newdata", centre="median", scale="mad", newfindings=True))
    return D.retype(out, "kind", ["X", "Xn"], y="y")


def run_case(case):
    import pandas as pd
    from direpack.preprocessing.robcent import VersatileScaler
    from direpack.sprm.snipls import snipls
    from direpack.sprm.sprm import sprm

    X = np.array(case["X"])
    y = np.array(case["y"])
    n, p = X.shape
    h = case["h"]
    names = ["v%d" % j for j in range(p)]
    o = {"fun": case["fun"], "p1": case["probs"][0], "p2": case["probs"][1], "p3": case["probs"][2],
         "centre": case["centre"], "scale": case["scale"], "mode": case["mode"], "init": case["init"],
         "eta": case["eta"], "h": h, "tol": case["tol"]}
    asked = o
    med = np.median(X, axis=0)
    if case["scale"] == "scaleTau2" and (np.median(np.abs(X - med), axis=0) == 0).any():
        case = dict(case, scale="mad")     # only for the witnesses computed below
        o = dict(o, scale="mad")
    tscale = "mad" if case["scale"] == "None" else case["scale"]

    def make(maxit, copy=True):
        cols = {"none": False, "list": list(names), "frame": True}[case["columns"]]
        return sprm(h, case["eta"], case["fun"], *[float(q) for q in case["probs"]], case["centre"], asked["scale"], False,
                    maxit, case["tol"], case["mode"], case["init"], cols, copy)

    def data():
        yi = {"vector": y.copy(), "col": y.reshape(-1, 1).copy(), "int": y.astype(int), "frame": pd.DataFrame(y.reshape(-1, 1))}[case["ykind"]]
        return D.container(X, case["kind"]), yi

    def estimates(Z):
        sc = VersatileScaler(center=case["centre"], scale=tscale).fit(Z)
        return E.vec(sc.center_), E.vec(sc.scale_)

    ev = []
    est = None
    w = None
    ev0 = None
    for k in range(2, case["steps"] + 2):
        est = make(k, copy=bool(k % 2) or case["kind"] == "readonly")
        _, out = E.outcome(est.fit, *data())
        e = {"ev": "run", "k": k, "X": case["X"], "y": case["y"], "o": asked, "out": out, "strict": bool(case.get("strict"))}
        if out != "ok":
            return ev + [e]
        cr = list(np.ravel(est.colret_))
        ret = [names.index(c) + 1 if c in names else 0 for c in cr] if case["columns"] != "none" else \
            [0 if isinstance(c, str) else int(est.non_zero_scale_vars_[int(c)]) + 1 for c in cr]
        e.update(b=E.vec(est.coef_scaled_), coef=E.vec(est.coef_), icpt=float(np.ravel(est.intercept_)[0]),
                 b0=float(est.intercept_scaled_), fit=E.vec(est.fitted_), res=E.vec(est.residuals_),
                 w=E.vec(est.caseweights_), wx=E.vec(est.x_caseweights_), wy=E.vec(est.y_caseweights_),
                 mx=E.vec(est.x_loc_), sx=E.vec(est.x_sca_), my=float(np.ravel(est.y_loc_)[0]),
                 sy=float(np.ravel(est.y_sca_)[0]), W=E.arr(est.x_weights_), P=E.arr(est.x_loadings_),
                 R=E.arr(est.x_Rweights_), T=E.arr(est.x_scores_), C=E.vec(est.C_), xev=E.vec(est.x_ev_),
                 yev=E.vec(est.y_ev_), ret=ret)
        # witnesses
        mx, sx = np.array(e["mx"]), np.array(e["sx"])
        kp = sx >= 1e-5
        XS = ((X - mx) / np.where(sx == 0, 1, sx))[:, kp]
        if ev0 is None and case["init"] == "pcapp":
            U, S, _ = np.linalg.svd(XS, full_matrices=False)
            q = len(S)
            stick = np.array([sum(1 / j for j in range(i, q + 1)) / q for i in range(1, q + 1)])
            share = S ** 2 / np.sum(S ** 2)
            beat = share - stick > 0
            rc = max(int(np.argmin(beat)) if not beat.all() else q, 1)
            if q == 1:
                rc = 1
            ev0 = (S ** 2).tolist()
            e["U"] = U[:, :rc].tolist()
            sc = VersatileScaler(center=case["centre"], scale=case["scale"]).fit(U[:, :rc])
            e["mu"], e["su"] = E.vec(sc.center_), E.vec(sc.scale_)
        e["sv"] = ev0 if ev0 is not None else []
        # score-space estimates: scores of the weighted fit, per unit weight
        ys = (y - e["my"]) / (e["sy"] or 1.0)
        T = None
        if w is not None:
            r = np.sqrt(np.maximum(w, 1e-6))[:, None]
            sn = snipls(case["eta"], h, False, False, "mean", "None").fit(XS * r, ys.reshape(-1, 1) * r)
            T = sn.x_scores_ / r
        else:
            from direpack.sprm.sprm import sprm as S_
            T = _first_scores(est, XS, ys, case, o, e)
        e["mt"], e["st"] = estimates(T)
        w = np.array(e["w"])
        ev.append(e)
        if len(ev) > 2 and ev[-1]["b"] == ev[-2]["b"] == ev[-3]["b"]:
            break
    base = {k: e[k] for k in ("mx", "sx", "my", "sy", "R", "coef", "icpt", "o")}
    for q, Xn in enumerate((np.array(case["Xn"]), pd.DataFrame(case["Xn"]), np.array(case["Xn"])[0])):
        XX = np.asarray(Xn, dtype=float).reshape(-1, p).tolist()
        yp, out = E.outcome(est.predict, Xn)
        ev.append(dict(base, ev="predict", X=XX, out=out, yp=E.vec(yp)))
        Z, out = E.outcome(est.transform, Xn)
        ev.append(dict(base, ev="transform", X=XX, out=out, Z=E.arr(Z)))
        if q < 2:
            wn, out = E.outcome(est.weightnewx, Xn)
            mt, st = estimates(np.asarray(Z, dtype=float))
            ev.append(dict(base, ev="weightnew", X=XX, out=out, w=E.vec(wn), mt=mt, st=st, sv0=ev0 or [], X0=case["X"]))
            # the same model again: predictions and weights of new cases leave it unchanged
            Z2, out = E.outcome(est.transform, Xn)
            ev.append(dict(base, ev="transform", X=XX, out=out, Z=E.arr(Z2)))
    Z, out = E.outcome(est.transform, D.container(X, case["kind"]))
    ev.append(dict(base, ev="transform", X=case["X"], out=out, Z=E.arr(Z)))
    val, out = E.outcome(est.valscore, X, y, "normal")
    ev.append({"ev": "valscore", "X": [[1.0]], "y": case["y"], "yp": e["fit"], "out": out,
               "val": float(val) if out == "ok" else "none"})
    if case.get("newfindings"):
        _, out = E.outcome(est.valscore, X[:9], y[:9], "weighted")
        ev.append({"ev": "valscore-weighted", "X": [[1.0]], "out": out})
        wn, out = E.outcome(est.weightnewx, X[0])
        ev.append({"ev": "single-weight", "X": [[1.0]], "out": out, "w": E.vec(wn)})
    full = make(100)
    _, out = E.outcome(full.fit, *data())
    ev.append({"ev": "converged", "X": case["X"], "out": out, "b": E.vec(getattr(full, "coef_scaled_", None))})
    for f in (est.predict, est.transform, est.weightnewx):
        _, out = E.outcome(f, np.ones((4, p + 1)))
        ev.append({"ev": "badwidth", "X": [[1.0]], "out": out})
    return ev


def _first_scores(est, XS, ys, case, o, e):
    """Scores of the first weighted fit: T = (Xw - mean(Xw)) R / root weights.  The starting weights
    are not reported by the implementation; they are recomputed here only to obtain the location and
    scale witnesses of the scores (the specification recomputes the weights itself)."""
    from scipy.stats import chi2, norm
    from direpack.preprocessing.robcent import VersatileScaler
    from direpack.sprm.snipls import snipls

    p1, p2, p3 = (float(o[q]) for q in ("p1", "p2", "p3"))

    def wfun(v, c, b, r):
        a = np.abs(v)
        if o["fun"] == "Fair":
            return 1 / (1 + a / (2 * c)) ** 2
        with np.errstate(all="ignore"):
            if o["fun"] == "Huber":
                return np.where(v <= c, 1, c / a)
            return np.where(v <= c, 1, np.where(v <= b, c / a, np.where(v <= r, c * (r - a) / ((r - b) * a), 0)))

    y = np.array(case["y"])
    Z = (np.array(e["U"]) - np.array(e["mu"])) / np.where(np.array(e["su"]) == 0, 1, e["su"]) if o["init"] == "pcapp" else XS
    d = np.sqrt((Z ** 2).sum(1))
    d = d / np.median(d)
    rc = Z.shape[1]
    cy = [norm.ppf(q) for q in (p1, p2, p3)]
    cx = [chi2.ppf(q, rc) for q in (p1, p2, p3)] if o["mode"] == "specific" else cy
    if (o["centre"], o["scale"]) == ("median", "mad"):
        v = np.abs(ys)
    else:
        v = (y - np.median(y)) / (1.4826 * np.median(np.abs(y - np.median(y))))
        if case.get("strict"):
            v = np.abs(v)
    best = None
    for vv in (v, np.abs(v)):
        w = np.maximum(wfun(d, *cx) * wfun(vv, *cy), 1e-6)
        r = np.sqrt(w)[:, None]
        sn = snipls(o["eta"], o["h"], False, False, "mean", "None").fit(XS * r, ys.reshape(-1, 1) * r)
        err = np.max(np.abs(np.ravel(sn.coef_) - np.array(e["b"])))
        if best is None or err < best[0]:
            best = (err, sn.x_scores_ / r)
    return best[1]
