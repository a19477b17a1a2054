"""C16: sufficient dimension reduction by optimisation; the problem given to the solver."""
import copy
import sys

import numpy as np

from harness import data as D
from harness import enc as E
from harness import fakeipopt as F
from harness.props.c15 import ybox

if "cyipopt" not in sys.modules:
    F.install()

TRACE = "T_C16"
CASE_LIMIT = 120
ASSUMPTIONS = ["the interior point solver itself is replaced by a scripted one", "covariance of the predictors is well conditioned",
               "derivatives are forward differences: compared to 1e-3"]
CFG = 'CONSTANTS DataSets = {"A", "B"} MaxOps = %d\n'
GEN = {t: [{"module": "Gen_C16", "cfg": "INIT Init\nNEXT GenNext\n" + CFG % n}, {"module": "Gen_C16s", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = %d\n" % l}]
       for t, n, l in (("quick", 3, 3), ("thorough", 4, 4))}
OPTS = [{"max_iter": 50, "tol": 1e-5}, {"maxiter": 7, "disp": 3}, {"max_iter": 10, "mu_strategy": "monotone"}, {}]


def models(tier):
    n = 4 if tier == "quick" else 5
    return [{"module": "MC_Opt", "cfg": "INIT Init\nNEXT Next\nINVARIANT OwnData Fresh Stages\nPROPERTY ParamsKept\n" + CFG % n, "timeout": 1500}]


def data(rng, n, p, disc):
    X = D.grid(rng.normal(size=(n, p)) @ (np.eye(p) + 0.3 * rng.normal(size=(p, p))) * rng.choice([0.5, 1, 4], size=p) + rng.integers(-3, 4, size=p), 32)
    y = D.grid(X @ rng.normal(size=p) + 0.5 * X[:, 0] ** 2 + 0.3 * rng.normal(size=n), 32)
    if disc:
        y = (y > np.median(y)).astype(float) + (y > np.quantile(y, 0.8))
    return X.tolist(), y.tolist()


def answer(rng):
    """a solver answer of full rank however it is laid out"""
    while True:
        v = D.grid(rng.normal(size=6), 16)
        if all(np.linalg.svd(m)[1][-1] > 0.1 for m in (v[:4].reshape(2, 2), v.reshape(3, 2), v.reshape(2, 3))):
            return v.tolist()


def cases(tier, seed, gen):
    rng = D.RNG(16000 + seed)
    hists = [g for g in gen if isinstance(g, list)]
    scripts = [g["script"] for g in gen if isinstance(g, dict)]
    out = []
    reps = 1 if tier == "quick" else 1
    if tier != "quick":
        hists = [hists[i] for i in rng.choice(len(hists), min(len(hists), 700), replace=False)]
    for r in range(reps):
        for k, h in enumerate(hists):
            p = int(rng.integers(2, 4))
            n1, n2 = int(rng.integers(9, 13)), int(rng.integers(9, 13))
            disc = bool(rng.random() < 0.2)
            center = "mean" if rng.random() < 0.65 else "median"
            out.append({"id": f"h{r}-{k}", "hist": h, "A": data(rng, n1, p, disc), "B": data(rng, n2, p, disc), "center": center,
                        "cd": bool(rng.random() < 0.75), "disc": disc, "dmetric": "cityblock" if rng.random() < 0.25 else "euclidean",
                        "dkw": bool(rng.random() < 0.5), "trim": float(rng.choice([0.0, 0.0, 0.1])), "bias": bool(rng.random() < 0.25),
                        "opts": int(rng.integers(0, 4)), "copy": bool(rng.random() < 0.6), "xk": ["array", "frame", "fortran"][k % 3],
                        "yk": ["vector", "col", "frame", "series"][k % 4], "script": scripts[int(rng.integers(len(scripts)))] if k % 3 else [["obj", 1], ["grad", 1], ["con", 1], ["jac", 1]],
                        "points": [D.grid(rng.normal(size=6), 16).tolist()], "returns": [answer(rng) for _ in range(3)],
                        "start": D.grid(rng.normal(size=6), 16).tolist(), "near": [0.0, 0.0, 2.0 ** -9][int(rng.integers(3))]})
    for k in range(18 if tier == "quick" else 90):  # every distance metric where it matters: in two dimensions
        h = [["set", "h", "2"]] + ([["set", "meth", "mdd-sdr"]] if k % 2 else []) + ([["set", "scale", "no"]] if k % 3 == 0 else []) + [["fit", "A"]]
        out.append({"id": f"metric-{k}", "hist": h, "A": data(rng, 10, 3, False), "B": [[], []], "center": ["mean", "mean", "median"][k // 2 % 3], "cd": True, "disc": False,
                    "dmetric": ["cityblock", "chebyshev", "sqeuclidean"][k // 6 % 3], "dkw": bool(k % 4 < 2), "trim": [0.0, 0.1][k % 5 == 4], "bias": bool(k % 7 == 5), "opts": 0, "copy": True,
                    "xk": "array", "yk": "vector", "script": [["obj", 1], ["grad", 1], ["obj", 0], ["con", 1]], "points": [D.grid(rng.normal(size=6), 16).tolist()],
                    "returns": [answer(rng) for _ in range(3)], "start": D.grid(rng.normal(size=6), 16).tolist(), "near": 0.0})
    for k in range(8):  # one variable has one direction
        h = ([["set", "meth", "mdd-sdr"]] if k % 2 else []) + ([["set", "scale", "no"]] if k // 2 % 2 else []) + [["fit", "A"]]
        out.append({"id": f"one-{k}", "hist": h, "A": data(rng, 10, 1, False), "B": [[], []], "center": "mean", "cd": k < 6, "disc": False, "dmetric": "euclidean", "dkw": False,
                    "trim": 0.0, "bias": False, "opts": k % 4, "copy": bool(k % 3), "xk": "array", "yk": "vector", "script": [["obj", 1], ["grad", 1], ["obj", 0], ["con", 1], ["jac", 1]],
                    "points": [[1.5]], "returns": [[-0.75], [2.0], [0.5]], "start": [0.5], "near": 0.0})
    for k in range(90 if tier == "quick" else 200):
        n = int(rng.integers(1, 4))
        out.append({"id": f"direct-{k}", "n": n, "x0": D.grid(rng.normal(size=n), 16).tolist(), "scalar": bool(n == 1 and k % 2),
                    "jac": ["none", "true", "call"][k % 3], "bounds": bool(rng.random() < 0.4), "cons": ["none", "dict", "tuple", "list"][int(rng.integers(4))],
                    "opts": int(rng.integers(0, 4)), "tol": float(rng.choice([0.0, 1e-4])), "script": scripts[int(rng.integers(len(scripts)))],
                    "points": [D.grid(rng.normal(size=n), 16).tolist()], "returns": [D.grid(rng.normal(size=n), 16).tolist()],
                    "status": int(rng.choice([0, 1, -1])), "iters": int(rng.integers(0, 6)), "a": float(rng.integers(1, 5)), "kw": bool(rng.random() < 0.4), "near": [0.0, 2.0 ** -10, 2.0 ** -8, 2.0 ** -6][int(rng.integers(4))]})
        if k % 2:  # every question at both points, in some order, the start twice
            out[-1]["script"] = [[q, int(z)] for q in rng.permutation(["obj", "grad", "con", "jac"]).tolist() for z in rng.permutation([0, 1, 0])]
    return out


def quad(b, *args):
    b = np.asarray(b, dtype=float)
    return float(np.sum(np.arange(1, b.size + 1) * b ** 2))


def g1(b, c):
    return c - np.sum(np.square(b))


def g2(b):
    return np.array([b[0] + b[-1], b[0] * b[-1]])


def candidates(X, Xs, y, N2, h, disc, cd, sd):
    """leading bases of SAVE (3 slices), SIR and DR (6 slices); certified by the specification"""
    n, p = X.shape
    S = np.atleast_2d(np.cov(X, rowvar=0)) if sd else np.eye(p)
    w, V = np.linalg.eigh(S)
    R = V @ np.diag(w ** -0.5) @ V.T
    Z = ((X - X.mean(0)) if cd else X) @ R

    def labels(H):
        if disc:
            return y
        m = n // H
        cut = np.sort(y)[[i * m for i in range(1, H)]]
        return np.searchsorted(cut, y, side="right").astype(float)

    out = {}
    for nm, H in (("save", 3), ("sir", 6), ("dr", 6)):
        lab = labels(H)
        st = []
        for c in np.unique(lab):
            Zc = Z[lab == c]
            st.append((len(Zc) / n, Zc.mean(0), np.atleast_2d(np.cov(Zc, rowvar=0)) if len(Zc) > 1 else np.eye(p)))
        I = np.eye(p)
        if nm == "sir":
            K = sum(w_ * np.outer(m_, m_) for w_, m_, _ in st)
        elif nm == "save":
            K = sum(w_ * (V_ - I) @ (V_ - I) for w_, _, V_ in st)
        else:
            A = [V_ + np.outer(m_, m_) for _, m_, V_ in st]
            M2 = sum(w_ * np.outer(m_, m_) for w_, m_, _ in st)
            K = 2 * sum(s[0] * a @ a for s, a in zip(st, A)) + 2 * M2 @ M2 + 2 * np.trace(M2) * M2 - 2 * I
        ev, U = np.linalg.eigh(K)
        out[nm] = (R @ U[:, ::-1][:, :h]).tolist()
    return out


def run_case(case):
    import direpack.sudire.sudire  # noqa

    S = sys.modules["direpack.sudire.sudire"]
    W = sys.modules["direpack.ipopt_temp.ipopt_wrapper"]
    if case["id"].startswith("direct"):
        return direct(case, W)
    par = {"meth": "dcov-sdr", "h": 1, "scale": True, "start": "none", "cons": "none"}
    uargs = []

    def user(b, *args):
        uargs.append(args)
        return quad(b)

    consg = ({"type": "ineq", "fun": g1, "args": (2.0,)}, {"type": "eq", "fun": g2})
    p = len(case["A"][0][0])

    def kw():
        return dict(sudiremeth=user if par["meth"] == "user" else par["meth"], n_components=par["h"], scale_data=par["scale"],
                    optimizer_start=np.array(case["start"][: p * par["h"]]) if par["start"] == "given" else None,
                    optimizer_constraints=consg if par["cons"] == "given" else None)

    m = S.sudire(center=case["center"], center_data=case["cd"], trimming=case["trim"], optimizer_options=dict(OPTS[case["opts"]]),
                 response_type="discrete" if case["disc"] else "continuous", copy=case["copy"], verbose=False,
                 dmetric="euclidean" if case["dkw"] else case["dmetric"], **kw())
    ev = []
    for op in case["hist"]:
        if op[0] == "set":
            v = op[2]
            par[op[1]] = int(v) if op[1] == "h" else (v == "yes") if op[1] == "scale" else v
            m.set_params(**kw())
            continue
        X, y = np.array(case[op[1]][0]), np.array(case[op[1]][1])
        Xi, yi = D.container(X, "readonly" if case["xk"] == "fortran" and case["copy"] and len(X) % 2 else case["xk"]), ybox(y, case["yk"])
        X0, y0 = copy.deepcopy(Xi), copy.deepcopy(yi)
        before = {k: copy.deepcopy(v) for k, v in m.get_params().items()}
        F.script(case["script"], case["points"], case["returns"], near=case["near"])
        uargs.clear()
        fk = {}
        if case["bias"]:
            fk["biascorr"] = True
        if case["dkw"]:
            fk["dmetric"] = case["dmetric"]
        _, out = E.outcome(m.fit, Xi, yi, **fk)
        S1 = np.atleast_2d(np.cov(X, rowvar=0))
        w_, V_ = np.linalg.eigh(S1)
        mads = np.median(abs(X - np.median(X, 0)), 0) / 0.6744897501960817
        mads[mads == 0] = 1
        N2 = V_ @ np.diag(w_ ** -0.5) @ V_.T if case["center"] == "mean" else np.diag(1 / mads)
        one = lambda v: float(np.ravel(v)[0]) if v is not None and np.size(v) == 1 else "shape"  # noqa
        e = {"ev": "fit", "out": out, "X": X.tolist(), "y": y.tolist(), "meth": par["meth"], "h": par["h"], "center": case["center"],
             "center_data": case["cd"], "scale_data": par["scale"], "trim": case["trim"], "bias": case["bias"], "dmetric": case["dmetric"],
             "discrete": case["disc"], "start": case["start"][: p * par["h"]], "hasstart": par["start"] == "given", "cons": par["cons"],
             "opts": case["opts"], "N2": N2.tolist(), "cand": candidates(X, None, y, N2, par["h"], case["disc"], case["cd"], par["scale"]),
             "solves": copy.deepcopy(F.LOG)}
        ev.append(e)
        after = m.get_params()
        same = set(before) == set(after)
        for k in before:
            a, b = before[k], after[k]
            same = same and (np.array_equal(a, b) if isinstance(a, np.ndarray) else (callable(a) or a == b))
        ev.append({"ev": "params", "same": bool(same)})
        ev.append({"ev": "unchanged", "same": bool(np.array_equal(np.asarray(Xi), np.asarray(X0)) and np.array_equal(np.asarray(yi), np.asarray(y0)))})
        if out != "ok":
            continue
        P = E.arr(m.x_loadings_)
        e.update(P=P, T=E.arr(m.x_scores_), proj=E.arr(m.proj_mat_))
        if uargs:
            a = uargs[0]
            e["uargs"] = {"n": len(a), "X": E.arr(a[0]), "y": E.vec(a[1]), "h": int(a[2]), "trim": float(a[5]), "center": str(a[6]),
                          "dmetric": str(a[7]), "bias": bool(a[8]), "isd": bool(a[4]), "N2": E.arr(a[3])} if len(a) == 9 else {"n": len(a)}
        Xn = X[:2] * 0.5 + 1
        Z, out = E.outcome(m.transform, Xn)
        ev.append({"ev": "transform", "out": out, "Xn": E.arr(Xn), "P": P, "Z": E.arr(Z)})
        yp, out = E.outcome(m.predict, Xn)
        ev.append({"ev": "predict", "out": out, "Xn": E.arr(Xn), "P": P, "X": X.tolist(), "y": y.tolist(), "yp": E.vec(yp)})
    return ev


def direct(case, W):
    F.script(case["script"], case["points"], case["returns"], case["status"], case["iters"], case["near"])
    a = case["a"]

    def f(b, c, d=0.0):
        return c * quad(b) + d

    def df(b, c, d=0.0):
        b = np.atleast_1d(np.asarray(b, dtype=float))
        return 2 * c * np.arange(1, b.size + 1) * b

    def both(b, c, d=0.0):
        return f(b, c, d), df(b, c, d)

    fun, jac = {"none": (f, None), "true": (both, True), "call": (f, df)}[case["jac"]]
    con = [{"type": "ineq", "fun": g1, "args": (2.0,)}, {"type": "eq", "fun": g2}]
    cons = {"none": (), "dict": con[1], "tuple": tuple(con), "list": [con[1], con[0]]}[case["cons"]]
    script = case["script"]
    if case["cons"] == "none":
        script = [q for q in script if q[0] in ("obj", "grad")]
        F.SCRIPT["questions"] = script
    x0 = np.array(case["x0"])
    x0 = x0[0] if case["scalar"] else x0
    opts = dict(OPTS[case["opts"]])
    kw = {"d": 0.5} if case["kw"] else None
    if kw and case["jac"] == "none":
        kw = None  # finite differences take no keyword arguments
    before = copy.deepcopy(opts)
    bounds = [(-1.0 - k, 2.0 + k) for k in range(case["n"])] if case["bounds"] else None
    r, out = E.outcome(W.minimize_ipopt, fun, x0, args=(a,), kwargs=kw, jac=jac, bounds=bounds, constraints=cons,
                       tol=case["tol"] or None, options=opts)
    e = {"ev": "direct", "out": out, "x0": case["x0"], "a": a, "d": 0.5 if kw else 0.0, "jac": case["jac"], "cons": case["cons"], "opts": case["opts"],
         "tol": case["tol"], "bounds": case["bounds"], "status": case["status"], "iters": case["iters"], "solves": copy.deepcopy(F.LOG),
         "scalar": case["scalar"]}
    if out == "ok":
        e["res"] = {"x": E.vec(r.x), "ndim": int(np.ndim(r.x)), "success": bool(r.success), "status": int(r.status), "fun": float(r.fun),
                    "nfev": int(r.nfev), "njev": int(r.njev), "nit": int(r.nit)}
    return [e, {"ev": "params", "same": opts == before}]
