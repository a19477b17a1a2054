"""C14: projection pursuit dimension reduction."""
import copy
import sys

import numpy as np

from harness import data as D
from harness import enc as E
from harness import fakeipopt as F

if "cyipopt" not in sys.modules:
    F.install()

TRACE = "T_C14"
CASE_LIMIT = 120
ASSUMPTIONS = ["directions are the optimiser's: optimality is claimed for covariance (0.5 %), the grid of two variables (exact), "
               "and for sign-invariant indices on the grid (not worse than a single variable, close to the optimum for variance and squared covariance)",
               "robust inner regression compared with the real robust M estimator (checked by C07)"]


def models(tier):
    n = 4 if tier == "quick" else 5
    return [{"module": "MC_Ppdire", "cfg": "INIT Init\nNEXT Next\nINVARIANT Orthogonal Decomposition Rotations Triangular "
             "ExplainedBounded JointFit\nCONSTANT N = %d\nCONSTANT Rowz <- RowzDef\nCONSTANT Dirs <- DirsDef\n" % n, "timeout": 1500}]


def ix(mode, center="mean", est="arithmetic", alpha4=4, option=1, trim=0.0, bias=False):
    return {"kind": "dicomo", "est": est, "o": {"mode": mode, "center": center, "trim": trim, "bias": bias, "order": 2,
                                                 "option": option, "alpha4": alpha4, "std": True, "fisher": True}}


def cases(tier, seed, gen):
    rng = D.RNG(14000 + seed)
    out = []

    def add(id, two, mode, **k):
        c = {"id": id, "two": two, "mode": mode, "pic": "mean", "est": "arithmetic", "alpha4": 4, "option": 1, "trim": 0.0, "bias": False,
             "center": "mean", "center_data": True, "scale_data": True, "grid": False, "ndir": 40, "square": False, "regopt": "OLS",
             "copy": True, "ypos": True, "hkw": False, "mix": False, "tau": 0.5, "xk": "array", "yk": "vector", "opt": "none",
             "optimizer": "SLSQP", "n": int(rng.integers(8, 20)), "p": int(rng.integers(3, 6)), "h": 2, "ret": True, "capi": None,
             "maxit": 20, "ucons": "none", "ipopts": 0, "script": [], "points": [], "returns": [], "rob": {}}
        c.update(k)
        n, p = c["n"], c["p"]
        c["h"] = min(c["h"], n - 1, p)
        X = D.grid(rng.normal(size=(n, p)) @ rng.normal(size=(p, p)) + rng.integers(-5, 6, size=p), 16)
        y = D.grid(X @ rng.normal(size=p) * 2 + rng.normal(size=n) * 2 + 3, 16)
        if c.get("outl"):
            X[0] += 20
            y[1] -= 30
        if c.get("const"):
            X[:, -1] = 2.0
        c["X"], c["y"] = X.tolist(), y.tolist()
        c["Xn"] = D.normal(rng, int(rng.integers(1, 5)), p, 3.0).tolist()
        out.append(c)

    xk = ["array", "frame", "fortran"]
    yk = ["vector", "col", "frame", "series"]
    k = 0
    for r in range(4 if tier == "quick" else 30):
        for cen in ("mean", "median"):
            for cd, sd in ((True, True), (True, False), (False, False)):
                k += 1
                m1 = ["var", "std", "kurt", "skew", "mom"][k % 4]
                add(f"one-{k}-{m1}-{cen}-{cd}-{sd}", False, m1, center=cen, center_data=cd, scale_data=sd, xk=xk[k % 3], copy=bool(k % 2),
                    hkw=k % 5 == 0, mix=k % 3 == 0, h=1 + k % 3, bias=k % 4 == 1)
                m2 = ["cov", "corr", "continuum", "cos", "cok", "cov"][k % 6]
                add(f"two-{k}-{m2}-{cen}-{cd}-{sd}", True, m2, center=cen, center_data=cd, scale_data=sd, xk=xk[(k + 1) % 3], yk=yk[k % 4],
                    copy=bool(k % 2), ypos=bool(k % 3), regopt=["OLS", "robust", "quantile", "OLS"][(k + r) % 4], alpha4=[2, 4, 6][(k + k // 6) % 3],
                    option=1 + k % 2, h=1 + (k + r) % 3, opt="cov" if m2 == "cov" and cd and cen == "mean" else "none", tau=[0.5, 0.3][k % 2],
                    ret=bool(k % 4), square=k % 7 == 3,
                    grid=m2 == "continuum" and (k + k // 6) % 3 == 2)  # a superquadratic index (alpha > 1) can make SLSQP diverge from its start
        for rob in ({}, {"fun": "Huber"}, {"fun": "Hampel", "probp1": 0.4, "probp2": 0.7, "probp3": 0.9}, {"fun": "Fair", "probp1": 0.7},
                    {"probp2": 0.96}, {"probp3": 0.98}, {"probp1": 0.5}):
            k += 1
            add(f"rob-{k}-{'-'.join(str(v) for v in rob.values())}", True, "cov", regopt="robust", rob=rob, center=["median", "mean"][(k + r) % 2],
                n=int(rng.integers(18, 26)), outl=True, h=2, yk=yk[k % 4], xk=xk[k % 3])
        for cen in ("mean", "median"):
            k += 1
            add(f"trim-{k}-{cen}", True, "cov", center=cen, trim=0.1, n=17, square=True, grid=True, opt="gridaxis")
            add(f"flat-{k}-{cen}", True, "cov", center=cen, n=7, p=10, opt="cov" if cen == "mean" else "none", h=2)
        # grid
        for nd in (30, 41):
            k += 1
            add(f"g2-{k}-{nd}-var", False, "var", p=2, grid=True, ndir=nd, opt="grid2", h=2)
            add(f"g2-{k}-{nd}-medvar", False, "var", pic="median", center="median", p=2, grid=True, ndir=nd, opt="grid2", h=1, outl=True)
            add(f"g2-{k}-{nd}-cov", True, "cov", p=2, grid=True, ndir=nd, opt="grid2", h=1)
            add(f"g2-{k}-{nd}-cov2", True, "cov", p=2, grid=True, ndir=nd, opt="grid2", square=True, h=2, yk=yk[k % 4])
            add(f"g3-{k}-{nd}-var", False, "var", grid=True, ndir=nd, opt="gridvar", h=2, xk=xk[k % 3])
            add(f"g3-{k}-{nd}-medvar", False, "var", pic="median", center="median", grid=True, ndir=nd, opt="gridaxis", h=1, outl=True)
            add(f"g3-{k}-{nd}-cov2", True, "cov", grid=True, ndir=nd, opt="gridcov", square=True, h=2)
            add(f"g3-{k}-{nd}-corr2", True, "corr", grid=True, ndir=nd, opt="gridaxis", square=True, h=1, center="median")
            add(f"g3-{k}-{nd}-dist", True, "cov", est="distance", grid=True, ndir=20, opt="gridaxis", h=1, n=9, maxit=4)
        for md in ("var", "cov", "corr", "kurt"):   # one variable has one direction, whatever the optimiser
            k += 1
            add(f"p1-{k}-{md}", md in ("cov", "corr"), md, p=1, h=1, grid=bool((k + r) % 3), ndir=20, square=k % 5 == 1, center=["mean", "median"][k % 2], xk=xk[k % 3], yk=yk[k % 4],
                scale_data=bool(k % 4))
        k += 1
        add(f"capi-{k}", True, "capi", capi={"max_degree": 2 + k % 3}, h=1)
        add(f"capig-{k}", True, "capi", capi={"max_degree": 2 + (k + 1) % 3}, h=1, grid=True, ndir=30, square=True, opt="gridaxis")
        for nm in ("cov", "var", "corr", "kurt"):
            k += 1
            pp = int(rng.integers(2, 5))
            add(f"ipopt-{k}-{nm}", nm in ("cov", "corr"), nm, optimizer="IPOPT", p=pp, n=int(rng.integers(8, 13)), h=1 + k % 2, center=["mean", "median"][k % 2], ipopts=int(rng.integers(4)),
                ucons=["none", "dict", "list", "none", "tuple"][int(rng.integers(5))], script=[[q, int(z)] for q in rng.permutation(["obj", "grad", "con", "jac"]).tolist() for z in rng.permutation([0, 1, 0])[:2]],
                points=[D.grid(rng.normal(size=pp), 16).tolist()], returns=[(D.grid(rng.normal(size=pp), 16) + (np.arange(pp) == q)).tolist() for q in range(2)], xk=xk[k % 3], yk=yk[k % 4])
        for nm in ("corr", "std"):
            k += 1
            pp = int(rng.integers(2, 5))
            add(f"evolve-{k}-{nm}", nm == "corr", nm, optimizer="differential_evolution", p=pp, n=int(rng.integers(8, 13)), h=1 + k % 2, center=["mean", "median"][k % 2],
                ucons=["none", "dict", "list", "none", "tuple"][int(rng.integers(5))], script=[[q, int(z)] for q in rng.permutation(["obj", "con"]).tolist() for z in rng.permutation([0, 1, 0])[:2]],
                points=[D.grid(rng.normal(size=pp), 16).tolist()], returns=[(D.grid(rng.normal(size=pp), 16) + (np.arange(pp) == q)).tolist() for q in range(2)], xk=xk[k % 3], yk=yk[k % 4])
        add(f"ucons-{k}", True, "cov", ucons=["dict", "list", "tuple"][k % 3], h=1, p=3)
        add(f"const-{k}", True, "cov", const=True, h=2, p=4, opt="cov")
    r0 = D.RNG(99)
    for nm, n, p in (("kf-whiten", 20, 3), ("kf-compression", 8, 12)):
        X = D.normal(r0, n, p, 2.0, 1.0, 16)
        out.append({"id": nm, "X": X.tolist(), "y": D.grid(X[:, 0] - X[:, 1], 16).tolist()})
    return out


def run_case(case):
    import pandas as pd
    from direpack.dicomo.dicomo import dicomo
    from direpack.ppdire.capi import capi
    from direpack.ppdire.ppdire import ppdire
    from direpack.sprm.rm import rm

    X = np.array(case["X"])
    y = np.array(case["y"])
    n, p = X.shape
    if case["id"] == "kf-whiten":
        m = ppdire(dicomo, {"mode": "kurt"}, n_components=2, whiten_data=True, verbose=False)
        _, out = E.outcome(m.fit, X)
        return [{"ev": "whiten", "out": out}]
    if case["id"] == "kf-compression":
        m = ppdire(dicomo, {"mode": "var"}, n_components=2, compression=True, verbose=False)
        _, out = E.outcome(m.fit, X)
        Z, out = E.outcome(lambda: m.transform(X))
        return [{"ev": "compressed", "out": out, "Z": E.arr(Z), "T": E.arr(getattr(m, "x_scores_", None))}]
    c = case
    h = c["h"]
    if c["capi"]:
        pidx, pia = capi, {"max_degree": c["capi"]["max_degree"], "projection_index": dicomo}
        ixx = {"kind": "capi", "c": {"max_degree": c["capi"]["max_degree"], "scaling": True, "options": [1, 2, 3],
                                     "weights": [1.0, 1.0, 1.0, -1.0, -1.0, -1.0], "est": "arithmetic", "o": ix("cov")["o"]}}
    else:
        pidx, pia = dicomo, {"mode": c["mode"], "center": c["pic"], "est": c["est"]}
        if c["pic"] == "mean" and c["est"] == "arithmetic":
            pia = {"mode": c["mode"]}
        ixx = ix(c["mode"], c["pic"], c["est"], c["alpha4"], c["option"], c["trim"], c["bias"])
    opts = {"ndir": c["ndir"], "maxiter": c["maxit"]} if c["grid"] else {"maxiter": 2000}
    ucons = None
    if c["ucons"] != "none":
        ipo = c["optimizer"] == "IPOPT"
        con = {"type": "eq", "fun": (lambda b: np.array([b[0] + b[-1], b[0] * b[-1]])) if ipo else (lambda b: b[0] + b[-1])}
        if c["optimizer"] == "differential_evolution":
            from scipy.optimize import NonlinearConstraint
            con = NonlinearConstraint(lambda b: np.array([b[0] + b[-1], b[0] * b[-1]]), 0, 0)
        ucons = {"dict": con, "list": [con], "tuple": (con,)}[c["ucons"]]
    if c["optimizer"] == "IPOPT":
        opts = dict([{"max_iter": 50, "tol": 1e-5}, {"maxiter": 7, "disp": 3}, {"max_iter": 10, "mu_strategy": "monotone"}, {}][c["ipopts"]])
        F.script(c["script"], c["points"], c["returns"])
    if c["optimizer"] == "differential_evolution":
        opts = {}
        F.install_evolution()
        F.script(c["script"], c["points"], c["returns"])
    m = ppdire(pidx, pia, optimizer_constraints=ucons, n_components=1 if c["hkw"] else h, trimming=c["trim"], alpha=c["alpha4"] / 4,
               optimizer="grid" if c["grid"] else c["optimizer"], optimizer_options=opts, regopt=c["regopt"], center=c["center"],
               center_data=c["center_data"], scale_data=c["scale_data"], square_pi=c["square"], copy=c["copy"], verbose=False,
               return_scaling_object=c["ret"])
    Xi = D.container(X, "readonly" if c["xk"] == "fortran" and c["copy"] and len(X) % 2 else c["xk"])
    yi = {"vector": lambda: y.copy(), "col": lambda: y.reshape(-1, 1).copy(), "frame": lambda: pd.DataFrame(y.reshape(-1, 1)),
          "series": lambda: pd.Series(y.copy())}[c["yk"]]()
    X0, y0 = copy.deepcopy(Xi), copy.deepcopy(yi)
    kw = {}
    if c["hkw"]:
        kw["h"] = h
    if c["bias"]:
        kw["biascorr"] = True
    if c["mix"]:
        kw["mixing"] = True
    if c["mode"] in ("cos", "cok"):
        kw["option"] = c["option"]
    if c["regopt"] == "quantile" and c["two"]:
        kw["quantile"] = c["tau"]
    rob = c["rob"] if c["regopt"] == "robust" and c["two"] else {}
    kw.update(rob)
    before = {k: v if k == "optimizer_constraints" else copy.deepcopy(v) for k, v in m.get_params().items()}
    if not c["two"]:
        _, out = E.outcome(m.fit, Xi, **kw)
    elif c["ypos"]:
        _, out = E.outcome(m.fit, Xi, yi, **kw)
    else:
        _, out = E.outcome(m.fit, Xi, y=yi, **kw)
    scale = "None" if not c["scale_data"] else ("std" if c["center"] == "mean" else "mad")
    e = {"ev": "fit", "X": case["X"], "y": case["y"], "two": c["two"], "h": h, "out": out, "ix": ixx, "opt": c["opt"], "ndir": c["ndir"],
         "so": {"center": c["center"], "scale": scale, "trimming": float(c["trim"])}, "deg": {"kurt": 0, "skew": 0, "corr": 0, "cos": 0, "cok": 0}.get(c["mode"], 2),
         "o": {"center": c["center"], "center_data": c["center_data"], "square": c["square"], "grid": c["grid"], "regopt": c["regopt"],
               "trimming": float(c["trim"])}, "tau": c["tau"], "mix": c["mix"], "sob": False, "mixing": "none", "ipopt": c["optimizer"] in ("IPOPT", "differential_evolution"), "evolve": c["optimizer"] == "differential_evolution", "ucons": c["ucons"], "opts": c["ipopts"],
         "solves": copy.deepcopy(F.LOG) if c["optimizer"] in ("IPOPT", "differential_evolution") else []}
    ev = [e]
    ev.append({"ev": "unchanged", "same": bool(np.array_equal(np.asarray(Xi), np.asarray(X0)) and np.array_equal(np.asarray(yi), np.asarray(y0)))})
    ev.append({"ev": "params", "same": before == m.get_params()})
    if out != "ok":
        return ev
    g = lambda a: getattr(m, a, None)  # noqa
    e.update(W=E.arr(g("x_weights_")), P=E.arr(g("x_loadings_")), R=E.arr(g("x_rotations_")), T=E.arr(g("x_scores_")), loc=E.vec(g("x_loc_")),
             sca=E.vec(g("x_sca_")), xev=E.vec(g("x_ev_")), maxobj=E.vec(g("Maxobjf_")))
    if c["mix"]:
        e["mixing"] = E.arr(g("mixing_"))
    if c["ret"] and c["center_data"]:
        e["sob"] = True
        so = g("scaling_object_")
        e["soc"], e["sos"] = E.vec(getattr(so, "center_", None)), E.vec(getattr(so, "scale_", None))
    one = lambda v: float(np.ravel(v)[0]) if v is not None and np.size(v) == 1 else "shape"  # noqa
    if c["two"]:
        e.update(B=E.arr(g("coef_")), Bs=E.arr(g("coef_scaled_")), C=E.vec(g("C_")), fit=E.vec(g("fitted_")), res=E.vec(g("residuals_")),
                 icpt=one(g("intercept_")), icpts=one(g("intercept_scaled_")), crit=E.vec(g("crit_values_")), my=one(g("y_loc_")),
                 sy=one(g("y_sca_")), yev=E.vec(g("y_ev_")))
        if c["regopt"] == "robust":
            ys = ((y - e["my"]) / (e["sy"] or 1.0)).reshape(-1, 1)
            T = np.array(e["T"])
            crm = []
            for k in range(h):
                l = rm(**dict({"fun": "Hampel", "probp1": 0.95, "probp2": 0.975, "probp3": 0.99}, **rob), centre=c["center"], scale=scale, start_cutoff_mode="specific",
                       verbose=False)
                l.fit(T[:, k:k + 1].copy(), ys.copy())
                crm.append(one(l.coef_))
            e["crm"] = crm
    base = {"loc": e["loc"], "sca": e["sca"], "R": e["R"]}
    for q, Xn in enumerate((np.array(c["Xn"]), pd.DataFrame(c["Xn"]))):
        Z, out = E.outcome(m.transform, Xn)
        ev.append(dict(base, ev="transform", X=c["Xn"], out=out, Z=E.arr(Z)))
        if c["two"]:
            yp, out = E.outcome(m.predict, Xn)
            ev.append({"ev": "predict", "X": c["Xn"], "out": out, "yp": E.vec(yp), "b": [r[-1] for r in e["B"]], "icpt": e["icpt"]})
    Z, out = E.outcome(m.transform, X)
    ev.append({"ev": "train-transform", "out": out, "Z": E.arr(Z), "T": e["T"]})
    _, out = E.outcome(m.transform, np.ones((3, p + 1)))
    ev.append({"ev": "rejected", "out": out})
    if c["two"]:
        _, out = E.outcome(m.predict, np.ones((3, p + 1)))
        ev.append({"ev": "rejected", "out": out})
        _, out = E.outcome(m.fit, X, y[:-1])
        ev.append({"ev": "rejected", "out": out})
    m.set_params(n_components=min(n, p) + 1)
    _, out = E.outcome(m.fit, X)
    ev.append({"ev": "rejected", "out": out})
    return ev
