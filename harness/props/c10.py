"""C10: the life of estimator objects: history independence, no side effects, composition."""
import copy
import pickle
import sys

import numpy as np
import pandas as pd

from harness import data as D
from harness import enc as E

TRACE = "T_C10"
CASE_LIMIT = 120
ASSUMPTIONS = ["the optimisers and decompositions used are deterministic for identical input", "a fit in any container agrees with a fresh one to the row-major or to the column-major array, to 1e-4 of the largest entry"]
CFG = 'CONSTANTS Data = {"A", "B"}\n'
GEN = {t: [{"module": "Gen_C10", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = %d\n" % n + CFG, "timeout": 900} for n in ls]
       for t, ls in (("quick", (3, 4)), ("thorough", (3, 4, 5)))}


def models(tier):
    return [{"module": "MC_Life", "cfg": "INIT Init\nNEXT Next\nVIEW View\nINVARIANT OneFit LastFit Refines\nPROPERTY Local ParamsKept\n"
             "CONSTANTS NPar = 2 MaxOps = %d\n" % (4 if tier == "quick" else 5) + CFG, "timeout": 1500}]


# class -> parameter -> the two values a history switches between
CLASSES = {
    "VersatileScaler": {"center": ("mean", "l1median"), "scale": ("std", "mad"), "trimming": (0, 0.2), "center#2": ("median", "kstepLTS"), "scale#2": ("scaleTau2", "None")},
    "Wrapper": {},
    "GenSpatialSignPreProcessor": {"center": ("l1median", "mean"), "fun": ("linear_redescending", "ball"), "fun#2": ("ss", "winsor"), "center#2": ("kstepLTS", "None")},
    "dicomo": {"mode": ("cov", "corr"), "center": ("mean", "median"), "est": ("arithmetic", "distance"), "mode#2": ("com", "var"), "mode#3": ("continuum", "cos"), "mode#4": ("M3", "kurt"),
               "mode#5": ("skew", "std")},
    "capi": {"max_degree": (2, 4), "scaling": (True, False), "weights": ([1, 1, 1, -1, -1, -1], [2, 0, 1, 1, 3, 1]), "options": ("all", [1, 2]),
             "pi_arguments": ({}, {"center": "median"})},
    "snipls": {"eta": (0.5, 0.1), "n_components": (1, 2), "centre": ("mean", "median"), "scale": ("None", "std"), "columns": (False, ["a", "b", "c", "d"])},
    "rm": {"fun": ("Hampel", "Huber"), "centre": ("median", "mean"), "scale": ("mad", "std"), "start_cutoff_mode": ("specific", "overall"), "tol": (0.01, 1e-6), "maxit": (100, 2),
           "probp1": (0.95, 0.8), "scale#2": ("None", "mad")},
    "sprm": {"fun": ("Hampel", "Fair"), "n_components": (1, 2), "eta": (0.5, 0.1), "centre": ("median", "mean"), "scale": ("mad", "std"), "start_cutoff_mode": ("specific", "overall"),
             "start_X_init": ("pcapp", "xonly"), "maxit": (100, 2), "columns": (False, ["a", "b", "c", "d"]), "probp1": (0.95, 0.8)},
    "ppdire": {"optimizer": ("SLSQP", "grid"), "n_components": (1, 2), "center": ("mean", "median"), "scale_data": (True, False), "pi_arguments": ({"mode": "cov"}, {"mode": "corr"}),
               "regopt": ("OLS", "robust"), "center_data": (True, False), "square_pi": (False, True), "trimming": (0, 0.1),
               "pi_arguments#2": ({"mode": "M3"}, {"mode": "cov", "center": "median"})},
    "ppdire1": {"optimizer": ("SLSQP", "grid"), "n_components": (1, 2), "center": ("mean", "median"), "scale_data": (True, False), "pi_arguments": ({"mode": "var"}, {"mode": "kurt"})},
    "sudire": {"sudiremeth": ("sir", "save"), "n_components": (1, 2), "n_slices": (6, 3), "scale_data": (True, False), "center": ("mean", "median"), "center_data": (True, False),
               "sudiremeth#2": ("dr", "phd"), "sudiremeth#3": ("iht", "sir"), "dmetric": ("euclidean", "cityblock"), "fit_ols": (True, False)},
}
WEIGHT = {"VersatileScaler": 2, "Wrapper": 1, "dicomo": 3, "capi": 2, "snipls": 3, "rm": 3, "sprm": 4, "ppdire": 4, "ppdire1": 1, "sudire": 4, "GenSpatialSignPreProcessor": 1}
# (iterations amplify the rounding differences between memory layouts: there is a reference for each layout)
XK = ["array", "frame", "fortran", "frameindex", "readonly"]
YK = ["vector", "col", "series", "frame"]


def dataset(rng, n, p):
    X = rng.normal(size=(n, p)) @ (np.eye(p) + 0.4 * rng.normal(size=(p, p))) * rng.choice([0.5, 1, 3], size=p) + rng.integers(-3, 4, size=p)
    y = X @ rng.normal(size=p) + 0.5 * X[:, 0] ** 2 + 0.3 * rng.normal(size=n)
    X[1] += 6 * rng.choice([-1, 1])
    y[2] += 15 * rng.choice([-1, 1])
    return D.grid(X, 64).tolist(), D.grid(y, 64).tolist()


def cases(tier, seed, gen):
    rng = D.RNG(10000 + seed)
    out = []
    per = 22 if tier == "quick" else 150
    short = [h for h in gen if len(h) == 3]
    long_ = [h for h in gen if len(h) > 3]
    # a parameter changed between two fits of the same object, for every parameter
    core = [h for h in gen if any(h[i][0] == "fit" and h[j][0] == "set" and h[k][0] == "fit" and h[i][1] == h[j][1] == h[k][1]
                                  for i in range(len(h)) for j in range(i + 1, len(h)) for k in range(j + 1, len(h)))]
    core1 = [h for h in core if any(o[0] == "set" and o[2] == 1 for o in h)]
    for cls, dom in CLASSES.items():
        names = sorted(dom) or ["-"]
        plain = per * WEIGHT[cls]
        extra = (3 if tier == "quick" else 12) * len(names)
        for k in range(plain + extra):
            pool = core1 if k >= plain else short if k % 3 == 0 else long_
            h = pool[int(rng.integers(len(pool)))]
            pick = [names[k % len(names)], names[int(rng.integers(len(names)))]]
            base = {}
            if k % 2:  # another configuration of the other parameters
                for s_ in names:
                    if s_ != "-" and pname(s_) not in [pname(v) for v in pick] and rng.random() < 0.35:
                        base[s_] = int(rng.integers(2))
            pb = 4 if rng.random() < 0.6 else int(rng.choice([3, 5]))
            out.append({"id": f"{cls}-{k}", "cls": cls, "slots": pick, "base": base, "hist": h, "A": dataset(rng, int(rng.integers(13, 17)), 4), "B": dataset(rng, int(rng.integers(13, 17)), pb),
                        "N": dataset(rng, 7, 4)[0], "NB": dataset(rng, 7, pb)[0], "xk": [XK[int(v)] for v in rng.integers(len(XK), size=8)], "yk": [YK[int(v)] for v in rng.integers(len(YK), size=8)],
                        "copy": bool(rng.random() < 0.7)})
    for k in range(24 if tier == "quick" else 120):
        out.append({"id": f"compose-{k}", "A": dataset(rng, 18, 4), "N": dataset(rng, 6, 4)[0], "kind": ["pipe", "cvp", "grid", "fit_transform", "score", "union"][k % 6], "sub": k // 6})
    return out


def box(X, kind):
    if kind == "frameindex":
        return pd.DataFrame(np.array(X), columns=["c%d" % j for j in range(np.shape(X)[1])], index=np.arange(len(X))[::-1] * 3 + 1)
    if kind == "readonly":
        a = np.array(X)
        a.setflags(write=False)
        return a
    return D.container(np.array(X), kind)


def ybox(y, kind):
    y = np.array(y)
    return {"vector": y, "col": y.reshape(-1, 1), "series": pd.Series(y, index=np.arange(len(y))[::-1] + 5), "frame": pd.DataFrame({"y": y}, index=np.arange(len(y))[::-1] + 5)}[kind]


def classes():
    import direpack  # noqa
    from direpack.dicomo.dicomo import dicomo
    from direpack.ppdire.capi import capi
    from direpack.ppdire.ppdire import ppdire
    from direpack.preprocessing.gsspp import GenSpatialSignPreProcessor
    from direpack.preprocessing.robcent import VersatileScaler, Wrapper
    from direpack.sprm.rm import rm
    from direpack.sprm.snipls import snipls
    from direpack.sprm.sprm import sprm
    from direpack.sudire.sudire import sudire

    return dict(VersatileScaler=VersatileScaler, Wrapper=Wrapper, GenSpatialSignPreProcessor=GenSpatialSignPreProcessor, dicomo=dicomo, capi=capi,
                snipls=snipls, rm=rm, sprm=sprm, ppdire=ppdire, ppdire1=ppdire, sudire=sudire)


def pname(s):
    return s.split("#")[0]


class Zoo:
    def __init__(self, case):
        self.case, self.cls, self.C = case, case["cls"], classes()[case["cls"]]
        self.dom = CLASSES[self.cls]
        self.slots = case["slots"]

    def kw(self, par):
        """constructor arguments of the abstract parameter values par"""
        k = {}
        if self.cls in ("snipls", "rm", "sprm", "ppdire", "ppdire1", "sudire"):
            k["verbose"] = False
            k["copy"] = self.case["copy"]
        if self.cls.startswith("ppdire"):
            from direpack.dicomo.dicomo import dicomo

            k["projection_index"] = dicomo
            k["optimizer_options"] = {"maxiter": 5, "ndir": 100} if self.case["base"] else {"maxiter": 100000}
            k["pi_arguments"] = {"mode": "cov" if self.cls == "ppdire" else "var"}
        if self.cls == "dicomo":
            k["mode"] = "cov"
        if self.cls == "sudire":
            k["sudiremeth"] = "sir"
        for s, v in self.case["base"].items():
            k.update(self.change(s, v))
        for s, v in zip(self.slots, par):
            k.update(self.change(s, v))
        return k

    def change(self, s, v):
        return {} if s == "-" else {pname(s): copy.deepcopy(self.dom[s][v])}

    def make(self, par):
        return self.C(**self.kw(par))

    def fit(self, m, X, y):
        """fit and observe"""
        c = self.cls
        if c in ("VersatileScaler", "Wrapper", "GenSpatialSignPreProcessor", "ppdire1"):
            m.fit(X)
            extra = {}
        elif c == "dicomo":
            x1 = X.iloc[:, [0]] if hasattr(X, "iloc") else X[:, [0]]
            extra = {"returned": m.fit(x1, y=y, option=1)}
        elif c == "capi":
            x1 = np.asarray(X)[:, [0]]
            extra = {"returned": m.fit(x1, np.asarray(y).reshape(-1, 1))}
        else:
            m.fit(X, y)
            extra = {}
        return self.attrs(m, extra)

    def attrs(self, m, extra):
        o = dict(extra)
        for k, v in vars(m).items():
            if k.endswith("_") and not k.startswith("_") and not callable(v):
                o[k] = v
        return rec(o)

    def use(self, m, N, wrong=False):
        o = {}
        for f in {"VersatileScaler": ["transform", "predict", "inverse_transform"], "Wrapper": ["transform", "predict"], "GenSpatialSignPreProcessor": ["transform"],
                  "snipls": ["predict", "transform"], "rm": ["predict"], "sprm": ["predict", "transform", "weightnewx"], "ppdire": ["predict", "transform"],
                  "ppdire1": ["transform"], "sudire": ["transform"]}.get(self.cls, []):
            if f == "weightnewx" and len(N) < 3:
                continue
            o[f] = getattr(m, f)(N)
        if self.cls == "sudire":  # no prediction without the least squares fit
            v, out = E.outcome(m.predict, N)
            o["predict"] = v if out == "ok" else np.full((0, 9), 0.0)
        if self.cls in ("dicomo", "capi"):
            o = {k: getattr(m, k) for k in ("moment_", "x_moment_", "capi_index_", "moments_") if hasattr(m, k)}
            if o.get("capi_index_", 0) is None or (not o and not hasattr(m, "moment_")):
                raise AttributeError("not fitted")
        return rec(o)


def rec(o):
    r = {}
    for k, v in o.items():
        if isinstance(v, (str, bool, dict)) or v is None:
            continue
        if isinstance(v, list) and v and not np.isscalar(v[0]):
            continue
        a = E.arr(v)
        if isinstance(a, str):
            continue
        a = np.asarray(a, dtype=float)
        r[k] = {"shape": [int(d) for d in a.shape], "v": a.reshape(-1).tolist()}
    return r


def params_of(m):
    r = {k: copy.deepcopy(v) for k, v in m.get_params(deep=False).items()}
    d, out = E.outcome(m.get_params, deep=True)   # the same parameters, and those of objects among them
    if out != "ok" or any(k not in d or d[k] is not v for k, v in m.get_params(deep=False).items()) or any(k not in r and k.split("__")[0] not in r for k in d):
        r["deep parameters"] = out
    return r


def same_params(a, b):
    if set(a) != set(b) or "deep parameters" in a:
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, type) or callable(x):
            if x is not y:
                return False
        elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not np.array_equal(x, y):
                return False
        elif type(x) is not type(y) and not (isinstance(x, (int, float)) and isinstance(y, (int, float))) or x != y:
            return False
    return True


def same_data(a, b):
    return bool(type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b)) and (not hasattr(a, "index") or a.index.equals(b.index)))


def run_case(case):
    if case["id"].startswith("compose"):
        return compose(case)
    from sklearn.base import clone

    z = Zoo(case)
    par = [[0, 0], [0, 0]]
    fit = [None, None]          # (par, data) of the last fit
    obj = [z.make(par[0]), z.make(par[1])]
    want = [params_of(obj[0]), params_of(obj[1])]
    cache = {}
    ev = [{"ev": "new"}]

    def fresh(q, order="C"):
        """observation of a fresh object of the parameters and data of the last fit"""
        key = (tuple(fit[q][0]), fit[q][1], order)
        if key not in cache:
            m = z.make(fit[q][0])
            X, y = np.array(case[fit[q][1]][0], order=order), np.array(case[fit[q][1]][1])
            o, out = E.outcome(z.fit, m, X, y)
            cache[key] = (m, o, out)
        return cache[key]

    for t, op in enumerate(case["hist"]):
        name, q, arg = op[0], op[1] - 1, op[2]
        e = {"ev": "op", "op": op, "out": "ok", "inputs": True, "strict": not case["base"] and len(case["B"][0][0]) == 4}
        if name == "set":
            par[q][arg - 1] = 1 - par[q][arg - 1]
            ch = z.change(z.slots[arg - 1], par[q][arg - 1])
            if z.slots[0] != "-" and pname(z.slots[0]) == pname(z.slots[1]):
                # two domains of one parameter: the second slot rules
                ch = z.change(z.slots[1], par[q][1])
            _, e["out"] = E.outcome(obj[q].set_params, **copy.deepcopy(ch))
            want[q].update(ch)
        elif name == "fit":
            X, y = box(case[arg][0], case["xk"][t]), ybox(case[arg][1], case["yk"][t])
            X0, y0 = copy.deepcopy(X), copy.deepcopy(y)
            fit[q] = (list(par[q]), arg)
            e["obs"], e["out"] = E.outcome(z.fit, obj[q], X, y)
            e["inputs"] = same_data(X, X0) and same_data(y, y0)
            _, e["ref"], e["refout"] = fresh(q)
            _, e["ref2"], _ = fresh(q, "F")
        elif name in ("use", "wrong"):
            N = np.array(case["NB" if fit[q] is not None and fit[q][1] == "B" else "N"])
            N = N[:1] if arg == "one" else N[:, :-1] if name == "wrong" else N
            N = box(N, case["xk"][t])
            N0 = copy.deepcopy(N)
            if name == "wrong" and case["cls"] in ("dicomo", "capi", "VersatileScaler", "Wrapper", "GenSpatialSignPreProcessor"):
                e["out"] = "not-applicable"
            else:
                e["obs"], e["out"] = E.outcome(z.use, obj[q], N)
                e["inputs"] = same_data(N, N0)
            if fit[q] is not None and name == "use":
                m, _, _ = fresh(q)
                e["ref"], e["refout"] = E.outcome(z.use, m, np.array(N0))
                e["ref2"], _ = E.outcome(z.use, fresh(q, "F")[0], np.array(N0))
        elif name == "clone":
            obj[1 - q] = clone(obj[q])
            par[1 - q], fit[1 - q], want[1 - q] = list(par[q]), None, copy.deepcopy(want[q])
        elif name == "pickle":
            obj[1 - q] = pickle.loads(pickle.dumps(obj[q]))
            par[1 - q], fit[1 - q], want[1 - q] = list(par[q]), copy.deepcopy(fit[q]), copy.deepcopy(want[q])
        e["params"] = same_params(params_of(obj[0]), want[0]) and same_params(params_of(obj[1]), want[1])
        e["refon"] = fit[q] is not None
        e["refpar"], e["refd"] = (list(fit[q][0]), fit[q][1]) if fit[q] else ([], "")
        ev.append(e)
    return ev


def compose(case):
    from sklearn.base import clone
    from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict
    from sklearn.pipeline import Pipeline, make_pipeline

    Z = classes()
    X, y = np.array(case["A"][0]), np.array(case["A"][1])
    N = np.array(case["N"])
    dic = {"mode": "cov"}
    ests = [Z["sprm"](n_components=2, eta=0.2, verbose=False), Z["snipls"](n_components=2, eta=0.1, verbose=False), Z["rm"](verbose=False),
            Z["ppdire"](projection_index=Z["dicomo"], pi_arguments=dic, n_components=2, verbose=False),
            Z["sudire"](sudiremeth="sir", n_components=2, verbose=False)]
    pre = [Z["VersatileScaler"](center="median", scale="mad"), Z["Wrapper"](), Z["VersatileScaler"](center="l1median", scale="std"), Z["VersatileScaler"]()]
    k = case["sub"]
    est, sc = ests[k % 5], pre[k % 4]
    o, r = {}, {}
    try:
        if case["kind"] == "pipe":
            p = make_pipeline(clone(sc), clone(est)).fit(X, y)
            o["predict"] = np.ravel(p.predict(N))
            s2 = clone(sc)
            Xs = s2.fit_transform(X)
            r["predict"] = np.ravel(clone(est).fit(Xs, y).predict(s2.transform(N)))
        elif case["kind"] == "cvp":
            cv = KFold(3)
            o["predict"] = np.ravel(cross_val_predict(clone(est), X, y, cv=cv))
            w = np.zeros(len(y))
            for tr, te in cv.split(X):
                w[te] = np.ravel(clone(est).fit(X[tr], y[tr]).predict(X[te]))
            r["predict"] = w
        elif case["kind"] == "grid":
            e = [ests[0], ests[1]][k % 2]
            g = GridSearchCV(clone(e), {"n_components": [1, 2], "eta": [0.1, 0.5]}, cv=KFold(3), scoring="neg_mean_squared_error").fit(X, y)
            o["scores"] = g.cv_results_["mean_test_score"]
            o["predict"] = np.ravel(g.predict(N))
            sc_ = []
            for q in g.cv_results_["params"]:
                v = []
                for tr, te in KFold(3).split(X):
                    m = e.__class__(verbose=False, **q).fit(X[tr], y[tr])
                    v.append(-np.mean((y[te] - np.ravel(m.predict(X[te]))) ** 2))
                sc_.append(np.mean(v))
            r["scores"] = np.array(sc_)
            r["predict"] = np.ravel(e.__class__(verbose=False, **g.cv_results_["params"][int(np.argmax(sc_))]).fit(X, y).predict(N))
        elif case["kind"] == "fit_transform":
            e = [ests[1], ests[3], ests[4], pre[0], pre[1], ests[0]][k % 6]
            o["scores"] = np.asarray(clone(e).fit_transform(X, y))
            r["scores"] = np.asarray(clone(e).fit(X, y).transform(X))
        elif case["kind"] == "score":
            m = clone(est).fit(X, y)
            o["r2"] = np.array([m.score(X, y)])
            yp = np.ravel(m.predict(X))
            r["r2"] = np.array([1 - np.sum((y - yp) ** 2) / np.sum((y - y.mean()) ** 2)])
        else:
            e = [ests[1], ests[3], ests[4], ests[0]][k % 4]
            p = Pipeline([("a", clone(sc)), ("b", clone(e))]).fit(X, y)
            o["scores"] = np.asarray(p.transform(N))
            s2 = clone(sc)
            Xs = s2.fit_transform(X)
            r["scores"] = np.asarray(clone(e).fit(Xs, y).transform(s2.transform(N)))
        out = "ok"
    except Exception as exc:
        out = "raise:" + type(exc).__name__ + str(exc)[:80]
    return [{"ev": "compose", "out": out, "obs": rec(o), "ref": rec(r)}]
