"""C18: requests outside the documented domain are refused and leave the fitted model alone."""
import copy

import numpy as np
import pandas as pd

from harness import data as D
from harness import enc as E

TRACE = "T_C18"
CASE_LIMIT = 120
ASSUMPTIONS = ["refused means that an exception of any type is raised", "trimming fractions between one half and one, more components than variables in sparse NIPALS and "
               "names of other functions of the library given as options are not decided by the documentation and not asked"]
GEN = {t: [{"module": "Gen_C18", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = %d\n" % n, "timeout": 900} for n in ls] for t, ls in (("quick", (3, 4)), ("thorough", (3, 4, 5)))}


def models(tier):
    return [{"module": "MC_Domain", "cfg": "INIT Init\nNEXT Next\nINVARIANT Staged Complete Atomic Sound OneFit\nCONSTANT MaxReq = %d\n" % (2 if tier == "quick" else 3), "timeout": 1500}]


HF = [{"n_components": v} for v in (0, -1, 9, 1.5)]
CUT = [{"fun": "Tukey"}, {"fun": "hampel"}, {"probp1": 0.0}, {"probp1": -0.25}, {"probp1": 1.25}, {"probp2": 0.5}, {"probp1": 0.975}, {"probp3": 0.96}, {"probp3": 1.125},
       {"fun": "Huber", "probp1": 0.0}, {"fun": "Fair", "probp1": 1.5}, {"probp2": 0.9921875, "probp3": 0.984375}, {"probp2": 0.95}, {"probp3": 0.975}, {"probp1": 1.0}, {"probp1": 1.0, "probp2": 1.0, "probp3": 1.0}]
NAMES = [{"centre": "foo"}, {"scale": "foo"}]
# outside the domain / at its edge but inside / defects of the data
BAD = {
    "sprm": HF + [{"n_components": "p+1"}, {"n_components": "n+1", "_wide": True}, {"eta": -0.125}, {"eta": 1.0}, {"eta": 1.5}, {"columns": True}] + CUT + NAMES,
    "snipls": [{"n_components": 0}, {"n_components": -1}, {"n_components": 1.5}, {"eta": -0.125}, {"eta": 1.0}, {"eta": 1.5}, {"columns": True}] + NAMES,
    "rm": CUT + NAMES,
    "ppdire": HF + [{"n_components": "p+1"}, {"n_components": "n+1", "_wide": True}, {"center": "foo"}, {"trimming": 1.25}, {"trimming": -0.25}, {"regopt": "foo"}, {"regopt": "ols"}],
    "sudire": HF + [{"n_components": "p+1"}, {"center": "foo"}, {"sudiremeth": "foo"}, {"sudiremeth": "SIR"}, {"n_slices": 0}, {"sudiremeth": "save", "n_components": 0}, {"sudiremeth": "dr", "n_components": -1},
                    {"sudiremeth": "phd", "n_components": 0}, {"sudiremeth": "iht", "n_components": -1}, {"sudiremeth": "iht", "n_components": "p+1"}]
              + [{"sudiremeth": v, "n_components": "n+1", "_wide": True, "n_slices": 2} for v in ("sir", "save", "dr", "phd", "iht")],
    "dicomo": [{"mode": "foo"}, {"mode": "COV"}, {"est": "foo"}, {"center": "foo"}, {"mode": "mdd", "est": "arithmetic"}, {"mode": "var", "center": "foo"}, {"mode": "foo", "est": "distance"}],
    "capi": [{"max_degree": v} for v in (0, 1, 5, 6)],
    "scaler": [{"center": "foo"}, {"scale": "foo"}, {"trimming": 1.0}, {"trimming": 1.25}, {"trimming": -0.25}],
    "wrapper": [],
    "gss": [{"center": "foo"}, {"fun": "foo"}],
}
EDGE = {
    "sprm": [{"n_components": "p"}, {"eta": 0.0}, {"eta": 0.96875}, {"fun": "Huber", "probp1": 1.0}, {"fun": "Fair", "probp2": 0.5}, {"probp3": 1.0}, {"probp1": 0.125, "probp2": 0.25, "probp3": 0.5}, {"columns": "list"},
             {"fun": "Huber", "probp3": 0.5}, {"centre": "mean", "scale": "std"}, {"centre": "l1median"}, {"centre": "kstepLTS", "scale": "None"}, {"columns": True, "_frame": True}],
    "snipls": [{"n_components": "p"}, {"eta": 0.0}, {"eta": 0.96875}, {"columns": "list"}, {"centre": "median", "scale": "mad"}, {"columns": True, "_frame": True}],
    "rm": [{"fun": "Huber", "probp1": 1.0}, {"fun": "Fair", "probp2": 0.5}, {"probp3": 1.0}, {"fun": "Huber", "probp3": 0.5}, {"centre": "mean", "scale": "std"}, {"centre": "l1median"}, {"scale": "None"}],
    "ppdire": [{"n_components": "p"}, {"center": "median"}, {"trimming": 0}, {"regopt": "robust"}, {"regopt": "quantile"}],
    "sudire": [{"n_components": "p"}, {"center": "median"}, {"n_slices": 2}] + [{"sudiremeth": v} for v in ("save", "dr", "phd", "iht")],
    "dicomo": [{"mode": v, "est": e} for v in ("mom", "var", "std", "skew", "kurt", "com", "cov", "cos", "cok", "corr", "continuum", "M3", "mdd") for e in ("arithmetic", "distance") if (v, e) != ("mdd", "arithmetic")],
    "capi": [{"max_degree": v} for v in (2, 3, 4)],
    "scaler": [{"center": v, "scale": w} for v in ("mean", "median", "l1median", "kstepLTS", "None") for w in ("std", "mad", "scaleTau2", "None")],
    "wrapper": [{}],
    "gss": [{"center": v, "fun": w} for v in ("mean", "median", "l1median", "kstepLTS") for w in ("ss", "ball", "shell", "quad", "winsor", "linear_redescending")],
}
YD = ["short", "long", "half", "double", "one", "two"]
BADDATA = {"sprm": YD + ["y2", "const"], "snipls": YD + ["y2"], "rm": YD + ["y2"], "ppdire": YD + ["y2"], "sudire": YD, "dicomo": ["short", "long", "half", "empty", "yempty", "noy", "one", "double"], "capi": ["short", "long", "half", "one", "double"],
           "scaler": [], "wrapper": [], "gss": []}
USES = {"sprm": ["predict", "transform", "weightnewx", "valscore"], "snipls": ["predict", "transform"], "rm": ["predict"], "ppdire": ["predict", "transform"], "sudire": ["predict", "transform"],
        "scaler": ["transform", "inverse_transform", "predict"], "wrapper": ["transform", "predict"], "gss": ["transform"], "dicomo": [], "capi": []}
YK = ["vector", "col", "series", "frame"]


def cases(tier, seed, gen):
    rng = D.RNG(18000 + seed)
    out = []
    for cls in BAD:
        for kind, lst in (("bad", BAD[cls]), ("edge", EDGE[cls])):
            for k, ch in enumerate(lst):
                for via in ("ctor", "set"):
                    if (cls, via, ch.get("n_components")) == ("sprm", "ctor", 1.5):
                        continue   # the constructor converts to an integer
                    for rep in range(1 if tier == "quick" else 6):
                        out.append(mk(rng, f"{kind}-{cls}-{k}-{via}-{rep}", cls, via=via, hist=["change"], faults=[ch]))
        # a request outside the domain in one respect, in every other configuration
        for k, ch in enumerate(BAD[cls]):
            for ctx in pick(rng, [c for c in EDGE[cls] if not set(c) & set(ch) and "_frame" not in c], 3 if tier == "quick" else 12):
                out.append(mk(rng, f"cross-{cls}-{k}-{len(out)}", cls, via=["ctor", "set"][len(out) % 2] if ch.get("n_components") != 1.5 else "set", hist=["change"], faults=[{**ctx, **ch}]))
        for k, ctx in enumerate(EDGE[cls]):
            for dd in pick(rng, BADDATA[cls], (len(BADDATA[cls]) if cls == "dicomo" else 2) if tier == "quick" else 99):
                if dd != "const" and "_frame" not in ctx:
                    out.append(mk(rng, f"crossdata-{cls}-{k}-{dd}", cls, via="set", hist=["change"], faults=[{**ctx, "_defect": dd}], yk=YK[len(out) % 4]))
        for k, dd in enumerate(BADDATA[cls]):
            for yk in YK:
                out.append(mk(rng, f"data-{cls}-{dd}-{yk}", cls, via="set", hist=["fitA", "baddata", "use"], faults=[dd], yk=yk))
        for k, w in enumerate(["p-1", "p+1", "one", "unfitted", "flag", "2p"]):
            out.append(mk(rng, f"wrong-{cls}-{w}", cls, via="set", hist=["wronguse", "fitA", "wronguse", "use"], faults=[w]))
        for ch in BAD[cls]:   # refused between two uses of a fitted model, then fitted to other data
            out.append(mk(rng, f"after-{cls}-{len(out)}", cls, via="set", hist=["fitA", "badparam", "use", "fitB", "badparam", "use"], faults=[ch]))
        n = 30 if tier == "quick" else 250
        for k in range(n if cls not in ("wrapper", "gss", "capi") else n // 3):
            h = gen[int(rng.integers(len(gen)))]
            f = []
            for op in h:
                if op == "badparam":
                    f.append(BAD[cls][int(rng.integers(len(BAD[cls])))] if BAD[cls] else None)
                elif op == "baddata":
                    f.append(BADDATA[cls][int(rng.integers(len(BADDATA[cls])))] if BADDATA[cls] else None)
                elif op == "wronguse":
                    f.append(["p-1", "p+1", "one", "flag", "2p"][int(rng.integers(5))])
                else:
                    f.append(None)
            out.append(mk(rng, f"hist-{cls}-{k}", cls, via="set", hist=h, faults=f, yk=YK[k % 4]))
    for k, w in enumerate(["sprm", "ppdire", "sudire"]):
        out.append(mk(rng, f"plot-{w}", w, via="plot", hist=[], faults=[]))
    return out


def pick(rng, lst, k):
    return [lst[i] for i in rng.permutation(len(lst))[:k]]


def mk(rng, id, cls, via, hist, faults, yk="vector"):
    def ds(n, p):
        X = rng.normal(size=(n, p)) * rng.choice([0.5, 1, 2], size=p) + rng.integers(-2, 3, size=p)
        y = X @ rng.normal(size=p) + 0.4 * rng.normal(size=n)
        return [D.grid(X, 64).tolist(), D.grid(y, 64).tolist()]
    pa = int(rng.integers(3, 6))
    pb = int(rng.choice([3, 4, 5]))
    if len(faults) < len(hist):
        faults = faults * len(hist)
    base = {}
    if cls in ("sprm", "snipls", "ppdire", "sudire"):
        base["n_components"] = 1 + int(rng.integers(2))
    if cls in ("sprm", "snipls"):
        base["eta"] = [0.0, 0.25, 0.5][int(rng.integers(3))]
    if cls in ("sprm", "rm"):
        base["fun"] = ["Hampel", "Hampel", "Huber", "Fair"][int(rng.integers(4))] if via == "x" else "Hampel"
    return {"id": id, "cls": cls, "via": via, "hist": hist, "faults": faults, "yk": yk, "base": base, "A": ds(int(rng.integers(13, 18)), pa), "B": ds(int(rng.integers(13, 18)), pb),
            "NA": ds(6, pa), "NB": ds(6, pb), "xk": int(rng.integers(2))}


def classes():
    import direpack  # noqa
    from direpack.dicomo.dicomo import dicomo
    from direpack.ppdire.capi import capi
    from direpack.ppdire.ppdire import ppdire
    from direpack.preprocessing.gsspp import GenSpatialSignPreProcessor
    from direpack.preprocessing.robcent import VersatileScaler, Wrapper
    from direpack.sprm.rm import rm
    from direpack.sprm.snipls import snipls
    from direpack.sprm.sprm import sprm
    from direpack.sudire.sudire import sudire

    return dict(scaler=VersatileScaler, wrapper=Wrapper, gss=GenSpatialSignPreProcessor, dicomo=dicomo, capi=capi, snipls=snipls, rm=rm, sprm=sprm, ppdire=ppdire, sudire=sudire)


DEF = {
    "sprm": {"n_components": 1, "eta": 0.5, "fun": "Hampel", "probp1": 0.95, "probp2": 0.975, "probp3": 0.99, "centre": "median", "scale": "mad", "columns": False},
    "snipls": {"n_components": 1, "eta": 0.5, "centre": "mean", "scale": "None", "columns": False},
    "rm": {"fun": "Hampel", "probp1": 0.95, "probp2": 0.975, "probp3": 0.99, "centre": "median", "scale": "mad"},
    "ppdire": {"n_components": 1, "center": "mean", "trimming": 0, "regopt": "OLS"},
    "sudire": {"n_components": 1, "center": "mean", "sudiremeth": "sir", "n_slices": 4},
    "dicomo": {"mode": "cov", "est": "arithmetic", "center": "mean"},
    "capi": {"max_degree": 3},
    "scaler": {"center": "mean", "scale": "std", "trimming": 0},
    "wrapper": {},
    "gss": {"center": "l1median", "fun": "linear_redescending"},
}


def abstract(cls, par):
    """the parameters in the words of the specification"""
    h = par.get("n_components", 1)
    q = {"h": int(h), "hint": isinstance(h, int), "eta": float(par.get("eta", 0.0)), "fun": par.get("fun", "none"), "p1": float(par.get("probp1", 0.5)), "p2": float(par.get("probp2", 0.5)),
         "p3": float(par.get("probp3", 0.5)), "centre": par.get("centre", par.get("center", "none")), "scale": par.get("scale", "none"), "names": "frame" if par.get("columns") is True else "none",
         "trimming": float(par.get("trimming", 0)), "regopt": par.get("regopt", "none"), "meth": par.get("sudiremeth", "none"), "slices": int(par.get("n_slices", 1)), "mode": par.get("mode", "none"),
         "est": par.get("est", "none"), "degree": int(par.get("max_degree", 2))}
    return q


class Box:
    def __init__(self, case):
        self.c, self.cls, self.C = case, case["cls"], classes()[case["cls"]]
        self.par = {**DEF[self.cls], **case["base"]}

    def make(self, par):
        k = dict(par)
        if self.cls in ("snipls", "rm", "sprm", "ppdire", "sudire"):
            k["verbose"] = False
        if self.cls == "ppdire":
            k.update(projection_index=classes()["dicomo"], pi_arguments={"mode": "cov"}, optimizer="grid", optimizer_options={"ndir": 30, "maxiter": 20})
        if self.cls == "capi":
            k.update(projection_index=classes()["dicomo"], pi_arguments={"mode": "cov"})
        return self.C(**k)

    def concrete(self, ch, p):
        ch = {k: v for k, v in ch.items() if not k.startswith("_")}
        for k, v in ch.items():
            if v == "p" and k == "n_components":
                ch[k] = p
            elif v == "p+1":
                ch[k] = p + 1
            elif v == "n+1":
                ch[k] = p // 2 + 2
            elif v == "list" and k == "columns":
                ch[k] = ["v%d" % j for j in range(p)]
        return ch

    def data(self, which, defect=None, frame=False, wide=False):
        X, y = np.array(self.c[which][0]), np.array(self.c[which][1])
        if wide:                       # fewer cases than variables
            k = X.shape[1] + 1
            X, y = np.c_[X, (X * X)[::-1] + X][:k], y[:k]
        n, p = X.shape
        d = {"n": n, "p": p, "z": 0, "ny": n, "my": 1, "frame": False}
        if defect == "const":
            keep = max(self.par["n_components"] - 1, 0)
            X[:, keep:] = 2.0
            d["z"] = p - keep
        elif defect == "y2":
            y = np.c_[y, y[::-1]]
            d["my"] = 2
        elif defect == "empty":
            X, y = X[:0], y[:0]
            d["n"] = d["ny"] = 0
        elif defect == "noy":
            y, d["ny"] = None, -1
        elif defect:
            m = {"short": n - 1, "long": n + 1, "half": n // 2, "double": 2 * n, "one": 1, "two": 2, "yempty": 0}[defect]
            y = np.resize(y, m)
            d["ny"] = m
        if y is not None and d["my"] == 1:
            y = {"vector": y, "col": y.reshape(-1, 1), "series": pd.Series(y), "frame": pd.DataFrame({"y": y})}[self.c["yk"]]
        if frame:
            X = pd.DataFrame(X, columns=["v%d" % j for j in range(p)])
            d["frame"] = True
        return X, y, d

    def fit(self, m, X, y, trimming=None):
        c = self.cls
        if c in ("scaler", "wrapper", "gss"):
            m.fit(X)
        elif c == "dicomo":
            x1 = np.asarray(X)[:, [0]]
            m.ret = m.fit(x1) if y is None else m.fit(x1, y=np.asarray(y).reshape(-1, 1))
        elif c == "capi":
            m.ret = m.fit(np.asarray(X)[:, [0]], np.asarray(y).reshape(-1, 1))
        else:
            m.fit(X, y)

    def answer(self, m, which):
        """what the model answers about the probe cases"""
        N, yN = np.array(self.c["N" + which][0]), np.array(self.c["N" + which][1])
        r = {}
        for f in USES[self.cls]:
            if f == "weightnewx":
                continue
            v = m.valscore(N, yN, "normal") if f == "valscore" else getattr(m, f)(N)
            a = np.asarray(E.arr(v), dtype=float)
            r[f] = {"shape": [int(x) for x in a.shape], "v": a.reshape(-1).tolist()}
        if not USES[self.cls]:
            a = float(m.moment_ if self.cls == "dicomo" else m.capi_index_)
            r["value"] = {"shape": [], "v": [a]}
        return r


def params_of(m):
    return {k: (v if callable(v) else copy.deepcopy(v)) for k, v in m.get_params(deep=False).items()}


def run_case(case):
    if case["via"] == "plot":
        return plots(case)
    b = Box(case)
    cls = case["cls"]
    ev = []
    m = b.make(b.par)
    model = None            # data set of the last accepted fit
    want = params_of(m)

    def fit_event(m, par, X, y, d, fresh, out, which):
        e = {"ev": "fit", "cls": cls, "q": abstract(cls, par), "d": d, "out": out, "fresh": fresh, "params": True, "ans": {"none": {"shape": [], "v": []}}}
        if out == "ok" and not fresh:
            a, o2 = E.outcome(b.answer, m, which)
            e["ans"] = a if o2 == "ok" else e["ans"]
        ev.append(e)
        return e

    for t, op in enumerate(case["hist"]):
        fault = case["faults"][t]
        if op == "change":
            X, y, d = b.data("A", fault.get("_defect"), frame=bool(fault.get("_frame")), wide=bool(fault.get("_wide")))
            ch = b.concrete(fault, d["p"])
            par = {**b.par, **ch}
            if case["via"] == "ctor":
                def go():
                    mm = b.make(par)
                    b.fit(mm, X, y)
                _, out = E.outcome(go)
            else:
                def go():
                    m.set_params(**ch)
                    b.fit(m, X, y)
                _, out = E.outcome(go)
            fit_event(m, par, X, y, d, True, out, "A")
            if cls == "dicomo" and not fault.get("_defect"):   # the trimming fraction is an argument of fit
                for tr in (1.25, -0.25, 0.0):
                    mm, o1 = E.outcome(b.make, par)
                    if o1 != "ok":
                        continue
                    _, out = E.outcome(mm.fit, X[:, [0]], y=np.asarray(y).reshape(-1, 1), trimming=tr)
                    fit_event(mm, {**par, "trimming": tr}, X, y, d, True, out, "A")
        elif op in ("fitA", "fitB"):
            X, y, d = b.data(op[-1])
            _, out = E.outcome(b.fit, m, X, y)
            e = fit_event(m, b.par, X, y, d, False, out, op[-1])
            e["params"] = same(params_of(m), want)
            model = op[-1]
        elif op == "badparam":
            if fault is None:
                continue
            X, y, d = b.data("B" if t % 2 else "A", wide=bool(fault.get("_wide")))
            ch = b.concrete(fault, d["p"])
            par = {**b.par, **ch}

            def go():
                m.set_params(**ch)
                b.fit(m, X, y)
            _, out = E.outcome(go)
            e = fit_event(m, par, X, y, d, False, out, "B" if t % 2 else "A")
            _, o2 = E.outcome(m.set_params, **{k: want[k] for k in ch})
            e["params"] = o2 == "ok" and same(params_of(m), want)
        elif op == "baddata":
            if fault is None:
                continue
            X, y, d = b.data("B" if t % 2 else "A", fault)
            _, out = E.outcome(b.fit, m, X, y)
            e = fit_event(m, b.par, X, y, d, False, out, "A")
            e["params"] = same(params_of(m), want)
        elif op == "badname":
            _, out = E.outcome(m.set_params, bogus_parameter=1)
            ev.append({"ev": "name", "out": out, "params": same(params_of(m), want)})
        elif op == "use":
            which = model or "A"
            a, out = E.outcome(b.answer, m, which)
            if cls in ("dicomo", "capi") and model is None:
                continue
            ev.append({"ev": "use", "cls": cls, "op": "predict", "arg": {"p": len(case[which][0][0])}, "out": out, "full": True, "ans": a if out == "ok" else {}})
        elif op == "wronguse":
            p = len(case[model or "A"][0][0])
            for f in USES[cls]:
                N, yN = np.array(case["N" + (model or "A")][0]), np.array(case["N" + (model or "A")][1])
                arg = {"p": p, "flag": "normal"}
                if fault == "flag":
                    if f != "valscore":
                        continue
                    arg["flag"] = "foo"
                elif fault == "unfitted":
                    if model is not None:
                        continue
                else:
                    if cls == "gss":
                        continue
                    N = {"p-1": N[:, :-1], "p+1": np.c_[N, N[:, 0]], "one": N[:, :1], "2p": np.c_[N, N]}[fault]
                    arg["p"] = N.shape[1]
                    if fault == "one" and f != "valscore" and arg["p"] < p:   # as many cases as the model has variables
                        Nc = np.resize(N, (p, 1))
                        _, out = E.outcome(getattr(m, f), pd.DataFrame(Nc) if case["xk"] else Nc)
                        ev.append({"ev": "use", "cls": cls, "op": f, "arg": dict(arg), "out": out, "full": False, "ans": {}})
                if case["xk"]:
                    N = pd.DataFrame(N)
                _, out = E.outcome(m.valscore, N, yN, arg["flag"]) if f == "valscore" else E.outcome(getattr(m, f), N)
                ev.append({"ev": "use", "cls": cls, "op": f, "arg": arg, "out": out, "full": False, "ans": {}})
    return ev


def same(a, b):
    return set(a) == set(b) and all((a[k] is b[k]) or (type(a[k]) is type(b[k]) and a[k] == b[k]) for k in a)


def plots(case):
    import matplotlib.pyplot as plt

    from direpack.plot.ppdire_plot import ppdire_plot
    from direpack.plot.sprm_plot import sprm_plot, sprm_plot_cv
    from direpack.plot.sudire_plot import sudire_plot

    P = {"sprm": sprm_plot, "ppdire": ppdire_plot, "sudire": sudire_plot}
    b = Box(case)
    b.par["n_components"] = 2
    m = b.make(b.par)
    X, y, d = b.data("A")
    b.fit(m, X, y)
    ev = []

    def ask(ok, f, *a, **k):
        _, out = E.outcome(f, *a, **k)
        plt.close("all")
        ev.append({"ev": "ask", "ok": ok, "out": out})

    cls = case["cls"]
    other = {"sprm": "ppdire", "ppdire": "sudire", "sudire": "sprm"}[cls]
    o = Box({**case, "cls": other, "base": {"n_components": 2}})
    om = o.make(o.par)
    o.fit(om, X, y)
    col = ["white", "w", "blue", "k", "k", "r", "g", "c"]
    ask(True, P[cls], m, col)
    ask(False, P[cls], om, col)
    ask(False, P[cls], 3, col)
    pl = P[cls](m, col)
    ask(False, pl.plot_projections, onlyval=True)
    ask(False, pl.plot_yyp, ytruev=[], onlyval=True)
    if cls == "sprm":
        ask(False, pl.plot_caseweights, onlyval=True)
        ask(False, pl.plot_caseweights, mode="foo")
        ask(True, pl.plot_caseweights, mode="x")
    return ev
