"""C17: plots show every case where the model puts it, in its group and with its own name."""
import copy

import numpy as np
import pandas as pd

from harness import data as D
from harness import enc as E

TRACE = "T_C17"
CASE_LIMIT = 120
ASSUMPTIONS = ["what a plot shows is read from the artists on its axes (Agg backend)", "at least six new cases, in general position"]
GEN = {t: [{"module": "Gen_C17", "cfg": "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"}] for t in ("quick", "thorough")}
COL = ["#ffffff", "#eeeeee", "#112233", "#445566", "#778899", "#aa1100", "#00bb22", "#3300cc"]


def models(tier):
    return [{"module": "MC_Plot", "cfg": "INIT Init\nNEXT Next\nINVARIANT EveryCaseOnce Ordered KeepsExtremes Labelled AtMost\nCONSTANTS N = %d WVals = {0, 1, 2} BVals = {1, 2, 3} Cuts = {0, 1, 2, 3}\n"
             "CHECK_DEADLOCK FALSE\n" % (4 if tier == "quick" else 5), "timeout": 1500}]


def dataset(rng, n, p):
    X = rng.normal(size=(n, p)) @ (np.eye(p) + 0.3 * rng.normal(size=(p, p))) + rng.integers(-3, 4, size=p)
    y = X @ (rng.normal(size=p) + 1) + 0.3 * rng.normal(size=n)
    big = rng.choice([1, 1, 32, 2048])  # also cases with positive but tiny weights
    for k in range(3):
        X[k] += 9 * (big if k == 0 else 1) * rng.choice([-1, 1], size=p) * (k < 2)
        y[k] += 25 * big * rng.choice([-1, 1]) * (k > 0)
    q = rng.permutation(n)
    return D.grid(X[q], 64).tolist(), D.grid(y[q], 64).tolist()


def cases(tier, seed, gen):
    rng = D.RNG(17000 + seed)
    reqs = sorted(gen, key=lambda r: sorted(r.items()).__repr__())
    out = []
    by = {o: [r for r in reqs if r["obj"] == o] for o in ("sprm", "ppdire", "sudire")}
    for rep in range(1 if tier == "quick" else 4):
        for o, rs in by.items():
            rs = [rs[i] for i in rng.permutation(len(rs))]
            for k in range(0, len(rs), 4):
                p = int(rng.integers(4, 8))
                out.append({"id": f"{o}-{rep}-{k // 4}", "obj": o, "reqs": rs[k:k + 4], "A": dataset(rng, int(rng.integers(14, 20)), p), "V": dataset(rng, int(rng.integers(6, 10)), p),
                            "fun": ["Hampel", "Huber", "Hampel", "Fair"][int(rng.integers(4))], "yk": ["vector", "col", "series", "frame"][int(rng.integers(4))],
                            "xk": ["array", "frame"][int(rng.integers(2))], "vk": ["vector", "col"][int(rng.integers(2))], "zero": bool(rng.random() < 0.3),
                            "marks": [["o", "d", "v"], ["s", "^", "D"]][int(rng.integers(2))], "trunc": [0.125, 0.3125, 0.5, 0.75, 1.0][int(rng.integers(5))],
                            "cols": ["array", "list", "index", "tuple"][int(rng.integers(4))], "h": int(rng.integers(2, 4))})
    for k in range(6 if tier == "quick" else 30):
        out.append({"id": f"cv-{k}", "obj": "cv", "A": dataset(rng, 18, 4)})
    return out


def artists(ax, fig, marks):
    from matplotlib import colors as mc
    from matplotlib.collections import PathCollection
    from matplotlib.lines import Line2D
    from matplotlib.markers import MarkerStyle
    from matplotlib.text import Annotation

    fig.canvas.draw()
    sc = []
    for c in ax.collections:
        if not isinstance(c, PathCollection):
            continue
        off = np.ma.getdata(c.get_offsets())
        mk = "?"
        for m in marks:
            st = MarkerStyle(m)
            pth = st.get_path().transformed(st.get_transform())
            if len(c.get_paths()) and c.get_paths()[0].vertices.shape == pth.vertices.shape and np.allclose(c.get_paths()[0].vertices, pth.vertices):
                mk = m
        fc = c.get_facecolor()
        sc.append({"pts": [[float(a), float(b)] for a, b in off], "color": mc.to_hex(fc[0]) if len(fc) else "none", "marker": mk, "haslabel": "Resp" in str(c.get_label())})
    notes = [{"text": t.get_text(), "xy": [float(v) for v in t.xy]} for t in ax.texts if isinstance(t, Annotation)]
    bars = sorted(({"x": float(b.get_x() + b.get_width() / 2), "h": float(b.get_height()), "color": mc.to_hex(b.get_facecolor())} for b in ax.patches), key=lambda d: d["x"])
    for b in bars:
        b["x"] = round(b["x"], 9)
    ticks = {round(float(v), 6): t.get_text() for v, t in zip(ax.get_xticks(), ax.get_xticklabels())}
    lines = [{"color": mc.to_hex(ln.get_color()), "pts": [[float(a), float(b)] for a, b in ln.get_xydata()]} for ln in ax.lines if isinstance(ln, Line2D)]
    return {"scatter": sc, "notes": notes, "bars": bars, "ticks": [ticks.get(round(b["x"], 6), "") for b in bars], "lines": lines, "title": ax.get_title()}


def model(case, X, y):
    from direpack.dicomo.dicomo import dicomo
    from direpack.ppdire.ppdire import ppdire
    from direpack.sprm.sprm import sprm
    from direpack.sudire.sudire import sudire

    if case["obj"] == "sprm":
        m = sprm(n_components=case["h"], eta=0.1, fun=case["fun"], verbose=False)
    elif case["obj"] == "ppdire":
        m = ppdire(projection_index=dicomo, pi_arguments={"mode": "cov"}, n_components=case["h"], verbose=False)
    else:
        m = sudire(sudiremeth="sir", n_components=case["h"], verbose=False)
    return m.fit(X, y)


def snapshot(m):
    return {k: np.array(v, dtype=float) for k, v in vars(m).items() if k.endswith("_") and isinstance(v, (np.ndarray, float, int)) and not isinstance(v, bool)}


def run_case(case):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as pp

    from direpack.plot.ppdire_plot import ppdire_plot
    from direpack.plot.sprm_plot import sprm_plot, sprm_plot_cv
    from direpack.plot.sudire_plot import sudire_plot
    from harness.props.c10 import ybox

    pp.close("all")
    X, y = np.array(case["A"][0]), np.array(case["A"][1])
    if case["obj"] == "cv":
        return contour(X, y, sprm_plot_cv, pp)
    V, yv = np.array(case["V"][0]), np.array(case["V"][1])
    if case["zero"] and case["obj"] == "sprm":
        X[:, 1] = 2.0
        V[:, 1] = 2.0
    m = model(case, D.container(X, case["xk"]), ybox(y, case["yk"]))
    P = {"sprm": sprm_plot, "ppdire": ppdire_plot, "sudire": sudire_plot}[case["obj"]](m, list(COL), markers=list(case["marks"]))
    mk = case["marks"]
    weighted = case["obj"] == "sprm"
    look = {"train": {"regular": {"color": COL[2], "marker": mk[0]}, "moderate": {"color": COL[2], "marker": mk[1]}, "harsh": {"color": COL[6], "marker": mk[2]}},
            "new": {"regular": {"color": COL[5], "marker": mk[0]}, "moderate": {"color": COL[5], "marker": mk[1]}, "harsh": {"color": COL[7], "marker": mk[2]}}, "diag": COL[3]}
    ev = []
    if not weighted:
        _, out = E.outcome({"ppdire": ppdire_plot, "sudire": sudire_plot}[case["obj"]], object(), list(COL))
        ev.append({"ev": "rejected", "out": out})
    for k, q in enumerate(case["reqs"]):
        pp.close("all")
        names, namesv = ["t%d" % (i + 1) for i in range(len(X))], ["v%d" % (i + 1) for i in range(len(V))]
        kw = {}
        if q["names"] == "all":
            kw["names"] = names if k % 2 else tuple(names)
        if q["namesv"] == "all":
            kw["namesv"] = namesv
        if q["label"] != "none":
            kw["label"] = "Resp" if q["label"] == "str" else ["Resp"]
        title = "A title" if k % 2 else ""
        if title:
            kw["title"] = title
        before, X0, V0, p0 = snapshot(m), X.copy(), V.copy(), copy.deepcopy(m.get_params())
        Vb = D.container(V, case["xk"])
        if q["kind"] == "coef":
            kw.pop("names", None)
            cols = np.array(["x%d" % j for j in range(X.shape[1])])
            cols_ = {"array": cols, "list": cols.tolist(), "index": pd.Index(cols), "tuple": tuple(cols.tolist())}[case["cols"]]
            ent = "coef_" if q["names"] == "none" else "coef_scaled_"
            if q["opt"] & 1:
                kw["columns"] = cols_
            if q["opt"] & 2:
                kw["truncation"] = case["trunc"]
            _, out = E.outcome(P.plot_coeffs, entity=ent, **kw)
            keep = np.ravel(m.non_zero_scale_vars_).astype(int)
            b = np.ravel(getattr(m, ent)).astype(float).tolist()
            e = {"ev": "coef", "out": out, "b": b, "trunc": case["trunc"] if q["opt"] & 2 else 0.0, "hasnames": bool(q["opt"] & 1),
                 "varnames": cols[keep].tolist() if q["opt"] & 1 else [str(j) for j in range(len(b))], "asktitle": title}
        else:
            if q["new"]:
                kw["Xn"] = Vb
                if q["kind"] == "yyp":
                    kw["ytruev"] = yv if case["vk"] == "vector" else yv.reshape(-1, 1)
            kw["onlyval"] = q["onlyval"]
            e = {"ev": "scatter", "train": not q["onlyval"], "new": q["new"], "named": q["names"] == "all", "namedv": q["namesv"] == "all", "names": names, "namesv": namesv,
                 "weighted": weighted, "look": look, "asktitle": title, "asklabel": q["label"] != "none", "kind": q["kind"]}
            if weighted:
                e["w"] = np.ravel(m.caseweights_).astype(float).tolist()
                e["wv"] = np.ravel(m.weightnewx(V)).astype(float).tolist()
            if q["kind"] == "yyp":
                f = m.ols_obj_.fittedvalues if case["obj"] == "sudire" else m.fitted_
                e["P"] = [[float(a), float(b)] for a, b in zip(y, np.ravel(f))]
                e["Pv"] = [[float(a), float(b)] for a, b in zip(yv, np.ravel(m.predict(V)))]
                fn = P.plot_yyp
            elif q["kind"] == "proj":
                c = [0, 1] if q["opt"] == 0 else [1, 0] if case["h"] == 2 else [2, 1]
                if q["opt"]:
                    kw["components"] = c
                Tt, Tv = np.asarray(m.x_scores_), np.asarray(m.transform(V))
                e["P"], e["Pv"] = Tt[:, c].tolist(), Tv[:, c].tolist()
                fn = P.plot_projections
            else:
                mode = ["overall", "x", "y"][q["opt"]]
                if q["opt"]:
                    kw["mode"] = mode
                e["ev"] = "weights"
                e["w"] = np.ravel({"overall": m.caseweights_, "x": m.x_caseweights_, "y": m.y_caseweights_}[mode]).astype(float).tolist()
                fn = P.plot_caseweights
            if q["onlyval"] and not q["new"]:
                e = {"ev": "rejected"}
            _, out = E.outcome(fn, **kw)
            e["out"] = out
        if e["ev"] != "rejected" and out == "ok":
            fig = pp.gcf()
            e.update(artists(fig.axes[0], fig, mk))
        ev.append(e)
        after = snapshot(m)
        same = set(before) == set(after) and all(np.array_equal(before[a], after[a], equal_nan=True) for a in before)
        same = same and np.array_equal(X, X0) and np.array_equal(V, V0) and np.array_equal(np.asarray(Vb), V0) and str(p0) == str(m.get_params())
        ev.append({"ev": "unchanged", "same": bool(same)})
    if weighted:
        _, out = E.outcome(P.plot_caseweights, mode="z")
        ev.append({"ev": "rejected", "out": out})
    pp.close("all")
    return ev


def contour(X, y, sprm_plot_cv, pp):
    from matplotlib.axes import Axes
    from sklearn.model_selection import GridSearchCV, KFold

    from direpack.sprm.sprm import sprm

    g = GridSearchCV(sprm(verbose=False), {"n_components": [1, 2, 3], "eta": [0.1, 0.4, 0.7]}, cv=KFold(3), scoring="neg_mean_absolute_error").fit(X, y)
    rec = {}
    real = Axes.tricontour

    def spy(self, x, y_, z, *a, **k):
        rec.update(x=E.vec(x), y=E.vec(y_), z=E.vec(z))
        return real(self, x, y_, z, *a, **k)

    Axes.tricontour = spy
    try:
        _, out = E.outcome(sprm_plot_cv(g, list(COL)).eta_ncomp_contour)
    finally:
        Axes.tricontour = real
    pp.close("all")
    r = g.cv_results_
    grid = [[float(q["eta"]), float(q["n_components"]), float(v)] for q, v in zip(r["params"], r["mean_test_score"])]
    grid = [t for t in grid if np.isfinite(t[2])]
    return [dict({"ev": "contour", "out": out if rec else "no-surface", "grid": grid}, **rec)]
