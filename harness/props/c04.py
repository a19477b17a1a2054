"""C04: generalised spatial signs."""
import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C04"
ASSUMPTIONS = ["p <= n (the cut-off order statistic exists)", "hard-rejection boundaries within 1e-9 accept both weights"]
FUNS = ["ss", "quad", "winsor", "ball", "shell", "linear_redescending"]
CENT = ["mean", "median", "l1median", "kstepLTS", "None"]


def models(tier):
    n = 5 if tier == "quick" else 8
    return [{"module": "MC_Gss", "cfg": "INIT Init\nNEXT Next\nINVARIANT Bounded InnerKept Monotone BoundedRadius\n"
             "CONSTANTS Vals = {0, 1, 2, 5, 7} N = %d P = %d\n" % (n, p)} for p in (1, 2)]


def cases(tier, seed, gen):
    rng = D.RNG(4000 + seed)
    out = []
    reps = 5 if tier == "quick" else 50
    kinds = ["array", "frame", "fortran", "object"]
    for r in range(reps):
        for n, p in [(5, 2), (8, 3), (9, 3), (12, 5), (15, 1), (20, 4), (21, 2), (6, 6), (10, 10)]:
            X = D.normal(rng, n, p, float([1, 4][int(rng.integers(2))]), float(rng.integers(-3, 4)))
            if rng.random() < 0.6:
                X = D.outliers(rng, X, 0.2, 12.0)
            out.append({"id": f"gss-{r}-{n}x{p}", "X": X.tolist(), "kind": kinds[int(rng.integers(len(kinds)))],
                        "centers": [CENT[int(k)] for k in rng.permutation(5)[:2 if p == 1 else 3]]})
    # integer geometry: many exact ties of the norms
    for k, pts in enumerate([[[0, 0], [1, 0], [0, 1], [-1, 0], [0, -1], [2, 0], [0, 3]],
                             [[3, 4], [4, 3], [5, 0], [0, 5], [10, 0], [0, 1], [1, 0], [0, 0]]]):
        out.append({"id": f"ties-{k}", "X": [[float(a) for a in q] for q in pts], "kind": "array", "centers": ["None"]})
    out.append({"id": "kf-gss-newdata", "X": D.normal(D.RNG(1), 10, 2).tolist(), "kind": "array", "centers": [],
                "new": D.normal(D.RNG(2), 6, 2).tolist()})
    return D.retype(out, "kind", ["X"])


def run_case(case):
    from direpack.preprocessing import _gsspp_utils as G
    from direpack.preprocessing import _preproc_utilities as U
    from direpack.preprocessing.gsspp import GenSpatialSignPreProcessor, gen_ss_covmat, gen_ss_pp

    X = np.array(case["X"], dtype=float)
    n, p = X.shape
    ev = []
    if case.get("new"):
        g = GenSpatialSignPreProcessor(center="mean", fun="winsor")
        g.fit(X)
        Z, out = E.outcome(g.transform, np.array(case["new"]))
        return [{"ev": "gss-new", "X": case["new"], "c": [0.0] * p, "out": out, "Z": E.arr(Z)}]
    for center in case["centers"]:
        for fun in FUNS:
            Xin = D.container(X, case["kind"])
            g = GenSpatialSignPreProcessor(center=center, fun=fun)
            Z, out = E.outcome(g.fit_transform, Xin)
            c = E.vec(g.centring_.center_) if out == "ok" else [0.0] * p
            base = {"X": case["X"], "center": center, "fun": fun}
            ev.append(dict(base, ev="gss", out=out, Z=E.arr(Z), c=c))
            if fun == "ss" and out == "ok":
                exp = E.vec(getattr(U, center)(X)) if center in ("l1median", "kstepLTS") else "none"
                ev.append(dict(base, ev="gss-center", c=c, expect=exp))
            Z2, out2 = E.outcome(gen_ss_pp, Xin, center=center, fun=fun)
            ev.append(dict(base, ev="gss", out=out2, Z=E.arr(Z2), c=c))
            V, out3 = E.outcome(gen_ss_covmat, Xin, center=center, fun=fun if len(fun) % 2 else getattr(G, fun))
            ev.append(dict(base, ev="gss-cov", out=out3, V=E.arr(V), Z=E.arr(Z), c=c))
            if fun == "winsor":
                Zt, outt = E.outcome(g.transform, Xin)
                ev.append(dict(base, ev="gss", out=outt, Z=E.arr(Zt), c=c))
                Zc, outc = E.outcome(gen_ss_pp, Xin, center=center if center == "None" else getattr(U, center), fun=getattr(G, fun))
                ev.append(dict(base, ev="gss", out=outc, Z=E.arr(Zc), c=c))
            if fun in ("quad", "shell"):    # functions instead of their names
                g2 = GenSpatialSignPreProcessor(center=center if center == "None" else getattr(U, center), fun=getattr(G, fun))
                Zc, outc = E.outcome(g2.fit_transform, Xin)
                ev.append(dict(base, ev="gss", out=outc, Z=E.arr(Zc), c=c))
    return ev
