"""C01: column location and scale estimates."""
import itertools

import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C01"
ASSUMPTIONS = [
    "estimates compared with tolerance 1e-9 (location) / 1e-7 (scale) relative to the column",
    "trimming fractions are chosen so that fraction*n is not within rounding of an integer",
]


def models(tier):
    inv = "INVARIANT RoundTrip StoredOnly Affine Exchange Standard\n"
    cfgs = ["CONSTANTS Vals = {0, 1, 3} NRows = 4 MaxSteps = 1\n"]
    if tier == "thorough":
        cfgs = ["CONSTANTS Vals = {0, 1, 3} NRows = 5 MaxSteps = 1\n",
                "CONSTANTS Vals = {0, 1, 2, 5} NRows = 4 MaxSteps = 1\n"]
    rat = {"module": "MC_Rat", "cfg": "INIT Init\nNEXT Next\nINVARIANT Ring Field Order Roots Special Seqs Mats Except\nCONSTANT N = %d\n" % (3 if tier == "quick" else 5)}
    return [{"module": "MC_Scaler", "cfg": "INIT Init\nNEXT Next\n" + inv + c} for c in cfgs] + [rat]


CENTERS = ["mean", "median", "None"]
SCALES = ["std", "mad", "None"]


def cases(tier, seed, gen):
    out = []
    # small scope: every 1-column data set over few values (ties, constants, odd/even n)
    k = 0
    nmax = 4 if tier == "quick" else 5
    for n in range(1, nmax + 1):
        for c in itertools.combinations_with_replacement([-2.0, 0.0, 1.0, 1.5], n):
            v = list(c)
            v = v[::2] + v[1::2]
            for trim in ([0.0] if n < 4 else [0.0, 0.26]):
                k += 1
                out.append({"id": f"small-{k}", "X": [[x] for x in v], "trim": trim,
                            "opts": [["mean", "std"], ["median", "mad"]] if trim == 0 else [["mean", "std"]],
                            "kind": "array"})
    rng = D.RNG(1000 + seed)
    reps = 6 if tier == "quick" else 60
    kinds = ["array", "frame", "matrix", "fortran", "object", "strided"]
    for r in range(reps):
        for n, p in [(1, 1), (2, 3), (5, 1), (6, 2), (9, 4), (12, 3), (25, 5), (40, 2), (4, 9)]:
            if n == 1 and p > 1:
                continue
            X = D.normal(rng, n, p, scale=10.0 ** rng.integers(-3, 4), loc=float(rng.integers(-50, 50)))
            if n > 5:
                X = D.outliers(rng, X)
            if rng.random() < 0.3 and p > 1:
                X[:, 0] = X[0, 0]  # constant column
            if rng.random() < 0.3 and n > 6:
                X[: n // 2 + 1, -1] = X[0, -1]  # mad = 0, not constant
            kind = kinds[int(rng.integers(len(kinds)))]
            trim = 0.0 if n < 5 else float([0.0, 0.0, 0.0, 0.155, 0.26, 0.41][int(rng.integers(6))])
            nan = rng.random() < 0.3 and n > 4 and trim == 0
            if nan:
                X = D.with_nan(rng, X)
            opts = [[a, b] for a in CENTERS for b in SCALES]
            if trim > 0:
                opts = [["mean", "std"], ["median", "mad"], ["mean", "mad"], ["median", "std"]]
            idx = rng.permutation(len(opts))[:4]
            out.append({"id": f"rnd-{r}-{n}x{p}", "X": X.tolist(), "trim": trim, "kind": kind,
                        "opts": [opts[i] for i in idx]})
        for n in (7, 8, 15, 30):
            x = D.outliers(rng, D.normal(rng, n, 1, 3.0, 1.0))
            out.append({"id": f"tau-{r}-{n}", "X": x.tolist(), "trim": 0.0, "kind": "array",
                        "opts": [["median", "scaleTau2"]]})
    # integer data, callables, all-missing column, large offset
    out.append({"id": "int", "X": [[1.0, 2.0], [3.0, 2.0], [8.0, -4.0], [0.0, 6.0]], "trim": 0.0, "kind": "int",
                "opts": [["mean", "std"], ["median", "mad"], ["None", "None"]]})
    out.append({"id": "callable", "X": D.normal(rng, 9, 3).tolist(), "trim": 0.0, "kind": "array",
                "opts": [["mean", "std"], ["median", "mad"]], "callable": True})
    for r in range(reps):
        n = int(rng.integers(5, 30))
        x = D.outliers(rng, D.normal(rng, n, 1, 3.0, 1.0))
        out.append({"id": f"util-{r}", "X": x.tolist(), "trim": 0.0, "kind": ["array", "fortran"][r % 2], "opts": [], "util": True})
        X = D.outliers(rng, D.normal(rng, n, 3, 2.0, -1.0))
        out.append({"id": f"callable-{r}", "X": X.tolist(), "trim": [0.0, 0.26][r % 2] if n > 8 else 0.0, "kind": kinds[r % len(kinds)], "callable": True,
                    "opts": [["mean", "None"], ["None", "std"], ["median", "std"], ["mean", "mad"]]})
    for r in range(reps):
        n, kind = int(rng.integers(5, 20)), ["int", "int32", "intframe", "readonly", "int16"][r % 5]
        X = np.round(D.outliers(rng, D.normal(rng, n, 1 + r % 3, 9.0, 3.0)))
        out.append({"id": f"whole-{r}", "X": X.tolist(), "trim": 0.0, "kind": kind,
                    "opts": [["median", "scaleTau2"], ["mean", "std"]] if r % 3 == 0 else [["median", "mad"], ["mean", "std"], ["mean", "mad"]]})
        x = np.round(D.outliers(rng, D.normal(rng, n, 1, 9.0, 3.0)))
        out.append({"id": f"wholeutil-{r}", "X": x.tolist(), "trim": 0.0, "kind": ["int", "int32", "readonly"][r % 3], "opts": [], "util": True})
    out.append({"id": "vector", "X": D.normal(rng, 9, 1).tolist(), "trim": 0.0, "kind": "vector",
                "opts": [["mean", "std"], ["median", "mad"]]})
    out.append({"id": "offset", "X": (D.normal(rng, 11, 2) + 1e6).tolist(), "trim": 0.0, "kind": "array",
                "opts": [["mean", "std"], ["median", "mad"]]})
    out.append({"id": "kf-tau2-multivariate", "X": D.normal(D.RNG(5), 12, 2).tolist(), "trim": 0.0, "kind": "array",
                "opts": [["median", "scaleTau2"]]})
    return out


def run_case(case):
    from direpack.preprocessing import _preproc_utilities as U
    from direpack.preprocessing.robcent import VersatileScaler

    X = np.array(case["X"], dtype=float)
    ev = []
    for c, s in case["opts"]:
        Xin = D.container(X, case["kind"])
        cc, ss = c, s
        if case.get("callable"):
            cc, ss = (v if v == "None" else getattr(U, v) for v in (c, s))
        vs = VersatileScaler(center=cc, scale=ss, trimming=case["trim"] if case["trim"] else 0)
        _, out = E.outcome(vs.fit, Xin)
        e = {"ev": "fit", "center": c, "scale": s, "trimming": float(case["trim"]), "X": X.tolist(), "out": out}
        if out == "ok":
            e["c"] = E.vec(vs.center_)
            e["s"] = E.vec(vs.scale_)
            if E.vec(vs.col_loc_) != e["c"] and not np.isnan(np.sum(e["c"])):
                e["out"] = "col_loc_ differs from center_"
            if E.vec(vs.col_sca_) != e["s"] and not np.isnan(np.sum(e["s"])):
                e["out"] = "col_sca_ differs from scale_"
        ev.append(e)
        ev.append({"ev": "unchanged", "X": [], "same": bool(np.array_equal(np.array(Xin, dtype=float).ravel(), X.ravel(), equal_nan=True))})
    if case.get("util"):
        Xin = D.container(X, case["kind"])
        for c1 in (0, 4.5, 3.0):
            for c2 in (2, 3, 4):
                for corr, arg in (("no", False), ("yes", True), ("finite", "finiteSample")):
                    v, out = E.outcome(U.scaleTau2, Xin, c1=c1, c2=c2, consistency=arg)
                    ev.append({"ev": "tau", "X": case["X"], "out": out, "val": E.vec(v), "c1": c1, "c2": c2, "corr": corr})
        for c in (1.0, 0.5, 0.6744897501960817):
            v, out = E.outcome(U.mad, Xin, c=c)
            ev.append({"ev": "mad", "X": case["X"], "out": out, "val": E.vec(v), "c": c})
        ev.append({"ev": "unchanged", "X": [], "same": bool(np.array_equal(Xin, X))})
    return ev
