"""C03: robust multivariate location."""
import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C03"
ASSUMPTIONS = ["l1median: objective within 1e-6 (relative) of any rival produced by Weiszfeld steps",
               "k-step LTS: cases within 1e-9 of the cut-off distance are treated as ambiguous"]


def models(tier):
    n = 5 if tier == "quick" else 7
    return [{"module": "MC_Location", "cfg":
             "SPECIFICATION Spec\nPROPERTY Descent\nINVARIANT StepAgrees WDescent\nCONSTANTS N = %d MaxK = 3\n"
             "CONSTANT Pts <- PtsDef\n" % n}]


def cases(tier, seed, gen):
    rng = D.RNG(3000 + seed)
    out = []
    reps = 12 if tier == "quick" else 120
    for r in range(reps):
        for n, p in [(5, 2), (8, 2), (7, 3), (12, 4), (20, 3), (15, 1), (30, 5), (6, 8), (9, 2)]:
            X = D.normal(rng, n, p, float([1, 3, 20][int(rng.integers(3))]), float(rng.integers(-4, 5)), k=1024)
            if rng.random() < 0.6:
                X = D.outliers(rng, X, 0.2, 30.0)
            nan = bool(rng.random() < 0.25 and n > 7)
            if nan:
                Y = D.with_nan(rng, X, 0.08)
                X = np.where((np.isnan(Y).sum(axis=1) > p - 2).reshape(-1, 1), X, Y)   # a single observed entry: see kf-l1-kink
            if rng.random() < 0.2 and n > 6:
                X[3] = X[1]
            out.append({"id": f"loc-{r}-{n}x{p}", "X": X.tolist(), "x0": bool(rng.random() < 0.3)})
    for r in range(reps):
        n, p = [(8, 2), (7, 3), (15, 4), (20, 2)][r % 4]
        X = np.round(D.outliers(rng, D.normal(rng, n, p, 9.0, float(rng.integers(-4, 5))), 0.2, 30.0))
        out.append({"id": f"type-{r}", "X": X.tolist(), "x0": False, "box": ["int", "float32", "int32", "readonly", "fortran", "matrix"][r % 6]})
    out.append({"id": "kf-l1-kink", "X": [[-56.5, 48.328125], [1.35546875, np.nan], [3.6552734375, 1.724609375], [1.35546875, np.nan], [2.0908203125, 1.15625],
                                          [2.02734375, 0.9365234375], [1.07421875, np.nan], [2.330078125, 1.9716796875]], "x0": False})
    for r in range(20 if tier == "quick" else 200):
        n, p = int(rng.integers(6, 26)), int(rng.integers(2, 6))
        X = D.normal(rng, n, p, 2.0, 0.0)
        bad = int(rng.integers(1, (n - 1) // 2 + 1)) if r % 2 else (n - 1) // 2
        if n - 2 * bad < 2:
            bad = (n - 2) // 2
        mag = 10.0 ** rng.integers(3, 7)
        X[:bad] += D.grid(mag * rng.normal(size=(1 if r % 3 else bad, p)), 4)
        out.append({"id": f"bd-{r}-{n}x{p}-{bad}", "X": X.tolist(), "bad": bad, "x0": False, "shift": [float(v) for v in rng.integers(-200, 200, p)]})
    return out


def run_case(case):
    from direpack.preprocessing import _preproc_utilities as U
    from direpack.preprocessing.robcent import VersatileScaler

    X = D.container(np.array(case["X"], dtype=float), case.get("box", "array"))
    n, p = X.shape
    ev = []
    keep = X.copy()
    m, out = E.outcome(U.l1median, X)
    ev.append({"ev": "l1median", "X": case["X"], "out": out, "m": E.vec(m), "tol": 1e-6})
    if case["x0"] and p > 1 and not np.isnan(X).any():
        m2, out2 = E.outcome(U.l1median, X, x0=np.mean(X, axis=0))
        ev.append({"ev": "l1median", "X": case["X"], "out": out2, "m": E.vec(m2), "tol": 1e-6})
    vs = VersatileScaler(center="l1median", scale="None")
    _, out3 = E.outcome(vs.fit, X)
    ev.append({"ev": "l1median", "X": case["X"], "out": out3, "m": E.vec(getattr(vs, "center_", None)), "tol": 1e-6})
    if case.get("box") == "float32":  # single precision: the subset can differ by rounding, so only that it works is judged
        b, o = E.outcome(U.kstepLTS, X)
        ev.append({"ev": "equiv", "X": case["X"], "out": o, "m": E.vec(b), "expect": E.vec(b), "tol": 1e-4})
    elif p > 1:
        k0, o0 = E.outcome(U.kstepLTS, X, maxit=0)
        ev.append({"ev": "kstart", "X": case["X"], "out": o0, "m": E.vec(k0), "l1": E.vec(m)})
        prev = E.vec(k0)
        for k in range(1, 6):
            mk, ok = E.outcome(U.kstepLTS, X, maxit=k)
            ev.append({"ev": "kstep", "X": case["X"], "out": ok, "m": E.vec(mk), "prev": prev})
            prev = E.vec(mk)
        md, od = E.outcome(U.kstepLTS, X)
        ev.append({"ev": "kfinal", "X": case["X"], "out": od, "m": E.vec(md), "prev": prev})
        vs = VersatileScaler(center="kstepLTS", scale="None")
        _, od = E.outcome(vs.fit, X)
        ev.append({"ev": "kfinal", "X": case["X"], "out": od, "m": E.vec(getattr(vs, "center_", None)), "prev": prev})
    if "bad" in case:
        for f, steps in ((U.l1median, 2), (U.kstepLTS, 64)):
            b, o = E.outcome(f, X)
            ev.append({"ev": "breakdown", "X": case["X"], "out": o, "m": E.vec(b), "bad": case["bad"], "steps": steps})
        G = X[case["bad"]:]
        g = U.l1median(G)
        sh = np.array(case["shift"])
        perm = np.random.RandomState(1).permutation(len(G))
        for Z, exp in ((G + sh, g + sh), (G[perm], g), (G * 4, g * 4)):
            b, o = E.outcome(U.l1median, Z)
            ev.append({"ev": "equiv", "X": Z.tolist(), "out": o, "m": E.vec(b), "expect": E.vec(exp), "tol": 1e-4})
    if not np.array_equal(keep, X, equal_nan=True):
        ev.append({"ev": "equiv", "X": keep.tolist(), "out": "raise:input-mutated"})
    return ev
