"""C05: wrapping transformation."""
import numpy as np

from harness import data as D
from harness import enc as E

TRACE = "T_C05"
ASSUMPTIONS = ["values within 1e-9 of a breakpoint accept both branches"]


def models(tier):
    return [{"module": "MC_Wrap", "cfg": "INIT Init\nNEXT Next\nINVARIANT Odd BoundedOut Core Rejected Redescends "
             "Continuous\nCONSTANT K = %d\n" % (80 if tier == "quick" else 800)}]


GEN = {"quick": [{"module": "Gen_C05", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 3\n"}],
       "thorough": [{"module": "Gen_C05", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 4\n"}]}


def cases(tier, seed, gen):
    rng = D.RNG(5000 + seed)
    out = []
    kinds = ["array", "frame", "object", "strided", "fortran"]
    for k, h in enumerate(gen):
        p = int(rng.integers(1, 5))
        n = int(rng.integers(5, 25))
        m = int(rng.integers(2, 9))
        A = D.normal(rng, n, p, 2.0, 3.0)
        A[rng.random(A.shape) < 0.15] *= 4
        A[rng.random(A.shape) < 0.1] *= -9
        A = D.grid(A)
        B = D.normal(rng, m, p, 9.0, -1.0)
        if rng.random() < 0.3:
            A[:, 0] = 2.0
        if rng.random() < 0.3:
            A[: n // 2 + 1, -1] = A[0, -1]
        if rng.random() < 0.2:
            A = D.with_nan(rng, A)
        # the plug-in estimators are attributes of the object: median and MAD unless replaced
        plug = [("median", "mad", 0.0)] * 6 + [("mean", "std", 0.0), ("mean", "mad", 0.1), ("None", "mad", 0.0), ("median", "None", 0.0), ("None", "None", 0.0), ("mean", "std", 0.1)]
        o = plug[int(rng.integers(len(plug)))]
        if np.isnan(A).any():
            o = o[:2] + (0.0,)
        out.append({"id": f"h{k}", "o": {"center": o[0], "scale": o[1], "trimming": o[2]}, "callable": bool(rng.random() < 0.3), "A": A.tolist(), "B": B.tolist(), "one": D.normal(rng, 1, p, 6.0).tolist(),
                    "hist": h, "kind": kinds[int(rng.integers(len(kinds)))]})
    return D.retype(out, "kind", ["A", "B", "one"])


def run_case(case):
    from direpack.preprocessing import _preproc_utilities as U
    from direpack.preprocessing._preproc_utilities import mad, median, wrap_univ
    from direpack.preprocessing.robcent import Wrapper, wrap

    w = Wrapper()
    o = case["o"]
    call = case["callable"] and "None" not in (o["center"], o["scale"])
    if o != {"center": "median", "scale": "mad", "trimming": 0.0} or call:
        w.center, w.scale = (getattr(U, o["center"]), getattr(U, o["scale"])) if call else (o["center"], o["scale"])
        w.trimming = o["trimming"]
    sets = {k: np.array(case[k], dtype=float) for k in ("A", "B", "one")}
    ev = []
    for op, arg in case["hist"]:
        X = sets[arg]
        Xin = D.container(X, case["kind"])
        before = np.array(Xin, dtype=float)
        e = {"X": X.tolist(), "o": o}
        if op == "fit":
            _, e["out"] = E.outcome(w.fit, Xin)
            e["ev"] = "fit"
        elif op == "ft":
            Z, e["out"] = E.outcome(w.fit_transform, Xin)
            e["ev"], e["Z"] = "fit_transform", E.arr(Z)
        elif op == "fun":
            # the function form, with the stored estimates handed over
            Z, e["out"] = E.outcome(lambda: wrap(np.array(Xin, dtype=float), w.center_, w.scale_))
            e["ev"], e["Z"] = "wrap", E.arr(Z)
        else:
            Z, e["out"] = E.outcome(getattr(w, op), Xin)
            e["ev"], e["Z"] = "wrap", E.arr(Z)
        e["c"], e["s"] = E.vec(getattr(w, "center_", None)), E.vec(getattr(w, "scale_", None))
        ev.append(e)
        ev.append({"ev": "unchanged", "X": [],
                   "same": bool(np.array_equal(before, np.array(Xin, dtype=float), equal_nan=True))})
    A = sets["A"]
    v = A[~np.isnan(A).any(axis=1), 0]
    if len(v) > 1:
        for sc in (False, True):
            v0 = v.copy()
            Z, out = E.outcome(wrap_univ, v0, scale=True) if sc else E.outcome(wrap_univ, v0)
            ev.append({"ev": "univ", "X": [], "x": v.tolist(), "z": E.vec(Z), "out": out, "scale": sc})
            ev.append({"ev": "unchanged", "X": [], "same": bool(np.array_equal(v, v0))})
    Z, out = E.outcome(lambda: wrap(A, median(A), mad(A)))
    ev.append({"ev": "fit_transform", "X": case["A"], "o": {"center": "median", "scale": "mad", "trimming": 0.0}, "out": out, "Z": E.arr(Z), "c": E.vec(median(A)), "s": E.vec(mad(A))})
    return ev
