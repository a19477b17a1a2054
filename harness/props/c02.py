"""C02: stored affine map, row by row, invertible."""
import numpy as np

from harness import data as D
from harness import enc as E
from harness.props import c01

TRACE = "T_C02"
ASSUMPTIONS = ["floating point comparison with relative tolerance 1e-9"]
models = c01.models
GEN = {"quick": [{"module": "Gen_C02", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 3\n"}],
       "thorough": [{"module": "Gen_C02", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 4\n"}]}


def cases(tier, seed, gen):
    rng = D.RNG(2000 + seed)
    out = []
    opts = ["mean/std", "median/mad", "mean/None", "None/std", "l1median/mad", "median/std", "kstepLTS/scaleTau2",
            "None/None", "median/scaleTau2"]
    kinds = ["array", "frame", "matrix", "fortran", "object", "strided"]
    step = 1 if tier == "quick" else 3
    for k, h in enumerate(gen[::step]):
        p = int(rng.integers(1, 5))
        n = int(rng.integers(5, 12))
        m = int(rng.integers(2, 9))
        A = D.outliers(rng, D.normal(rng, n, p, 2.0, 3.0))
        B = D.normal(rng, m if rng.random() < 0.8 else n, p, 5.0, -1.0)
        if rng.random() < 0.35:
            A[:, 0] = 2.0
        if rng.random() < 0.35:
            A[: n // 2 + 1, -1] = A[0, -1]
        opt = opts[int(rng.integers(len(opts)))]
        if opt.endswith("Tau2"):
            A = D.normal(rng, n, p, 2.0, 3.0)
        one = D.normal(rng, 1, p)
        if k % 3 == 1:   # any unit of measurement
            u = 2.0 ** rng.integers(-18, 14, size=p)
            A, B, one = A * u, B * u, one * u
        out.append({"id": f"h{k}", "A": A.tolist(), "B": B.tolist(), "one": one.tolist(),
                    "opt": opt, "hist": h, "kind": kinds[int(rng.integers(len(kinds)))]})
    return D.retype(out, "kind", ["A", "B", "one"])


def run_case(case):
    from direpack.preprocessing.robcent import VersatileScaler, versatile_scale

    c, s = case["opt"].split("/")
    vs = VersatileScaler(center=c, scale=s)
    sets = {k: np.array(case[k], dtype=float) for k in ("A", "B", "one")}
    ev = []

    def est():
        return E.vec(getattr(vs, "center_", None)), E.vec(getattr(vs, "scale_", None))

    for op, arg in case["hist"]:
        if op == "setp":
            a, b = arg.split("/")
            vs.set_params(center=a, scale=b)
            continue
        X = sets[arg]
        Xin = D.container(X, case["kind"])
        before = np.array(Xin, dtype=float)
        e = {"X": X.tolist()}
        if op == "fit":
            _, e["out"] = E.outcome(vs.fit, Xin)
            e["ev"] = "fit"
        elif op == "ft":
            Z, e["out"] = E.outcome(vs.fit_transform, Xin)
            e["ev"] = "fit_transform"
            e["Z"] = E.arr(Z)
        elif op in ("transform", "predict"):
            Z, e["out"] = E.outcome(getattr(vs, op), Xin)
            e["ev"] = "scale"
            e["Z"] = E.arr(Z)
        elif op == "inverse":
            Z, e["out"] = E.outcome(vs.inverse_transform, Xin)
            e["ev"] = "inverse"
            e["Z"] = E.arr(Z)
        elif op == "round":
            def rt():
                vs.transform(Xin)
                return vs.inverse_transform()
            Z, e["out"] = E.outcome(rt)
            e["ev"] = "roundtrip"
            e["Z"] = E.arr(Z)
        e["c"], e["s"] = est()
        ev.append(e)
        ev.append({"ev": "unchanged", "X": [], "same": bool(np.array_equal(before, np.array(Xin, dtype=float)))})
    # the one-pass function agrees with the object
    vs2 = VersatileScaler(center=c, scale=s)
    A = D.container(sets["A"], case["kind"])
    Z, out = E.outcome(versatile_scale, A, center=c, scale=s)
    vs2.fit(A)
    ev.append({"ev": "fit_transform", "X": case["A"], "out": out, "Z": E.arr(Z), "c": E.vec(vs2.center_),
               "s": E.vec(vs2.scale_)})
    return ev
