"""C13: co-moment analysis projection index."""
import copy

import numpy as np

from harness import data as D
from harness import enc as E
from harness.props.c12 import box

TRACE = "T_C13"
ASSUMPTIONS = ["non-degenerate data", "co-moments compared to 1e-6 relative to the magnitude of the terms summed"]
GEN = {"quick": [{"module": "Gen_C13", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 3\n"}],
       "thorough": [{"module": "Gen_C13", "cfg": "INIT Init\nNEXT Next\nCONSTANT L = 4\n"}]}
OPTS = ["all", [1], [2], [1, 2], [3, 1]]
PI = [{}, {"est": "arithmetic", "center": "median"}, {"est": "distance"}]
WS = [[1, 1, 1, -1, -1, -1], [0.5, 2, -1, 3, -0.25, 1], [0, 0, 1, 0, 0, 1]]


def models(tier):
    c = ("{0, 1, 4}", "{0, 3}", 4) if tier == "quick" else ("{0, 1, 4, 6}", "{0, 1, 3}", 4)
    return [{"module": "MC_Capi", "cfg": "INIT Init\nNEXT Next\nINVARIANT OwnPlace Picks Unused Degree2 Invariant\n"
             "CONSTANTS XVals = %s YVals = %s N = %d\n" % c, "timeout": 1500}]


def data(rng, n):
    x = D.normal(rng, n, 1, 2.0, 1.0, 16)
    y = D.grid(0.6 * x + rng.normal(size=(n, 1)) * rng.choice([0.3, 2.0]), 16)
    return x.tolist(), y.tolist()


def cases(tier, seed, gen):
    rng = D.RNG(13000 + seed)
    out = []
    for k, h in enumerate(gen):
        n1, n2 = int(rng.integers(5, 12)), int(rng.integers(5, 12))
        a, b = data(rng, n1), data(rng, n2)
        out.append({"id": f"h{k}", "1": a, "2": b, "hist": h, "box": [["col", "vector", "frame"][int(rng.integers(3))] for _ in range(2)],
                    "init": {"max_degree": int(rng.integers(2, 5)), "scaling": bool(rng.random() < 0.5), "options": int(rng.integers(0, 5)),
                             "pi": int(rng.integers(0, 3)), "weights": int(rng.choice([0, 0, 1, 2]))},
                    "bias": bool(rng.random() < 0.3), "trim": [0.0, 0.0, 0.1, 0.2][k % 4], "defaults": bool(k % 2)})
    return out


def run_case(case):
    from direpack.ppdire.capi import capi

    st = dict(case["init"])
    ev = []

    def real(k, v):
        return {"options": lambda: OPTS[v], "pi": lambda: copy.deepcopy(PI[v]), "weights": lambda: list(WS[v])}.get(k, lambda: v)()

    names = {"pi": "pi_arguments"}
    # what is left to its default must mean what the documentation says
    dflt = {"max_degree": 2, "scaling": True, "options": 0, "pi": 0, "weights": 0}
    obj = capi(**{names.get(k, k): real(k, v) for k, v in st.items() if not (case["defaults"] and dflt[k] == v)})
    for op, arg in case["hist"]:
        if op != "fit":
            key = {"degree": "max_degree"}.get(op, op)
            st[key] = bool(arg) if op == "scaling" else arg
            obj.set_params(**{names.get(key, key): real(key, st[key])})
            continue
        x, y = case[str(arg)]
        xi, yi = box(x, case["box"][0]), box(y, case["box"][1])
        x0, y0 = copy.deepcopy(xi), copy.deepcopy(yi)
        kw = {"biascorr": case["bias"]} if st["pi"] != 1 else {}
        trim = case["trim"] if st["pi"] != 2 and min(len(case["1"][0]), len(case["2"][0])) > 7 else 0.0
        if trim:
            kw["trimming"] = trim
        before = copy.deepcopy(obj.get_params())
        val, out = E.outcome(obj.fit, xi, yi, **kw)
        est = PI[st["pi"]].get("est", "arithmetic")
        big = float(np.max(np.abs(np.array(x))) + np.max(np.abs(np.array(y))))
        unit = big ** (2 if st["scaling"] else st["max_degree"]) if est != "distance" else big
        c = {"max_degree": st["max_degree"], "scaling": st["scaling"], "options": [1, 2, 3] if OPTS[st["options"]] == "all" else OPTS[st["options"]],
             "weights": [float(v) for v in WS[st["weights"]]], "est": est,
             "o": {"mode": "cov", "center": PI[st["pi"]].get("center", "mean"), "trim": trim, "bias": bool(kw.get("biascorr", False)),
                   "order": 2, "option": 1, "alpha4": 4, "std": True, "fisher": True}}
        e = {"ev": "index", "c": c, "x": x, "y": y, "out": out, "unit": float(unit)}
        if out == "ok":
            e["val"] = float(val) if np.ndim(val) == 0 else "array"
            e["attr"] = float(obj.capi_index_)
            e["m"] = E.vec(obj.moments_)
        ev.append(e)
        ev.append({"ev": "unchanged", "same": bool(np.array_equal(np.asarray(xi), np.asarray(x0))
                                                 and np.array_equal(np.asarray(yi), np.asarray(y0)))})
        ev.append({"ev": "params", "same": before == obj.get_params()})
    _, out = E.outcome(lambda: capi(max_degree=5))
    ev.append({"ev": "rejected", "out": out})
    _, out = E.outcome(lambda: capi(max_degree=1).fit(np.array(case["1"][0]), np.array(case["1"][1])))
    ev.append({"ev": "rejected", "out": out})
    return ev
