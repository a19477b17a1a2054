"""A scripted stand-in for the cyipopt solver (not installed here): it asks the
questions a script tells it to ask about the problem it was given, and returns the
point the script tells it to return."""
import sys
import types

import numpy as np

LOG = []        # one record per solve
SCRIPT = {"questions": [], "points": [], "returns": [], "status": 0, "iters": 3, "near": 0.0}


def txt(v):
    if isinstance(v, bytes):
        return v.decode()
    return v


class Problem:
    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        self.n, self.m, self.obj = n, m, problem_obj
        self.rec = {"n": int(n), "m": int(m), "lb": "none" if lb is None else [float(v) for v in lb],
                    "ub": "none" if ub is None else [float(v) for v in ub],
                    "cl": [float(v) for v in np.ravel(cl)], "cu": [float(v) for v in np.ravel(cu)], "options": {}}

    def add_option(self, key, value):
        self.rec["options"][txt(key)] = txt(value)

    addOption = add_option

    def solve(self, x0):
        x0 = np.array(x0, dtype=float)
        r = self.rec
        r["x0"] = x0.tolist()
        k = len(LOG)
        pts = [x0] + [np.array(p, dtype=float)[: self.n] for p in SCRIPT["points"]]
        if SCRIPT["near"]:  # questions about points next to the start
            pts = [x0] + [x0 + SCRIPT["near"] * np.where(np.arange(self.n) % 2, -1.0, 1.0) for p in SCRIPT["points"]]
        r["asked"] = []
        LOG.append(r)
        for kind, q in SCRIPT["questions"]:
            x = pts[q].copy()
            v = {"obj": self.obj.objective, "grad": self.obj.gradient, "con": self.obj.constraints, "jac": self.obj.jacobian}[kind](x)
            v = np.asarray(v, dtype=float)
            r["asked"].append({"q": kind, "x": pts[q].tolist(), "v": float(v.reshape(-1)[0]) if kind == "obj" else
                               (v.reshape(len(r["cl"]), -1).tolist() if kind == "jac" else v.reshape(-1).tolist())})
        for it in range(SCRIPT["iters"] + 1):
            if hasattr(self.obj, "intermediate"):
                self.obj.intermediate(0, it, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0)
        ret = np.array(SCRIPT["returns"][k % len(SCRIPT["returns"])], dtype=float)[: self.n]
        r["ret"] = ret.tolist()
        return ret.copy(), {"status": SCRIPT["status"], "status_msg": b"scripted", "obj_val": -1.25, "x": ret.copy(), "g": None, "mult_g": None,
                            "mult_x_L": None, "mult_x_U": None}


def install():
    m = types.ModuleType("cyipopt")
    m.Problem = Problem
    m.problem = Problem
    assert "direpack" not in sys.modules or sys.modules.get("cyipopt") is not None
    sys.modules["cyipopt"] = m


def script(questions, points, returns, status=0, iters=3, near=0.0):
    LOG.clear()
    SCRIPT.update(questions=questions, points=points, returns=returns, status=status, iters=iters, near=near)


def evolve(func, bounds, args=(), **kw):
    """the same stand-in for scipy's differential evolution"""
    import scipy.optimize as so

    if hasattr(bounds, "lb"):
        lb, ub = np.ravel(bounds.lb), np.ravel(bounds.ub)
    else:
        lb, ub = np.array(bounds, dtype=float).T
    n = len(lb)
    cons = kw.get("constraints", ())
    cons = list(cons) if isinstance(cons, (list, tuple)) else [cons]
    x0 = kw.get("x0")
    start = np.zeros(n) + 0.5 if x0 is None else np.array(x0, dtype=float)
    pts = [start] + [np.array(p, dtype=float)[:n] for p in SCRIPT["points"]]

    def con(x):
        out = []
        for c in cons:
            out += list(np.ravel(c.fun(x))) if isinstance(c, so.NonlinearConstraint) else list(np.ravel(np.atleast_2d(c.A) @ x))
        return out

    def width(c, side):
        k = np.size(c.fun(start)) if isinstance(c, so.NonlinearConstraint) else np.atleast_2d(c.A).shape[0]
        return list(np.zeros(k) + np.ravel(getattr(c, side)))

    r = {"n": n, "lb": [float(v) for v in lb], "ub": [float(v) for v in ub], "cl": [float(v) for c in cons for v in width(c, "lb")],
         "cu": [float(v) for c in cons for v in width(c, "ub")], "options": {}, "x0": start.tolist(), "asked": []}
    r["m"] = len(r["cl"])
    k = len(LOG)
    LOG.append(r)
    for kind, q in SCRIPT["questions"]:
        if kind == "obj":
            r["asked"].append({"q": kind, "x": pts[q].tolist(), "v": float(np.ravel(func(pts[q].copy(), *args))[0])})
        elif kind == "con":
            r["asked"].append({"q": kind, "x": pts[q].tolist(), "v": [float(v) for v in con(pts[q].copy())]})
    ret = np.array(SCRIPT["returns"][k % len(SCRIPT["returns"])], dtype=float)[:n]
    r["ret"] = ret.tolist()
    return so.OptimizeResult(x=ret.copy(), fun=-1.25, success=True, message="scripted", nit=1, nfev=1)


def install_evolution():
    import scipy.optimize as so

    so.differential_evolution = evolve
    P = sys.modules.get("direpack.ppdire.ppdire")
    if P is not None and hasattr(P, "differential_evolution"):
        P.differential_evolution = evolve
