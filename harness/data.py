"""Deterministic data sets for the drivers."""
import numpy as np

RNG = np.random.default_rng


def grid(a, k=64):
    """round to multiples of 1/k: exact, short rationals"""
    return np.round(np.asarray(a) * k) / k


def normal(rng, n, p, scale=1.0, loc=0.0, k=64):
    return grid(rng.normal(size=(n, p)) * scale + loc, k)


def outliers(rng, X, frac=0.15, size=8.0, k=64):
    X = X.copy()
    n = X.shape[0]
    m = max(1, int(frac * n))
    idx = rng.choice(n, m, replace=False)
    X[idx] = grid(X[idx] + size * np.sign(rng.normal(size=(m, X.shape[1]))) * (1 + rng.random((m, X.shape[1]))), k)
    return X


def with_nan(rng, X, frac=0.1):
    X = X.copy()
    M = rng.random(X.shape) < frac
    M[0] = False
    M[-1] = False
    X[M] = np.nan
    return X


def container(X, kind):
    """the same numbers in another container / memory layout"""
    import pandas as pd

    if kind == "array":
        return np.array(X)
    if kind == "frame":
        if np.ndim(X) == 2:
            return pd.DataFrame(np.array(X), columns=["v%d" % j for j in range(np.shape(X)[1])])
        return pd.Series(np.array(X))
    if kind == "matrix":
        return np.matrix(X)
    if kind == "fortran":
        return np.asfortranarray(np.array(X))
    if kind == "object":
        return np.array(X).astype(object)
    if kind == "strided":
        X = np.array(X)
        big = np.full((X.shape[0] * 2, X.shape[1] * 2), 7.5)
        big[::2, ::2] = X
        return big[::2, ::2]
    if kind in ("int", "int32", "int16", "float32"):
        return np.array(X).astype(kind)  # callers only use these for numbers the type holds exactly
    if kind == "readonly":
        R = np.array(X)
        R.setflags(write=False)
        return R
    if kind == "intframe":
        return pd.DataFrame(np.array(X).astype(int))
    if kind == "vector":
        return np.array(X).reshape(-1)
    raise ValueError(kind)


def retype(cases, key, arrays, every=4, y=None, ykind="ykind"):
    """Move some cases into whole-number or read-only storage.  The data lie on the 1/64 grid: 64 times
    the data are whole numbers, the same problem in another unit."""
    k = 0
    for c in cases:
        if c.get(key) not in ("array", "fortran") or c["id"].startswith("kf-"):
            continue
        k += 1
        A = [np.asarray(c[a], dtype=float) for a in arrays]
        if k % every == 1:
            c[key] = "readonly"
        elif k % every == 0 and all(np.isfinite(a).all() and (np.round(a * 64) == a * 64).all() and np.abs(a).max() < 1e6 for a in A if a.size):
            for a, v in zip(arrays, A):
                c[a] = (v * 64).tolist()
            c[key] = ["int", "int32"][(k // every) % 2]
            if y is not None:
                v = np.asarray(c[y], dtype=float) * 64
                if np.isfinite(v).all() and (np.round(v) == v).all():
                    c[y], c[ykind] = v.tolist(), "int"
    return cases
