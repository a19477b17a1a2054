"""Encoding of Python objects into the JSON trace language read by Rat!ReadTrace.

floats are written with repr() (loaded as exact rationals); ints stay ints;
arrays become nested lists of floats."""
import numpy as np
import pandas as pd


def num(x):
    return float(x)


def arr(a):
    """nested lists of floats, whatever the container"""
    if a is None:
        return "null"
    if isinstance(a, (pd.DataFrame, pd.Series)):
        a = a.to_numpy()
    try:
        a = np.asarray(a, dtype="float64")
    except Exception as exc:  # not numeric
        return "not-numeric:" + type(a).__name__
    return a.tolist()


def vec(a):
    """flattened to 1-D"""
    a = arr(a)
    if isinstance(a, str):
        return a
    return np.asarray(a, dtype="float64").reshape(-1).tolist()


def col(a):
    """2-D; 1-D input becomes a column"""
    a = arr(a)
    if isinstance(a, str):
        return a
    a = np.asarray(a, dtype="float64")
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    return a.tolist()


def outcome(fn, *args, **kw):
    """(value, 'ok') or (None, 'raise:<type>')"""
    try:
        return fn(*args, **kw), "ok"
    except Exception as exc:
        if type(exc).__name__ == "CaseTimeout":
            raise
        return None, "raise:" + type(exc).__name__
