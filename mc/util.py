"""Helpers shared by the checks (no dependency on skada)."""
import itertools

import numpy as np


def same(a, b, tol=0.0):
    """Equal shape and values (NaN equal); tol is absolute+relative."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return all(u == v or (u != u and v != v) for u, v in zip(a.astype(object).ravel(), b.astype(object).ravel()))
    a, b = a.astype(float), b.astype(float)
    if tol == 0:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def snapshot(*arrays):
    return [None if a is None else (np.array(a, copy=True), a.dtype, a.shape) for a in arrays]


def unchanged(snap, *arrays):
    for s, a in zip(snap, arrays):
        if s is None:
            continue
        if a.dtype != s[1] or a.shape != s[2] or not same(s[0], a):
            return False
    return True


def layouts(alphabet, n_min, n_max):
    for n in range(n_min, n_max + 1):
        yield from itertools.product(alphabet, repeat=n)


def raises(f, *exc):
    """(value, None) or (None, exception)."""
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001
        return None, e
