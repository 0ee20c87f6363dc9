"""Projection helpers: concrete riptable objects -> the specification's integers."""
import numpy as np

NA, BAD, INF, NINF = 2000000001, 2000000002, 2000000003, 2000000004
LIM = 2000000000


def num(x, scale=1):
    """one numeric cell -> int (NA for NaN / integer sentinel is decided by the caller's dtype via col())"""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        if x != x:
            return NA
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return NINF
        y = x * scale
        r = round(y)
        if abs(y - r) > 1e-6 * max(1.0, abs(y)) or abs(r) > LIM:
            return BAD
        return int(r)
    x = int(x) * scale
    return x if abs(x) <= LIM else BAD


_INV = {}


def sentinel(dt):
    """the documented 'invalid' marker of a dtype (None when the dtype has none)"""
    dt = np.dtype(dt)
    if dt.kind == "i":
        return int(np.iinfo(dt).min)
    if dt.kind == "u":
        return int(np.iinfo(dt).max)
    return None


def col(a, pool=None, scale=1, na=True):
    """a 1-d array -> list of ints.  Strings/bytes need a pool (list of texts): value -> its rank (1-based)."""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a.view(np.ndarray) if type(a) is not np.ndarray else a
    if a.ndim != 1:
        raise ValueError("not 1-d: %r" % (a.shape,))
    k = a.dtype.kind
    if k in "US":
        out = []
        for x in a.tolist():
            if isinstance(x, bytes):
                x = x.decode("latin-1")
            out.append(pool.index(x) + 1 if pool is not None and x in pool else BAD)
        return out
    if k == "b":
        return [int(x) for x in a.tolist()]
    if k in "iu":
        s = sentinel(a.dtype) if na else None
        out = []
        for x in a.tolist():
            if s is not None and x == s:
                out.append(NA)
            else:
                out.append(num(x, scale))
        return out
    if k == "f":
        return [num(x, scale) for x in a.tolist()]
    raise TypeError(str(a.dtype))


def same(a, b):
    """bit-for-bit comparison of two arrays (used for frame conditions)"""
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
