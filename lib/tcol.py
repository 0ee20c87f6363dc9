"""Typed columns: rank (1-based, ascending) <-> concrete riptable column, for every column kind."""
import numpy as np
import riptable as rt
import lay
from proj import NA, BAD, sentinel

_I = [-5, 0, 3, 77, 100]
_U = [0, 3, 9, 77, 100]
POOL = {
    "i1": _I, "i2": _I, "i4": _I, "i8": [-5, 0, 3, 77, 2**40], "u1": _U, "u2": _U, "u4": _U, "u8": [0, 3, 9, 77, 2**40],
    "f4": [-1.5, 0.0, 2.0, 1000.0, 4096.0], "f8": [-1.5, 0.0, 2.0, 1000.25, 1e12], "?": [False, True],
    "S": ["a", "ab", "b", "zz", "zzz"], "U": ["a", "b", "c", "z", "\u00e9"],
    "date": [1, 3, 10000, 20000, 20001], "dtn": [1, 10**9, 1600000000 * 10**9, 1600000000 * 10**9 + 1, 1700000000 * 10**9],
    "tsp": [-1.0e9, 0.0, 1.0e9, 86400.0e9, 86401.0e9], "dspan": [-3, 0, 1, 10, 500],
    "cat": ["a", "ab", "b", "c", "d"], "cati": [-5, 0, 3, 77, 100], "catu": ["a", "b", "c", "z", "\u00e9"], "cate": ["q", "r", "s", "t", "u"],
}
KINDS = list(POOL)
POOL["Us"] = POOL["S"]  # unicode column over the ASCII pool
PLAIN = [k for k in KINDS if not k.startswith("cat")]
NONA = ("?",)


def width(p, r):
    return max([1] + [len(p[x - 1]) for x in r if x != NA])


def mk(kind, r):
    """ranks (NA allowed except for bool) -> column, in the layout of the case"""
    if lay.MODE == 1 and len(r):
        return _mk(kind, [x for y in r for x in (y, 1)])[::2]
    if lay.MODE == 2 and len(r):
        return _mk(kind, r[::-1])[::-1]
    return _mk(kind, r)


def _mk(kind, r):
    p = POOL[kind]
    n = len(r)
    if kind == "?":
        return rt.FA(np.array([p[x - 1] for x in r], dtype=bool))
    if kind == "S":
        return rt.FA(np.array([b"" if x == NA else p[x - 1].encode() for x in r], dtype="S%d" % width(p, r)))
    if kind in ("U", "Us"):
        return rt.FastArray(np.array(["" if x == NA else p[x - 1] for x in r], dtype="U%d" % width(p, r)), unicode=True)
    if kind == "date":
        return rt.Date(np.array([0 if x == NA else p[x - 1] for x in r], dtype=np.int32))
    if kind == "dtn":
        return rt.DateTimeNano(np.array([0 if x == NA else p[x - 1] for x in r], dtype=np.int64), from_tz="GMT", to_tz="NYC")
    if kind == "tsp":
        return rt.TimeSpan(np.array([np.nan if x == NA else p[x - 1] for x in r], dtype=np.float64))
    if kind == "dspan":
        return rt.DateSpan(np.array([-(2**31) if x == NA else p[x - 1] for x in r], dtype=np.int32))
    if kind == "cat":
        return rt.Cat(np.array([0 if x == NA else x for x in r], dtype=np.int8), rt.FA(np.array([s.encode() for s in p], dtype="S3")))
    if kind == "catu":
        return rt.Cat(np.array([0 if x == NA else x for x in r], dtype=np.int16), rt.FA(np.array(p, dtype="U3")))
    if kind == "cati":
        return rt.Cat(np.array([0 if x == NA else x for x in r], dtype=np.int8), rt.FA(np.array(p, dtype=np.int64)))
    if kind == "cate":
        return rt.Cat(np.array([-(2**31) if x == NA else 10 * x for x in r], dtype=np.int32), {s: 10 * (i + 1) for i, s in enumerate(p)})
    a = np.zeros(n, dtype=kind)
    for i, x in enumerate(r):
        a[i] = p[x - 1] if x != NA else (np.nan if a.dtype.kind == "f" else sentinel(a.dtype))
    return rt.FA(a)


CLS = {"date": rt.Date, "dtn": rt.DateTimeNano, "tsp": rt.TimeSpan, "dspan": rt.DateSpan}


def rd(a, kind, strict=True):
    """column -> ranks (NA / BAD); a column that lost its type reads as all BAD"""
    p = POOL[kind]
    n = len(a)
    bad = [BAD] * n
    if kind.startswith("cat"):
        if not isinstance(a, rt.Categorical):
            return bad
        if kind == "cate":
            try:
                m = {k: v for k, v in a.category_mapping.items()}
            except TypeError:
                return bad
            inv = {}
            for k, v in m.items():
                if isinstance(k, (str, bytes)):
                    k, v = v, k
                inv[int(k)] = v.decode() if isinstance(v, bytes) else str(v)
            out = []
            for c in a._np.tolist():
                s = inv.get(c)
                out.append(p.index(s) + 1 if s in p else NA if s is None and c == -(2**31) else BAD)
            return out
        if a.base_index is None:
            return bad
        cats = a.category_array
        if kind == "cati" and cats.dtype.kind not in "i" or kind == "cat" and cats.dtype.kind != "S" or kind == "catu" and cats.dtype.kind != "U":
            if strict and len(cats):
                return bad
        lab = [x.decode("latin-1") if isinstance(x, bytes) else x for x in cats.tolist()]
        b = a.base_index
        out = []
        for c in a._np.tolist():
            if b == 1 and c == 0:
                out.append(NA)
            elif 0 <= c - b < len(lab) and lab[c - b] in p:
                out.append(p.index(lab[c - b]) + 1)
            else:
                out.append(BAD)
        return out
    if isinstance(a, rt.Categorical):
        return bad
    if kind in CLS:
        if type(a) is not CLS[kind]:
            return bad
        if kind == "dtn" and a._timezone._to_tz not in ("NYC", "America/New_York"):
            return bad
        inv = {"date": 0, "dtn": 0, "tsp": None, "dspan": -(2**31)}[kind]
        out = []
        for x in a._np.tolist():
            if x != x or x == inv or kind == "dtn" and x == -(2**63) or kind == "date" and x == -(2**31):
                out.append(NA)
            else:
                out.append(p.index(x) + 1 if x in p else BAD)
        return out
    if type(a) is not rt.FastArray and strict:
        return bad
    a = np.asarray(a)
    if strict and a.dtype.kind != (kind[0] if kind not in ("?",) else "b"):
        return bad
    if strict and kind not in ("S", "U", "Us", "?") and a.dtype != np.dtype(kind):
        return bad
    s = sentinel(a.dtype)
    out = []
    for x in a.tolist():
        if isinstance(x, bytes):
            x = x.decode("latin-1")
        if x != x or (s is not None and x == s) or x == "":
            out.append(NA)
        else:
            out.append(p.index(x) + 1 if x in p else BAD)
    return out


def gen(rng, kind, n, na=0.15, lim=None):
    m = len(POOL[kind]) if lim is None else min(lim, len(POOL[kind]))
    return [NA if kind not in NONA and rng.random() < na else rng.randint(1, m) for _ in range(n)]
