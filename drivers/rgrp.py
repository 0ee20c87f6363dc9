"""Shared input generation / projection for the grouping specification."""
from fractions import Fraction

import numpy as np
import riptable as rt
import lay
from proj import BAD, INF, NA, NINF, sentinel

POOL = {
    "i1": [-128, -2, 1, 5, 7], "i2": [-32768, -2, 1, 5, 7], "i4": [-(2**31), -2, 1, 5, 7], "i8": [-(2**63), -2, 1, 5, 2**40],
    "u1": [0, 3, 9, 255], "u2": [0, 3, 9, 65535], "u4": [0, 3, 9, 2**32 - 1], "u8": [0, 3, 2**50, 2**64 - 1],
    "f4": [-1.5, 0.0, 2.0, np.inf, np.nan], "f8": [-np.inf, -1.5, 0.0, 2.0, np.nan],
    "?": [False, True],
    "S": ["", "a", "ab", "b"], "U": ["", "a", "b", "\u00e9"],
    "date": [0, 3, 10000, 20000], "dtn": [0, 10**9, 1600000000 * 10**9, 1600000000 * 10**9 + 1],
    "tsp": [-(10**9), 0, 10**9, 86400 * 10**9],
    "cat": ["a", "ab", "b", "c"],
    "iL": list(range(-20, 280)), "SL": ["v%03d" % i for i in range(300)],
}


def mkcol(ranks, dt):
    p = POOL[dt]
    v = [p[r - 1] for r in ranks]
    if dt == "iL":
        return lay.fa(np.array(v, dtype=np.int32))
    if dt == "SL":
        return lay.fa(np.array([x.encode() for x in v], dtype="S4"))
    if dt == "S":
        return lay.fa(np.array([x.encode() for x in v], dtype="S3"))
    if dt == "U":
        return lay.fa(np.array(v, dtype="U3"))
    if dt == "date":
        return rt.Date(np.array(v, dtype=np.int32))
    if dt == "dtn":
        return rt.DateTimeNano(np.array(v, dtype=np.int64), from_tz="GMT", to_tz="GMT")
    if dt == "tsp":
        return rt.TimeSpan(np.array(v, dtype=np.float64))
    if dt == "cat":
        return rt.Cat(np.array(v, dtype="S3"))
    return lay.fa(np.array(v, dtype=dt))


def ranks(a, dt):
    """observed key column -> ranks in the pool"""
    p = POOL[dt]
    if isinstance(a, rt.Categorical):
        a = a.expand_array
    a = np.asarray(a)
    out = []
    for x in a.tolist():
        if isinstance(x, bytes):
            x = x.decode("latin-1")
        r = BAD
        for i, y in enumerate(p):
            if x == y or (x != x and isinstance(y, float) and y != y):
                r = i + 1
        if isinstance(x, (int, float)) and isinstance(p[0], str):
            r = BAD
        out.append(r)
    return out


def rat(x):
    """a float result -> [num, den]"""
    if isinstance(x, (bool, np.bool_)):
        return [int(x), 1]
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return [NA, 1]
        if x in (float("inf"), float("-inf")):
            return [INF if x > 0 else NINF, 1]
        f = Fraction(x).limit_denominator(500)
        if abs(float(f) - x) > 1e-5 * max(1.0, abs(x)):
            return [BAD, 1]
        return [f.numerator, f.denominator]
    x = int(x)
    return [x if abs(x) < 2 * 10**9 else BAD, 1]


def ratcol(a, square=False):
    a = np.asarray(a)
    if a.dtype.kind in "iu":
        s = sentinel(a.dtype)
        return [[NA, 1] if x == s else rat(x) for x in a.tolist()]
    if a.dtype.kind == "f":
        if square:
            return [rat(x * x) for x in a.astype(np.float64).tolist()]
        return [rat(x) for x in a.tolist()]
    if a.dtype.kind == "b":
        return [[int(x), 1] for x in a.tolist()]
    raise TypeError(str(a.dtype))


VPOOL = [-3, -1, 0, 1, 2, 4, 7]


def mkvals(vals, vdt):
    if vdt == "?":
        return lay.fa(np.array([v == 1 for v in vals], dtype=bool))
    a = np.zeros(len(vals), dtype=vdt)
    for i, v in enumerate(vals):
        if v == NA:
            a[i] = np.nan if a.dtype.kind == "f" else sentinel(a.dtype)
        else:
            a[i] = v
    return lay.fa(a)


def gen_vals(rng, n, vdt, na=0.2, pool=None):
    if vdt == "?":
        return [rng.randint(0, 1) for _ in range(n)]
    p = pool or (VPOOL if vdt[0] != "u" else [0, 1, 2, 4, 7])
    return [NA if rng.random() < na else rng.choice(p) for _ in range(n)]


def gen_keys(rng, n, kdts):
    lim = [rng.randint(1, len(POOL[d])) for d in kdts]
    return [[rng.randint(1, l) for l in lim] for _ in range(n)]


KD1 = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "?", "S", "U", "date", "dtn", "tsp"]


def build(case):
    """construct the grouping object; returns (obj, keycols, filter array or None, mode, given, K, F)"""
    form, kd, K, F = case["form"], case["kd"], case["K"], case["F"]
    cols = [mkcol([k[j] for k in K], d) for j, d in enumerate(kd)]
    flt = lay.fa(np.array([f == 1 for f in F], dtype=bool)) if any(f == 0 for f in F) or case.get("ff") else None
    kw = {} if flt is None else {"filter": flt}
    one = len(kd) == 1
    x = cols[0] if one else cols
    given = []
    if form == "cat":
        obj, mode = rt.Cat(x, **kw), ("lex" if one else "first")
    elif form == "cat_ordered":
        obj, mode = rt.Cat(x, ordered=True, **kw), "lex"
    elif form == "cat_unordered":
        obj, mode = rt.Cat(x, ordered=False, **kw), "first"
    elif form == "cat_lex":
        obj, mode = rt.Cat(x, lex=True, **kw), "lex"
    elif form == "cat_dict":
        obj, mode = rt.Cat({"k%d" % j: c for j, c in enumerate(cols)}, **kw), ("lex" if one else "first")
    elif form == "b0":
        obj, mode = rt.Cat(x, base_index=0), "lex"
    elif form == "gb" or form == "gbu":
        ds = rt.Dataset({"k%d" % j: c for j, c in enumerate(cols)})
        ds["v"] = rt.arange(len(K))
        obj, mode = getattr(ds, form)(["k%d" % j for j in range(len(kd))], **kw), "first"
    elif form == "raw":
        obj, mode = rt.Grouping(x if one else {"k%d" % j: c for j, c in enumerate(cols)}, **kw), "first"
    elif form == "codes":
        # explicit categories: all of the pool in the given order; codes into it
        perm = case["perm"]
        cats = mkcol(perm, kd[0])
        codes = np.array([(perm.index(k[0]) + 1 if f else 0) for k, f in zip(K, F)], dtype=case.get("cdt", "i4"))
        obj, mode, given = rt.Cat(lay.fa(codes), cats), "given", [[p] for p in perm]
        flt = None
        cols = []
    elif form == "codes0":
        perm = case["perm"]
        cats = mkcol(perm, kd[0])
        codes = np.array([perm.index(k[0]) for k in K], dtype=case.get("cdt", "i4"))
        obj, mode, given = rt.Cat(lay.fa(codes), cats, base_index=0), "given", [[p] for p in perm]
        cols = []
    elif form == "valcats":
        perm = case["perm"]
        obj, mode, given = rt.Cat(x, mkcol(perm, kd[0]), **kw), "given", [[p] for p in perm]
    elif form == "slice":
        c = rt.Cat(x, **kw)
        base = sorted({tuple(k) for k, f in zip(K, F) if f})
        idx = case["idx"]
        sel = lay.fa(np.array(idx, dtype=np.int64)) if case["how"] == "fancy" else rt.FA(np.isin(np.arange(len(K)), idx))
        _ = c.grouping.igroup  # force the packed form before indexing
        obj, mode, given = c[sel], "given", [list(t) for t in base]
        K, F = [K[i] for i in idx], [F[i] for i in idx]
    elif form == "catofcat":
        c = rt.Cat(x, **kw)
        obj, mode, given = rt.Cat(c), "given", [list(t) for t in sorted({tuple(k) for k, f in zip(K, F) if f})]
    elif form == "gb_of_cat":
        c = rt.Cat(x, **kw)
        ds = rt.Dataset({"k0": c, "v": rt.arange(len(K))})
        obj, mode, given = ds.gb("k0"), "given", [list(t) for t in sorted({tuple(k) for k, f in zip(K, F) if f})]
    elif form == "setvalid":
        c = rt.Cat(x)
        obj, mode = c.set_valid(lay.fa(np.array([f == 1 for f in F], dtype=bool))), ("lex" if one else "given")
        seen = []
        for k in K:
            if k not in seen and any(f and q == k for q, f in zip(K, F)):
                seen.append(k)
        given = [] if one else seen  # order of the original categories, unused ones dropped
    elif form == "as_cat":
        ds = rt.Dataset({"k%d" % j: c for j, c in enumerate(cols)})
        ds["v"] = rt.arange(len(K))
        obj, mode = getattr(ds, case["how"])(["k%d" % j for j in range(len(kd))], **kw).as_categorical(), "first"
    elif form == "hstack":
        h = case["cut"]
        parts = []
        for lo, hi in ((0, h), (h, len(K))):
            kwp = {} if flt is None else {"filter": flt[lo:hi]}
            parts.append(rt.Cat(cols[0][lo:hi], **kwp))
        obj, mode = rt.hstack(parts), "lex"
    else:
        raise ValueError(form)
    return obj, cols, flt, mode, given, K, F


def glist(d, kd):
    """dict of unique key columns -> list of rank tuples"""
    cs = [ranks(c, t) for c, t in zip(d.values(), kd)]
    return [list(t) for t in zip(*cs)]
