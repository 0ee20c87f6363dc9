"""C19: cut, qcut, quantile and searchsorted."""
import warnings

import lay
import numpy as np
import riptable as rt
from proj import BAD, NA, sentinel
from rgrp import rat

INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLTS = ["f4", "f8"]
INF = 1000000


def val(v):
    return np.nan if v == NA else np.inf if v == INF else -np.inf if v == -INF else v / 8


def mk(kind, x):
    a = np.zeros(len(x), dtype=kind)
    for i, v in enumerate(x):
        a[i] = val(v) if kind in FLTS else sentinel(np.dtype(kind)) if v == NA else v // 8
    return lay.fa(a)


def r8(v):
    v = float(v)
    if v != v:
        return [NA, 1]
    if np.isinf(v):
        return [INF if v > 0 else -INF, 1]
    r = rat(v * 8)
    return r if abs(r[0]) < 2**24 else [BAD, 1]


def column(rng, kind, n, na, lo=None, hi=None, inf=0.0):
    lo = (0 if kind[0] == "u" else -4) if lo is None else lo
    hi = 12 if hi is None else hi
    out = []
    for _ in range(n):
        if rng.random() < na:
            out.append(NA)
        elif kind in FLTS and rng.random() < inf:
            out.append(rng.choice([INF, -INF]))
        else:
            out.append(rng.randint(lo * 8, hi * 8) if kind in FLTS and rng.random() < 0.5 else 8 * rng.randint(lo, hi))
    return out


def mkcase(rng, t=None, kind=None):
    t = t or rng.choice(["cut"] * 4 + ["ncut"] * 3 + ["qcut"] * 4 + ["quant", "search", "search"])
    kind = kind or rng.choice(INTS + FLTS)
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
    if rng.random() < 0.04:
        n = rng.choice([128, 300])
    na = rng.choice([0, 0, 0.2, 0.5])
    c = {"t": t, "kind": kind, "dup": rng.choice(["raise", "raise", "drop"]), "lab": rng.choice(["auto", "auto", "None", "own", "no"]), "ret": rng.randint(0, 1), "xf": rng.choice(["fa", "fa", "np", "list"])}
    c["right"] = 1
    c["m"] = None
    x = column(rng, kind, n, na, inf=0.1 if t in ("cut", "qcut", "quant") and rng.random() < 0.3 else 0)
    if rng.random() < 0.3:
        c["m"] = [int(rng.random() < 0.7) for _ in range(n)]
        c["mf"] = rng.choice(["fa", "np"])
    if t == "cut":
        c["right"] = rng.choice([1, 1, 0])
        ek = rng.choice(["i", "i", "f", "big"])
        k = rng.choice([2, 2, 3, 4, 5, 6]) if ek != "big" else rng.choice([129, 140])
        if ek == "big":
            e = [8 * v for v in sorted(rng.sample(range(-80, 120), k))]
            x = column(rng, kind, max(n, 3), na, 0 if kind[0] == "u" else -90, 125)
            c["m"] = None
        else:
            e = sorted((8 * rng.randint(-3, 11) if ek == "i" or rng.random() < 0.5 else rng.randint(-30, 90)) for _ in range(k))
            if rng.random() < 0.15:
                e[0] = -INF
            if rng.random() < 0.15:
                e[-1] = INF
            if rng.random() < 0.06:
                e = e[::-1]
            if len(set(e)) < 2:
                e = [0, 32]
        if INF in e or -INF in e:
            x = [0 if v in (INF, -INF) else v for v in x]  # an infinite value is in no bin
        c["edges"], c["ef"] = e, rng.choice(["list", "np", "fa"])
        c["inclow"] = rng.randint(0, 1)
    elif t == "ncut":
        c["right"] = rng.choice([1, 1, 1, 0])
        c["nb"] = rng.choice([1, 2, 3, 4, 5, 8, 0 if rng.random() < 0.2 else 2])
        if rng.random() < 0.05:
            c["nb"] = rng.choice([127, 128, 129])
            x = column(rng, kind, 6, na, 0, 2)
            x += [0, 8 * (c["nb"] if kind != "i1" and c["nb"] < 200 else 0)]
            if c["m"] is not None:
                c["m"] = [1] * len(x)
    elif t in ("qcut", "quant"):
        c["q"] = rng.choice([1, 2, 3, 4, 5, 10]) if t == "qcut" and rng.random() < 0.6 else rng.choice([[[0, 1], [1, 1]], [[0, 1], [1, 2], [1, 1]], [[1, 4], [3, 4]], [[1, 10], [1, 2], [9, 10]], [[0, 1], [1, 8], [1, 3], [1, 1]], [[1, 2], [3, 4], [1, 1]]])
        if t == "quant":
            c["m"] = None
            c["sc"] = rng.randint(0, 1)
            c["how"] = rng.choice(["fraction", "fraction", "lower", "higher"])
            if not isinstance(c["q"], list):
                c["q"] = [[1, 2]]
    elif t == "search":
        c["m"] = None
        c["k2"] = kind if rng.random() < 0.7 else rng.choice(INTS + FLTS)
        c["arr"] = sorted(v for v in column(rng, kind, rng.choice([0, 1, 2, 4, 7, 130]), 0))
        x = column(rng, c["k2"], n, 0)
        c["side"] = rng.choice(["left", "right"])
        c["form"] = rng.choice(["f", "m", "np"])
        c["scal"] = int(rng.random() < 0.2 and n > 0)
        if c["scal"]:
            x = x[:1]
    c["x"] = x
    if c["m"] is not None:
        c["m"] = (c["m"] + [1] * len(x))[: len(x)]
    c["badlab"] = int(rng.random() < 0.1)
    return c


def cases(tier, rng):
    big = tier == "thorough"
    for kind in INTS + FLTS:
        for t in ("cut", "ncut", "qcut", "quant", "search"):
            for _ in range(60 if big else 12):
                yield mkcase(rng, t, kind)
    for _ in range(20000 if big else 3500):
        yield mkcase(rng)


def fl(q):
    return q[0] / q[1]


def execute(c):
    t, kind, x = c["t"], c["kind"], c["x"]
    seen = [NA if c["m"] is not None and not k else v for v, k in zip(x, c["m"] or x)]
    fin = [v for v in seen if v not in (NA, INF, -INF)]
    ev = {"t": t, "x": x, "m": c["m"] or [], "hasm": int(c["m"] is not None), "right": c["right"], "dup": int(c["dup"] == "drop"), "lab": "auto" if c["lab"] == "None" else c["lab"], "ret": c["ret"], "edges": [], "nb": 0, "qs": [], "nlab": 0, "side": ""}
    o = {"raised": 0, "frame": 1, "codes": [], "bins": [], "lab": [], "own": [], "clip": 0}
    ev["obs"] = o
    if t == "cut":
        ev["edges"] = [[e, 1] for e in c["edges"]]
        ne = len(set(c["edges"])) if ev["dup"] and len(c["edges"]) != 2 else len(c["edges"])
    elif t == "ncut":
        ev["nb"] = c["nb"]
        w = (max(fin) - min(fin)) if fin else 0
        if not fin or len(fin) != len([v for v in seen if v != NA]):
            return []
        if w and c["nb"] and (w * 8 * 64) % c["nb"]:
            return []  # an edge that is not a floating point number: on which side of it a value lies is rounding
        if not w and (c["nb"] % 2 == 0 and c["nb"]):
            return []
        if not w and (not c["right"] or c["badlab"]):
            return []
        ne = c["nb"] + 1
    elif t in ("qcut", "quant"):
        qs = c["q"] if isinstance(c["q"], list) else [[k, c["q"]] for k in range(c["q"] + 1)]
        ev["qs"] = qs
        if not fin:
            return []
        fq = [fl(q) for q in qs] if isinstance(c["q"], list) else np.linspace(0, 1, c["q"] + 1).tolist()
        s = sorted(fin)
        ex = []
        for q, f in zip(qs, fq):
            if (q[0] * (len(fin) - 1)) % q[1] == 0 and f * (len(fin) - 1) % 1 != 0:
                return []  # a rank that rounding moved off the value
            p = q[0] * (len(fin) - 1)
            lo = p // q[1]
            ex.append(s[lo] * q[1] if p % q[1] == 0 else s[lo] * q[1] + (p % q[1]) * (s[lo + 1] - s[lo]))
            ex[-1] = ex[-1] * (2520 // q[1])
        ne = len(set(ex)) if ev["dup"] and len(ex) != 2 else len(ex)
        if (len(ex) == 2 and ex[0] == ex[1]) or (t == "qcut" and ne < 2):
            return []  # no bin at all
    if t in ("cut", "ncut", "qcut") and ev["lab"] == "own":
        ev["nlab"] = max(0, ne - 1) + c["badlab"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = mk(kind, x)
        s0 = np.array(a._np)
        try:
            if run(c, t, ev, o, a) is None:
                return []
        except ValueError:
            o["raised"] = 1
    if a._np.tobytes() != s0.tobytes():
        o["frame"] = 0
    return ev


def num(v):
    try:
        return r8(float(v))
    except ValueError:
        return [BAD, 1]


def run(c, t, ev, o, a):
    if t == "search":
        arr = mk(c["kind"], c["arr"])
        s1 = np.array(arr._np)
        v = mk(c["k2"], c["x"])
        if c["scal"]:
            v = v._np[0].item()
        r = rt.searchsorted(arr, v, c["side"]) if c["form"] == "f" else arr.searchsorted(v, side=c["side"]) if c["form"] == "m" else np.searchsorted(arr, v, side=c["side"])
        ev["edges"], ev["side"] = c["arr"], c["side"]
        o["codes"] = [int(i) for i in np.atleast_1d(np.asarray(r))]
        if c["scal"] and np.ndim(r):
            o["codes"] = [BAD]
        if arr._np.tobytes() != s1.tobytes():
            o["frame"] = 0
        return 1
    if t == "quant":
        qs = [fl(q) for q in c["q"]]
        ev["side"] = c["how"]
        kw = {} if c["how"] == "fraction" else {"interpolation_method": c["how"]}
        if c["sc"]:
            o["bins"] = [r8(rt.rt_bin.quantile(a, q, **kw)[0]) for q in qs]
        else:
            o["bins"] = [r8(v) for v in rt.rt_bin.quantile(a, qs, **kw)[0]]
        return 1
    x = a if c["xf"] == "fa" else a._np if c["xf"] == "np" else a
    if c["xf"] == "list" and c["kind"] in ("i8", "f8") and len(c["x"]) and NA not in c["x"]:
        x = a._np.tolist()
    kw = {"duplicates": c["dup"]} if c["dup"] != "raise" else {}
    if c["lab"] == "None":
        kw["labels"] = None
    elif c["lab"] == "no":
        kw["labels"] = False
    elif c["lab"] == "own":
        kw["labels"] = ["L%d" % (i + 1) for i in range(ev["nlab"])]
        if not kw["labels"]:
            return None
    if c["ret"]:
        kw["retbins"] = True
    if c["m"] is not None:
        m = np.array(c["m"], dtype=bool)
        kw["filter"] = lay.fa(m) if c["mf"] == "fa" else m
    if t == "qcut":
        r = rt.qcut(x, c["q"] if not isinstance(c["q"], list) else [fl(q) for q in c["q"]], **kw)
    else:
        if not c["right"]:
            kw["right"] = False
        if t == "cut":
            if c["inclow"]:
                kw["include_lowest"] = True
            e = [val(v) for v in c["edges"]]
            if all(v % 8 == 0 and abs(v) != INF for v in c["edges"]):
                e = [v // 8 for v in c["edges"]]
            r = rt.cut(x, e if c["ef"] == "list" else np.array(e) if c["ef"] == "np" else rt.FA(np.array(e)), **kw)
        else:
            r = rt.cut(x, c["nb"], **kw)
    if c["ret"]:
        r, b = r
        o["bins"] = [r8(v) for v in np.asarray(b)]
    if c["lab"] == "no":
        if type(r) is not rt.FastArray:
            o["codes"] = [BAD]
        else:
            o["codes"] = [int(v) for v in r._np]
        return 1
    if not isinstance(r, rt.Categorical) or r.base_index != 1:
        o["codes"] = [BAD]
        return 1
    o["codes"] = [int(v) for v in r._fa._np]
    names = [s.decode() if isinstance(s, bytes) else str(s) for s in r.category_array.tolist()]
    if names[:1] == ["Clipped"]:
        o["clip"] = 1
        names = names[1:]
    if c["lab"] == "own":
        o["own"] = [int(s[1:]) if s[:1] == "L" and s[1:].isdigit() else BAD for s in names]
    else:
        o["lab"] = [[num(p) for p in (s.split("->") + ["x"])[:2]] for s in names]
    return 1
