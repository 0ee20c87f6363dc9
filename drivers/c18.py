"""C18: reductions and summaries of columns and tables."""
import warnings

import lay
import numpy as np
import riptable as rt
from proj import BAD, NA, sentinel
from rgrp import rat

INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLTS = ["f4", "f8"]
NUM = INTS + FLTS
RED = ["sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "var", "nanvar", "std", "nanstd", "median", "nanmedian", "argmin", "argmax", "nanargmin", "nanargmax", "nunique", "percentile", "nanpercentile"]
FILT = ["nansum", "mean", "nanmean", "var", "nanvar", "std", "nanstd"]
QS = [[0, 1], [1, 10], [1, 4], [1, 2], [3, 4], [9, 10], [1, 1]]


def mkn(kind, x):
    if kind == "?":
        return lay.fa(np.array(x, dtype=bool))
    a = np.zeros(len(x), dtype=kind)
    for i, v in enumerate(x):
        a[i] = v if v != NA else np.nan if kind in FLTS else sentinel(np.dtype(kind))
    return lay.fa(a)


def sc(v, sq=False):
    """a scalar result -> rational; a missing integer of any size is missing"""
    if isinstance(v, np.ndarray):
        if v.ndim == 0 or v.size == 1:
            v = v.reshape(-1)[0]
        else:
            return [BAD, 1]
    if isinstance(v, np.generic) and v.dtype.kind in "iu" and v == sentinel(v.dtype):
        return [NA, 1]
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool) and int(v) in (-(2**63), 2**64 - 1):
        return [NA, 1]
    if not isinstance(v, (bool, int, float, np.generic)) or isinstance(v, (np.bytes_, np.str_)):
        return [BAD, 1]
    if sq:
        v = float(v) * float(v)
    r = rat(v)
    return [BAD, 1] if abs(r[0]) >= 2**31 and r[0] not in (NA, BAD) else r


def vals(rng, kind, n, na):
    lo = 0 if kind[0] == "u" else -3
    if kind == "?":
        return [rng.randint(0, 1) for _ in range(n)]
    return [NA if rng.random() < na else rng.randint(lo, 7) for _ in range(n)]


def mkcase(rng, t=None, op=None, kind=None):
    t = t or rng.choice(["red"] * 6 + ["filt"] * 3 + ["ds0"] * 3 + ["ds1", "ds1", "dsn", "quant", "desc", "desc", "roll", "roll", "twin", "count", "bool", "big"])
    kind = kind or rng.choice(NUM)
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8])
    na = rng.choice([0, 0, 0.2, 0.5])
    c = {"t": t, "form": rng.choice(["m", "f", "np"])}
    if t == "red":
        c["op"] = op or rng.choice(RED)
        if c["op"] in ("median", "percentile", "nanpercentile") and kind in INTS:
            na = 0  # NumPy's: knows no missing integer
        c["kind"], c["x"] = kind, vals(rng, kind, n, na)
        c["q"] = rng.choice(QS)
        c["ddof"] = rng.choice([None, None, 1])
    elif t == "filt":
        c["op"] = op or rng.choice(FILT)
        c["kind"], c["x"] = kind, vals(rng, kind, n, na)
        c["m"] = [int(rng.random() < 0.7) for _ in range(n)]
        c["ff"] = rng.choice(["fa", "np", "True"])
        if c["ff"] == "True":
            c["m"] = [1] * n
    elif t in ("ds0", "ds1", "dsn"):
        c["op"] = op or rng.choice(["sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "var", "nanvar", "std", "nanstd", "nanmedian", "count", "argmin", "argmax", "nanargmin", "nanargmax", "median"])
        n = max(n, 1)
        nc = rng.randint(1, 4 if t != "dsn" or n <= 5 else 2)
        ks = [rng.choice(NUM) for _ in range(nc)]
        if t != "ds0" and rng.random() < 0.6:
            ks = [kind] * nc
        if c["op"] == "median":
            ks = [rng.choice(FLTS) for _ in ks]
        # along rows and over all cells the columns become one NumPy matrix: missing integers only by column
        c["ks"] = ks
        c["cols"] = [vals(rng, k, n, na if t == "ds0" or k in FLTS else 0) for k in ks]
        # (a row's minimum over text and numbers is not defined)
        c["extra"] = rng.choice([[], [], ["s"], ["c"], ["s", "c"]]) if t == "ds0" or (t == "ds1" and c["op"] not in ("min", "max", "nanmin", "nanmax", "count")) else []
        c["xpos"] = rng.randint(0, 1)
        c["as"] = rng.randint(0, 1)
        c["fill"] = rng.choice(["no", "no", "num", "dict", "fun"])
    elif t == "bool":
        c["t"] = "red"
        c["op"] = rng.choice(["sum", "nansum", "mean", "min", "max", "any", "all"])
        c["kind"] = "?" if c["op"] not in ("any", "all") else rng.choice(NUM + ["?"])
        c["x"] = [int(rng.random() < p) for p in [rng.choice([0.1, 0.5, 0.9])] for _ in range(n)]
        c["q"], c["ddof"] = [1, 2], None
    elif t in ("quant", "desc"):
        c["op"], c["kind"], c["x"] = t, kind, vals(rng, kind, max(1, n), na)
        c["qs"] = rng.choice([[], [], [[1, 2]], [[0, 1], [1, 4], [1, 1]], [[1, 10], [9, 10]]])
        c["form"] = rng.choice(["ds", "fa"]) if t == "desc" else "ds"
    elif t == "roll":
        c["op"] = rng.choice(["rolling_sum", "rolling_nansum", "rolling_mean", "rolling_nanmean"])
        # a missing integer is a number to the plain and mean versions, a NaN stays in the plain ones' running total
        c["kind"], c["x"] = kind, vals(rng, kind, n, na if (kind in FLTS and "nan" in c["op"]) or c["op"] == "rolling_nansum" else 0)
        c["w"] = rng.choice([1, 2, 3, 3, n, n + 2]) or 1
    elif t == "twin":
        c["op"] = rng.choice(["timewindow_sum", "timewindow_prod"])
        c["kind"], c["x"] = "i8", [rng.randint(1, 4) for _ in range(n)]
        c["tm"] = sorted(rng.randint(0, 12) for _ in range(n))
        c["w"] = rng.choice([0, 1, 2, 5, 20])
    elif t == "count":
        c["op"], c["kind"], c["x"] = "count", kind, vals(rng, kind, n, 0)
        c["m"] = [int(rng.random() < 0.7) for _ in range(n)] if rng.random() < 0.4 else None
        c["srt"] = rng.randint(0, 1)
    elif t == "big":
        c["t"] = "red"
        c["op"] = rng.choice(["sum", "nansum", "mean", "nanmean", "min", "max", "nanmin", "nanmax", "argmin", "argmax", "nanargmin", "nanargmax", "nunique"])
        c["kind"], c["x"] = kind, vals(rng, kind, rng.choice([127, 129, 255, 257, 300]), na)
        c["q"], c["ddof"] = [1, 2], None
    return c


def cases(tier, rng):
    big = tier == "thorough"
    for op in RED:
        for kind in NUM:
            for _ in range(12 if big else 4):
                yield mkcase(rng, "red", op, kind)
    for op in FILT:
        for kind in NUM:
            for _ in range(12 if big else 4):
                yield mkcase(rng, "filt", op, kind)
    for kind in NUM:
        for t in ("quant", "desc", "roll", "count"):
            for _ in range(12 if big else 4):
                yield mkcase(rng, t, None, kind)
    for _ in range(24000 if big else 4000):
        yield mkcase(rng)


def shard(c):
    return ("filt", c["kind"]) if c["t"] == "filt" else None


def call(c, a, op, **kw):
    if c["form"] == "m":
        return getattr(a, op)(**kw)
    if c["form"] == "f" and hasattr(rt, op):
        return getattr(rt, op)(a, **kw)
    if c["form"] == "np" and hasattr(np, op) and not kw and op[-3:] not in ("var", "std"):  # NumPy's own default ddof is 0
        return getattr(np, op)(a)
    return getattr(a, op)(**kw)


def execute(c):
    t, op = c["t"], c["op"]
    ev = {"t": "red" if t == "filt" else t, "op": op, "x": c.get("x", []), "m": [], "hasm": 0, "p": [1], "cols": c.get("cols", []), "qs": [], "tm": c.get("tm", []), "refuse": 0}
    o = {"raised": 0, "frame": 1, "names": 1, "out": []}
    ev["obs"] = o
    ins = []

    def keep(a):
        ins.append((a, np.array(a._np)))
        return a

    x = c.get("x", [])
    valid = [v for v in x if v != NA]
    if t == "red" and not x and op not in ("sum", "nansum", "any", "all", "nunique"):
        return []  # an empty column: refused or NaN, differently by name
    if t == "red" and not valid and x and op in ("nanmean", "nanargmin", "nanargmax", "nanmin", "nanmax"):
        if op in ("nanmean", "nanmin", "nanmax"):
            return []  # the engine gives 0, or a missing value of some size
        ev["refuse"] = 1
    if t == "filt":
        sel = [v for v, k in zip(x, c["m"]) if k]
        ev["m"], ev["hasm"] = c["m"], 1
        nn = [v for v in sel if v != NA] if op.startswith("nan") else sel
        if not nn and op != "nansum":
            return []  # documented as a division by zero
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            o["out"] = run(c, t, op, ev, o, keep)
        except ValueError:
            if not ev["refuse"]:
                raise
            o["raised"] = 1
    if o["out"] is None:
        return []
    for a, s in ins:
        if a._np.tobytes() != s.tobytes():
            o["frame"] = 0
    return ev


def run(c, t, op, ev, o, keep):
    sq = op in ("std", "nanstd")
    if t in ("red", "filt"):
        a = keep(mkn(c["kind"], c["x"]))
        kw = {}
        if t == "filt":
            m = np.array(c["m"], dtype=bool)
            kw["filter"] = True if c["ff"] == "True" else lay.fa(m) if c["ff"] == "fa" else m
        if op in ("percentile", "nanpercentile"):
            q = c["q"][0] / c["q"][1] * 100
            ev["p"] = c["q"]
            return [sc(getattr(rt, op)(a, q) if c["form"] == "f" else getattr(a, op)(q=q))]
        if op in ("var", "nanvar", "std", "nanstd") and t == "red" and c["ddof"] is not None:
            kw["ddof"] = c["ddof"]
        if op == "nunique":
            return [sc(a.nunique())]
        r = call(c, a, op, **kw)
        return [sc(r, sq)]
    if t in ("ds0", "ds1", "dsn"):
        names = ["a", "b", "c", "d"][: len(c["ks"])]
        ds = rt.Dataset({m: keep(mkn(k, x)) for m, k, x in zip(names, c["ks"], c["cols"])})
        n = len(c["cols"][0])
        if op in ("argmin", "argmax", "nanargmin", "nanargmax", "nanmean", "nanmin", "nanmax", "nanvar", "nanstd", "nanmedian"):
            grid = c["cols"] if t == "ds0" else [list(r) for r in zip(*c["cols"])] if t == "ds1" else [sum(c["cols"], [])]
            if any(all(v == NA for v in g) for g in grid):
                return None
        if t == "dsn" and op in ("nanargmin", "nanargmax"):
            return None
        if t != "ds0" and op == "nanmedian" and any(v == NA for x in c["cols"] for v in x) and any(k in INTS for k in c["ks"]):
            pass
        fv = None
        for e in c["extra"]:
            ds[e + "x"] = rt.FA(["q"] * n) if e == "s" else rt.Cat(["u"] * n)
        if t == "ds1" and c["xpos"] and c["extra"]:
            ds.col_move_to_front([e + "x" for e in c["extra"]])
        kw = {}
        if c["extra"] and c["fill"] != "no":
            kw["fill_value"] = {"num": 7, "dict": {"sx": 5}, "fun": lambda col, **k: 3}[c["fill"]]
        if op == "count":
            ev["op"] = "count"
        if t == "ds0":
            r = getattr(ds, op)(**kw) if c["as"] else getattr(ds, op)(as_dataset=False, **kw)
            ks = [k for k in r.keys()]
            fills = {"num": {"s": 7, "c": 7}, "dict": {"s": 5}, "fun": {"s": 3, "c": 3}, "no": {}}[c["fill"] if c["extra"] else "no"]
            dflt = op in ("min", "max", "nanmin", "nanmax", "count") and "fill_value" not in kw
            want = names + [e + "x" for e in c["extra"] if e in fills or dflt]
            if ks != want or (type(r) is not (rt.Dataset if c["as"] else rt.Struct)):
                o["names"] = 0
            for e in c["extra"]:
                if e in fills and e + "x" in ks and sc(r[e + "x"]) != [fills[e], 1]:
                    o["names"] = 0
                if dflt and e == "s" and e + "x" in ks and op != "count" and np.asarray(r[e + "x"]).reshape(-1).tolist() != [b"q"]:
                    o["names"] = 0
            return [sc(r[m], sq) for m in names if m in ks]
        if t == "ds1":
            r = getattr(ds, op)(axis=1)
            if not isinstance(r, np.ndarray) or r.ndim != 1:
                return [[BAD, 1]]
            return [sc(v, sq) for v in np.asarray(r)]
        return [sc(getattr(ds, op)(axis=None), sq)]
    if t == "quant":
        ds = rt.Dataset({"a": keep(mkn(c["kind"], c["x"])), "s": ["z"] * len(c["x"])})
        ev["qs"] = c["qs"] or [[1, 2]]
        r = ds.quantile([q[0] / q[1] for q in c["qs"]]) if c["qs"] else ds.quantile()
        if list(r.keys()) != ["Stats", "a"] or r.label_get_names() != ["Stats"]:
            o["names"] = 0
        return [sc(v) for v in np.asarray(r["a"])]
    if t == "desc":
        ev["qs"] = c["qs"] or [[1, 10], [1, 4], [1, 2], [3, 4], [9, 10]]
        a = keep(mkn(c["kind"], c["x"]))
        q = [q[0] / q[1] for q in c["qs"]] if c["qs"] else None
        if c["form"] == "ds":
            r = rt.Dataset({"a": a, "s": ["z"] * len(a)}).describe(q=q)
            v = r["a"]
            nm = ["Stats", "a"]
        else:
            r = a.describe(q=q)
            v = r["Col0"]
            nm = ["Stats", "Col0"]
        lab = ["Count", "Valid", "Nans", "Mean", "Std", "Min"] + ["P%d" % (100 * q[0] // q[1]) for q in ev["qs"]] + ["Max", "MeanM"]
        if list(r.keys()) != nm or [s.decode() if isinstance(s, bytes) else s for s in r["Stats"].tolist()] != lab:
            o["names"] = 0
        return [sc(x, i == 4) for i, x in enumerate(np.asarray(v))]
    if t == "roll":
        a = keep(mkn(c["kind"], c["x"]))
        ev["p"] = [c["w"]]
        r = getattr(a, op)(c["w"]) if c["form"] != "f" else getattr(a, op)(window=c["w"])
        return [sc(v) for v in np.asarray(r)]
    if t == "twin":
        a, tm = keep(mkn("i8", c["x"])), keep(mkn("i8", c["tm"]))
        ev["p"] = [c["w"]]
        return [sc(v) for v in np.asarray(getattr(a, op)(tm, c["w"]))]
    if t == "count":
        a = keep(mkn(c["kind"], c["x"]))
        ev["p"] = [c["srt"]]
        kw = {}
        if c["m"] is not None:
            ev["m"], ev["hasm"] = c["m"], 1
            kw["filter"] = lay.fa(np.array(c["m"], dtype=bool))
        r = a.count(sorted=bool(c["srt"]), **kw)
        if list(r.keys()) != ["Unique", "Count"]:
            o["names"] = 0
        return [sc(v) for v in np.asarray(r[0])] + [sc(v) for v in np.asarray(r[1])]
    raise AssertionError(t)
