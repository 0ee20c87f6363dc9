"""C11: group-by operations that return one value per row."""
import itertools

import numpy as np
import riptable as rt
import lay
from rgrp import *  # noqa
from proj import NA, BAD, col, same
import c10

OPS = ["cumsum", "cumprod", "cummin", "cummax", "cumcount", "rolling_count", "rolling_sum", "rolling_nansum", "rolling_mean", "rolling_nanmean",
       "rolling_median", "shift", "rolling_shift", "diff", "rolling_diff", "fill_forward", "fill_backward", "findnth", "apply_nonreduce"]
NOVAL = ("cumcount", "rolling_count", "findnth")


def mkcase(rng, op=None, form=None, vdt=None, large=False):
    c = c10.mkcase(rng, "first", form, vdt, large)
    op = op or rng.choice(OPS)
    c["op"] = op
    n = len(c["vals"])
    c.update(tr=0, sf=0, flt=0, opf=[1] * n, rst=[0] * n, rs=0, p=[0, NA], call=rng.choice(["direct", "list", "dict", "ds", "item"]))
    isf = c["vdt"][0] == "f"
    na = 0.0
    if op in ("cumsum", "cumprod"):
        na = 0.1 if isf else 0
    elif op in ("cummin", "cummax"):
        na = 0.25
    elif op.startswith("rolling") or op in ("shift", "diff"):
        na = 0 if op in ("rolling_sum", "rolling_mean") else 0.2 if isf or op in ("shift", "rolling_shift") else 0
    elif op.startswith("fill"):
        na = 0.45
    elif op == "apply_nonreduce":
        na = 0
    pool = None
    if op == "cumprod":
        pool = [1, 2, 0, 1] if c["vdt"][0] == "u" else [-1, 1, 2, 0, 1]
    if op in ("diff", "rolling_diff") and c["vdt"][0] == "u":
        c["vdt"] = "i" + c["vdt"][1]
    if c["vdt"] == "?":
        c["vdt"] = "i4"
    c["vals"] = gen_vals(rng, n, c["vdt"], na, pool)
    if op in ("cumsum", "cumprod", "findnth") and rng.random() < 0.4:
        c["flt"], c["opf"] = 1, [int(rng.random() < 0.6) for _ in range(n)]
    if op in ("cumsum", "cumprod") and rng.random() < 0.35:
        c["rs"], c["rst"] = 1, [int(rng.random() < 0.3) for _ in range(n)]
    if op == "cumcount":
        c["p"] = [rng.randint(0, 1), 0]
    if op.startswith("rolling_") and op not in ("rolling_count", "rolling_shift", "rolling_diff"):
        c["p"] = [rng.randint(1, 4), 0]
    if op in ("shift", "rolling_shift", "diff", "rolling_diff"):
        c["p"] = [rng.choice([1, 1, 2, 3, -1, -2]), 0]
    if op.startswith("fill"):
        c["p"] = [rng.choice([0, 0, 1, 2]), rng.choice([NA, NA, 5])]
    return c


def ok_case(c):
    cat = c["form"] not in ("gb", "gbu", "gb_of_cat")
    if cat and c["call"] == "item" or not cat and c["call"] in ("list", "dict", "ds"):
        return False
    if cat and c["op"] in ("shift", "diff"):
        return False
    if c["op"] in NOVAL and c["call"] != "direct":
        return False
    if c["op"] == "apply_nonreduce" and c["call"] == "item":
        return False
    return True


def cases(tier, rng):
    big = tier == "thorough"
    for op in OPS:
        for vdt in c10.VD:
            for form in (c10.FORMS if big else c10.FORMS[:5]):
                c = mkcase(rng, op, form, vdt)
                if ok_case(c):
                    yield c
    for op in OPS:
        if op == "cumprod":
            continue
        for k in range(20):
            c = mkcase(rng, op, large=True)
            if ok_case(c):
                yield c
                break
    # exhaustive tiny tables
    for n in (1, 2, 3):
        for ks in itertools.product([1, 2], repeat=n):
            for fs in itertools.product([0, 1], repeat=n):
                for vs in itertools.product([NA, 1, 2], repeat=n):
                    for op in ("fill_forward", "fill_backward", "cumsum", "rolling_shift", "rolling_nansum"):
                        if not big and (sum(ks) * 3 + sum(fs) + sum(v % 5 for v in vs) + len(op)) % 4:
                            continue
                        yield {"op": op, "form": "cat", "kd": ["i4"], "K": [[k] for k in ks], "F": list(fs), "vdt": "f8", "p": {"fill_forward": [0, NA], "fill_backward": [1, NA], "cumsum": [0, 0], "rolling_shift": [1, 0], "rolling_nansum": [2, 0]}[op],
                               "tr": 0, "sf": 0, "call": "direct", "flt": 0, "rs": 0, "vals": list(vs), "opf": [1] * n, "rst": [0] * n, "extra": 0}
    N = 18000 if big else 6000
    k = 0
    while k < N:
        c = mkcase(rng)
        if ok_case(c):
            k += 1
            yield c


def call(obj, c, v, isgb):
    op, p = c["op"], c["p"]
    kw, args = {}, []
    bo = lambda x: lay.fa(np.array([f == 1 for f in x], dtype=bool))
    if c["flt"]:
        kw["filter"] = bo(c["opf"])
    if c["rs"]:
        kw["reset_filter"] = bo(c["rst"])
    if op == "cumcount":
        return obj.cumcount(ascending=bool(p[0]))
    if op == "rolling_count":
        return obj.rolling_count() if isgb else obj.rolling_count(v)
    if op == "findnth":
        return obj.findnth(**kw) if isgb else obj.findnth(v, **kw)
    if op == "apply_nonreduce":
        f = lambda x: x + x.sum()
        return obj.apply_nonreduce(f) if isgb else obj.apply_nonreduce(f, v)
    if op in ("shift", "rolling_shift") or op.startswith("rolling") and op not in ("rolling_diff",):
        kw["window" if op != "shift" else "window"] = p[0]
    elif op == "rolling_diff":
        kw["window"] = p[0]
    elif op == "diff":
        kw["period"] = p[0]
    elif op.startswith("fill"):
        if p[0]:
            kw["limit"] = p[0]
        if p[1] != NA:
            kw["fill_val"] = p[1]
    extra = rt.FA(np.arange(len(v), dtype=np.float64) + 100)
    if isgb:
        o2 = obj["v"] if c["call"] == "item" else obj
        return getattr(o2, op)(**kw)
    data = v
    if c["call"] == "list":
        data = [v, extra] if c["extra"] else [v]
    elif c["call"] == "dict":
        data = {"v": v, "w": extra} if c["extra"] else {"v": v}
    elif c["call"] == "ds":
        data = rt.Dataset({"v": v, "w": extra} if c["extra"] else {"v": v})
    return getattr(obj, op)(data, **kw)


def execute(case):
    obj, cols, flt, mode, given, K, F = build(case)
    isgb = isinstance(obj, rt.GroupBy)
    v = mkvals(case["vals"], case["vdt"])
    vb = v.copy()
    if isgb:
        ds = obj._dataset
        ds.v = v
        if case["extra"]:
            ds["w"] = rt.FA(np.arange(len(v), dtype=np.float64) + 100)
        kd = ["k%d" % j for j in range(len(case["kd"]))]
        kw = {} if flt is None else {"filter": flt}
        obj = ds.gb("k0") if case["form"] == "gb_of_cat" else getattr(ds, case["form"])(kd, **kw)
    ev = {"t": "row", "K": K, "F": F, "mode": mode, "given": given, "op": case["op"], "p": case["p"], "vals": case["vals"], "opf": case["opf"],
          "rst": case["rst"], "raised": 0}
    for what, f in case.get("pre", []):
        # earlier operations on the same object must not influence this one
        fl = lay.fa(np.array([x == 1 for x in f], dtype=bool))
        w = rt.FA(np.arange(len(v), dtype=np.float64))
        if what == "groupings":
            obj.get_groupings(filter=fl)
        elif what == "count":
            obj.count(filter=fl)
        elif what in ("cumsum", "first", "median", "sum", "last"):
            getattr(obj, what)(filter=fl) if isgb else getattr(obj, what)(w, filter=fl)
        elif what == "transform":
            obj.sum(transform=True) if isgb else obj.sum(w, transform=True)
        elif what == "fill" and case["vdt"] != "?":
            obj.fill_forward() if isgb else obj.fill_forward(w)
    r = call(obj, case, v, isgb)
    if isinstance(r, rt.Dataset):
        names = [x for x in r.keys() if x not in r.label_get_names()]
        if isgb or case["op"] in NOVAL:
            names = [x for x in names if x not in ("k0", "k1")]
        res = r["v"] if "v" in names else r[names[0]]
    else:
        res = r
    ev["obs"] = {"res": ratcol(res), "frame": int(same(vb, v))}
    evs = [ev]
    if case["extra"] and isinstance(r, rt.Dataset) and len(names) > 1:
        e2 = dict(ev)
        e2["vals"] = [100 + i for i in range(len(case["vals"]))]
        e2["obs"] = {"res": ratcol(r["w" if "w" in names else names[1]]), "frame": 1}
        if case["op"] != "cumprod":
            evs.append(e2)
    return evs
