"""C10: group-by reductions."""
import itertools

import numpy as np
import riptable as rt
import lay
from rgrp import *  # noqa
from proj import NA, BAD, col, same

OPS = ["sum", "nansum", "mean", "nanmean", "min", "nanmin", "max", "nanmax", "var", "nanvar", "std", "nanstd", "median", "nanmedian",
       "first", "last", "nth", "count", "count_uniques", "quantile", "nanquantile", "mode"]
VD = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8", "?"]
FORMS = ["cat", "cat_unordered", "gb", "gbu", "gb_of_cat", "codes", "b0", "setvalid", "as_cat", "slice", "cat_ordered"]
CALLS = ["direct", "list", "dict", "ds", "agg", "agglist", "aggdict", "aggfunc", "item", "attr", "transprop"]


SQ = ("var", "nanvar", "std", "nanstd")


def mkcase(rng, op=None, form=None, vdt=None, large=False):
    op = op or rng.choice(OPS)
    form = form or rng.choice(FORMS)
    multi = rng.random() < 0.3 and form in ("cat", "cat_unordered", "gb", "gbu", "as_cat", "cat_ordered")
    kd = [rng.choice(KD1) for _ in range(2 if multi else 1)]
    n = rng.choice([1, 2, 3, 5, 8, 12])
    if large:
        n, kd = rng.choice([140, 200, 270]), [rng.choice(["iL", "SL", "i4", "S"])]
    K = gen_keys(rng, n, kd)
    F = [1] * n if rng.random() < 0.5 or form in ("b0",) else [int(rng.random() < 0.7) for _ in range(n)]
    vdt = vdt or rng.choice(VD)
    na = 0 if op == "mode" or rng.random() < 0.3 else 0.25
    c = {"op": op, "form": form, "kd": kd, "K": K, "F": F, "vdt": vdt, "p": [0, 1], "tr": 0, "sf": 0, "call": "direct", "flt": 0}
    if form == "codes":
        kd[0] = rng.choice(["i4", "S", "U"])
        pool = list(range(2, len(POOL[kd[0]]) + 1))
        rng.shuffle(pool)
        c["perm"], c["cdt"] = pool, rng.choice(["i1", "i2", "i4", "i8"])
        c["K"] = [[rng.choice(pool)] for _ in range(n)]
    if form == "slice":
        c["how"] = rng.choice(["fancy", "bool"])
        idx = [rng.randrange(n) for _ in range(rng.randint(1, n))]
        c["idx"] = idx if c["how"] == "fancy" else sorted(set(idx))
        n = len(c["idx"])
    if form == "as_cat":
        c["how"] = rng.choice(["gb", "gbu"])
    c["vals"] = gen_vals(rng, n, vdt, na, [x for x in range(-3, 240)] if large and vdt in ("i2", "i4", "i8", "f4", "f8") and op not in SQ else None)
    c["opf"] = [1] * n
    if rng.random() < 0.35 and op != "nth":
        c["flt"] = 1
        c["opf"] = [int(rng.random() < 0.6) for _ in range(n)]
    if op == "nth":
        c["p"] = [rng.randint(0, 3), 1]
    if op in ("quantile", "nanquantile"):
        c["p"] = rng.choice([[0, 1], [1, 4], [1, 2], [3, 4], [1, 1]])
    r = rng.random()
    if r < 0.25:
        c["tr"] = 1
    elif r < 0.4 and op not in ("nth",):
        c["sf"] = 1
    c["call"] = rng.choice(CALLS)
    # a second column rides along: the first one must not be affected by it
    c["extra"] = int(rng.random() < 0.4)
    if rng.random() < 0.4:
        c["pre"] = [[rng.choice(["groupings", "count", "first", "cumsum", "median", "transform", "fill", "last"]), [int(rng.random() < 0.5) for _ in range(n)]] for _ in range(rng.randint(1, 2))]
    return c


def ok_case(c):
    op, form = c["op"], c["form"]
    cat = form not in ("gb", "gbu", "gb_of_cat")
    if c["call"] in ("item", "attr", "transprop") and cat:
        return False
    if c["call"] in ("list", "dict", "ds") and not cat:
        return False
    if c["vdt"] == "?" and op in ("median", "nanmedian", "quantile", "nanquantile", "mode"):
        return False
    if op == "count" and cat and c["sf"]:
        return False
    if c["call"] == "aggfunc" and op not in ("sum", "mean", "min", "max", "nansum", "nanmean", "nanmin", "nanmax", "var", "std", "median"):
        return False
    if c["call"].startswith("agg") and (op in ("quantile", "nanquantile", "nth", "count", "count_uniques", "mode") or c["sf"] or c["tr"]):
        return False
    if op in ("count", "count_uniques", "nth") and c["call"] not in ("direct",):
        return False
    if c["call"] == "transprop" and (c["flt"] or c["sf"]):
        return False
    if op == "nth" and c["vdt"] == "?":
        return False
    if op in ("nth", "mode") and c["tr"]:
        return False
    if op == "count_uniques" and c["sf"]:
        return False
    if op == "nth" and (c["flt"] or c["sf"]):
        return False
    # a boolean column: only the arithmetic reductions that accept one
    return True


def cases(tier, rng):
    big = tier == "thorough"
    # every operation x value dtype x grouping form
    for op in OPS:
        for vdt in VD:
            for form in (FORMS if big else FORMS[:5]):
                c = mkcase(rng, op, form, vdt)
                if ok_case(c):
                    yield c
    # long tables, many groups, many distinct values (narrow internal counters and codes would wrap)
    for op in OPS:
        for r in range(0 if op in SQ else 4 if big else 1):  # variance of a long group has too large a denominator to be decoded exactly
            for k in range(20):
                c = mkcase(rng, op, large=True)
                if ok_case(c):
                    yield c
                    break
        if op in ("count_uniques", "count", "sum", "max"):
            yield {"op": op, "form": "cat", "kd": ["i4"], "K": [[1 + (i == 7)] for i in range(200)], "F": [1] * 200, "vdt": "i4", "p": [0, 1], "tr": 0, "sf": 0, "call": "direct",
                   "flt": 0, "vals": list(range(200)), "opf": [1] * 200, "extra": 0}
    # exhaustive: tiny tables, one op each
    for n in (1, 2, 3):
        for ks in itertools.product([1, 2], repeat=n):
            for vs in itertools.product([NA, 0, 2], repeat=n):
                for op in OPS[:-1]:
                    if not big and (sum(ks) + sum(v % 7 for v in vs) + len(op)) % 3:
                        continue
                    yield {"op": op, "form": "cat", "kd": ["i4"], "K": [[k] for k in ks], "F": [1] * n, "vdt": "f8" if len(op) % 2 else "i4", "p": [1, 2] if "quantile" in op else [0, 1],
                           "tr": 0, "sf": 0, "call": "direct", "flt": 0, "vals": list(vs), "opf": [1] * n, "extra": 0}
    N = 16000 if big else 4500
    k = 0
    while k < N:
        c = mkcase(rng)
        if ok_case(c):
            k += 1
            yield c


def call(obj, c, v, isgb):
    op, p = c["op"], c["p"]
    kw = {}
    n = len(c["vals"])
    if c["flt"]:
        kw["filter"] = lay.fa(np.array([f == 1 for f in c["opf"]], dtype=bool))
    if c["tr"] and c["call"] != "transprop":
        kw["transform"] = True
    if c["sf"]:
        kw["showfilter"] = True
    args = []
    if op == "nth":
        args = [p[0]]
    if op in ("quantile", "nanquantile"):
        kw["q"] = [p[0] / p[1]]
    if op == "count":
        return obj.count(**kw)
    extra = rt.FA(np.arange(n, dtype=np.float64) + 100)
    if isgb:
        o2 = obj
        if c["call"] == "item":
            o2 = obj["v"]
        elif c["call"] == "attr":
            o2 = obj.v
        elif c["call"] == "transprop":
            o2 = obj.transform
        if c["call"] == "agg":
            return obj.agg(op, **kw)
        if c["call"] == "agglist":
            return obj.agg([op, "sum"], **kw)
        if c["call"] == "aggdict":
            return obj.agg({"v": [op, np.min]}, **kw)
        if c["call"] == "aggfunc":
            return obj.agg([getattr(np, op), np.sum], **kw)
        return getattr(o2, op)(*args, **kw)
    data = v
    if c["call"] == "list":
        data = [v, extra] if c["extra"] else [v]
    elif c["call"] == "dict":
        data = {"v": v, "w": extra} if c["extra"] else {"v": v}
    elif c["call"] == "ds":
        data = rt.Dataset({"v": v, "w": extra} if c["extra"] else {"v": v})
    if c["call"] == "agg":
        return obj.agg(op, v, **kw)
    if c["call"] == "agglist":
        return obj.agg([op, "sum"], v, **kw)
    if c["call"] == "aggdict":
        return obj.agg([op], {"v": v}, **kw)
    if c["call"] == "aggfunc":
        return obj.agg([np.min, getattr(np, op)], v, **kw)
    if op == "nth":
        return obj.nth(v, n=p[0]) if not isgb else obj.nth(p[0])
    return getattr(obj, op)(data, *args, **kw)


def execute(case):
    obj, cols, flt, mode, given, K, F = build(case)
    if case["op"] == "nansum" and case["vdt"] == "f4" and len(case["vals"]) <= obj.grouping.unique_count:
        return []  # riptide_cpp leaves float32 nansum uninitialised for empty groups when there are fewer rows than bins (engine, not this repository)
    isgb = isinstance(obj, rt.GroupBy)
    v = mkvals(case["vals"], case["vdt"])
    vb = v.copy()
    if isgb:
        ds = obj._dataset
        ds.v = v  # same row count: replaces the placeholder
        if case["extra"]:
            ds["w"] = rt.FA(np.arange(len(v), dtype=np.float64) + 100)
        kd = ["k%d" % j for j in range(len(case["kd"]))]
        kw = {} if flt is None else {"filter": flt}
        if case["form"] == "gb_of_cat":
            obj = ds.gb("k0")
        else:
            obj = getattr(ds, case["form"])(kd, **kw)
            mode = "lex" if case["form"] == "gb" else "first"
    ev = {"t": "agg", "K": K, "F": F, "mode": mode, "given": given, "op": case["op"], "p": case["p"], "vals": case["vals"], "opf": case["opf"],
          "showf": case["sf"], "transform": case["tr"] if case["call"] != "transprop" else 1, "raised": 0, "vb": int(case["vdt"] == "?")}
    for what, f in case.get("pre", []):
        # earlier operations on the same object must not influence this one
        fl = lay.fa(np.array([x == 1 for x in f], dtype=bool))
        w = rt.FA(np.arange(len(v), dtype=np.float64))
        if what == "groupings":
            obj.get_groupings(filter=fl)
        elif what == "count":
            obj.count(filter=fl)
        elif what in ("cumsum", "first", "median", "sum", "last"):
            getattr(obj, what)(filter=fl) if isgb else getattr(obj, what)(w, filter=fl)
        elif what == "transform":
            obj.sum(transform=True) if isgb else obj.sum(w, transform=True)
        elif what == "fill" and case["vdt"] != "?":
            obj.fill_forward() if isgb else obj.fill_forward(w)
    r = call(obj, case, v, isgb)
    kc = len(case["kd"])
    sq = case["op"] in ("std", "nanstd")
    if isinstance(r, rt.Multiset):
        r = r[case["op"].capitalize()]
    assert isinstance(r, rt.Dataset), type(r)
    names = list(r.keys())
    labs = list(r.label_get_names())
    data = [x for x in names if x not in labs]
    groups = []
    if ev["transform"]:
        data = [x for x in data if x not in ("k0", "k1")]
    res = r["v"] if "v" in data else r[data[0]]
    if not ev["transform"]:
        assert len(labs) == kc, labs
        if not case["sf"]:
            gc = [ranks(r[k], d) for k, d in zip(labs, case["kd"])]
        else:
            gc = []
            for k, d in zip(labs, case["kd"]):
                a = r[k]
                gc.append(ranks(a[1:], d) if a.dtype.kind == mkcol([1], d).dtype.kind else strip(a[1:], d))
        groups = [list(t) for t in zip(*gc)]
    ev["obs"] = {"groups": groups, "res": ratcol(res, sq), "frame": int(same(vb, v))}
    evs = [ev]
    if case["extra"] and len(data) > 1 and case["op"] != "count":
        # the column that rode along
        wn = "w" if "w" in data else data[1]
        e2 = dict(ev)
        e2["vals"] = [100 + i for i in range(len(case["vals"]))]
        e2["vb"] = 0
        e2["obs"] = {"groups": groups, "res": ratcol(r[wn], sq), "frame": 1}
        evs.append(e2)
    return evs


def strip(a, d):
    """key column that was turned into text to make room for the 'Filtered' label"""
    ref = [str(x) if not isinstance(x, bytes) else x.decode("latin-1") for x in mkcol(list(range(1, len(POOL[d]) + 1)), d).astype("U").tolist()]
    out = []
    for x in np.asarray(a).tolist():
        x = x.decode("latin-1") if isinstance(x, bytes) else x
        out.append(ref.index(x) + 1 if x in ref else BAD)
    return out
