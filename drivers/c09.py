"""C09: the grouping of rows by key."""
import itertools

import numpy as np
import riptable as rt
import lay
from rgrp import *  # noqa
from proj import NA, BAD, col, same


def cases(tier, rng):
    big = tier == "thorough"
    # exhaustive small worlds: every key pattern, every filter, up to 4 rows, two dtypes
    forms1 = ["cat", "cat_unordered", "gb", "gbu", "raw", "setvalid", "cat_lex", "cat_dict"]
    for n in range(1, 5 if big else 4):
        for ks in itertools.product([1, 2, 3], repeat=n):
            for fs in itertools.product([0, 1], repeat=n):
                for form in forms1:
                    if form == "cat_lex" and 0 in fs:
                        continue
                    yield {"op": form, "form": form, "kd": ["i4" if sum(ks) % 2 else "S"], "K": [[k] for k in ks], "F": list(fs)}
    N = 9000 if big else 2600
    f1 = ["cat", "cat_ordered", "cat_unordered", "cat_lex", "cat_dict", "b0", "gb", "gbu", "raw", "codes", "codes0", "valcats", "slice",
          "catofcat", "gb_of_cat", "setvalid", "as_cat", "hstack"]
    f2 = ["cat", "cat_ordered", "cat_unordered", "gb", "gbu", "raw", "cat_dict", "as_cat", "setvalid"]
    for t in range(N):
        multi = rng.random() < 0.35
        form = rng.choice(f2 if multi else f1)
        kd = [rng.choice(KD1 + (["cat"] if form in ("gb", "gbu") and False else [])) for _ in range(rng.choice([2, 2, 3]) if multi else 1)]
        n = rng.choice([1, 2, 3, 5, 8, 12])
        K = gen_keys(rng, n, kd)
        F = [1] * n if rng.random() < 0.4 or form in ("b0", "codes0", "cat_lex") else [int(rng.random() < 0.7) for _ in range(n)]
        c = {"op": form, "form": form, "kd": kd, "K": K, "F": F}
        if rng.random() < 0.2 and form != "cat_lex":
            c["ff"] = 1
        if form in ("codes", "codes0", "valcats"):
            kd[0] = c["kd"][0] = rng.choice(["i4", "S", "U", "f8", "i8"] if form != "valcats" else ["S", "U"])
            pool = [r for r in range(1, len(POOL[kd[0]]) + 1)]
            if kd[0] in ("S", "U"):
                pool = pool[1:]
            if kd[0] in ("f8",):
                pool = pool[1:4]
            if kd[0] in ("i4", "i8"):
                pool = pool[1:]
            rng.shuffle(pool)
            c["perm"] = pool
            c["K"] = [[rng.choice(pool)] for _ in range(n)]
            c["cdt"] = rng.choice(["i1", "i2", "i4", "i8"])
        if form == "slice":
            c["how"] = rng.choice(["fancy", "bool"])
            idx = [rng.randrange(n) for _ in range(rng.randint(1, n))] if n else []
            c["idx"] = idx if c["how"] == "fancy" else sorted(set(idx))
        if form == "as_cat":
            c["how"] = rng.choice(["gb", "gbu"])
        if form == "hstack":
            c["cut"] = rng.randint(0, n)
        if n == 0 and form in ("setvalid", "hstack", "slice", "as_cat", "codes", "codes0", "valcats"):
            continue
        yield c
    # index width boundaries: many distinct keys (codes need int8 -> int16)
    for ng in (126, 127, 128, 129, 255, 256):
        for form in ("cat", "gb", "cat_unordered"):
            yield {"op": "wide-" + form, "form": form, "wide": ng, "kd": ["i4"], "K": [], "F": []}


def observe(obj, kd):
    g = obj.grouping if not isinstance(obj, rt.Grouping) else obj
    o = {"groups": glist(g.uniquedict, kd) if g.unique_count else [], "ikey": col(g.ikey, na=False), "uc": int(g.unique_count)}
    o["ncount"] = col(g.ncountgroup)
    o["igroup"] = col(g.igroup)
    o["ifirstgroup"] = col(g.ifirstgroup)
    o["ifirstkey"] = col(g.ifirstkey)
    o["ilastkey"] = col(g.ilastkey)
    try:
        o["iprev"], o["inext"] = col(g.iprevkey), col(g.inextkey)
        o["hasprev"] = 1
    except Exception:
        o["iprev"], o["inext"], o["hasprev"] = [], [], 0
    mem = [col(g.as_filter(b + 1)) for b in range(g.unique_count)]
    if not isinstance(obj, rt.Grouping):
        it = [(k, col(r)) for k, r in obj.iter_groups()] if not isinstance(obj, rt.GroupBy) else None
        if it is not None and [r for _, r in it] != mem:
            mem.append([BAD])
        gr = obj.groups if "tsp" not in kd else None
        keys = [] if gr is None else [k if isinstance(k, tuple) else (k,) for k in gr]
        got = [[ranks(np.array([kk]), d)[0] for kk, d in zip(k, kd)] for k in keys] if kd[0] not in ("date", "dtn", "tsp") and not any(d in ("date", "dtn", "tsp") for d in kd) else o["groups"]
        if gr is not None and [col(r) for r in gr.values()] != mem or gr is not None and got != o["groups"]:
            mem.append([BAD])
        if all(mem) and mem:
            ff, lf = col(obj.first_fancy), col(obj.last_fancy)
            if ff != [m[0] for m in mem] or lf != [m[-1] for m in mem]:
                mem.append([BAD])
            n = len(o["ikey"])
            if col(obj.first_bool) != [int(i in ff) for i in range(n)] or col(obj.last_bool) != [int(i in lf) for i in range(n)]:
                mem.append([BAD])
    o["members"] = mem
    return o


def execute(case):
    if "wide" in case:
        return wide(case)
    obj, cols, flt, mode, given, K, F = build(case)
    before = [np.array(c._np if hasattr(c, "_np") else c) for c in cols if not isinstance(c, rt.Categorical)]
    fb = None if flt is None else flt.copy()
    o = observe(obj, case["kd"])
    fr = all(same(a, np.asarray(c)) for a, c in zip(before, [c for c in cols if not isinstance(c, rt.Categorical)]))
    fr = fr and (flt is None or same(fb, flt))
    o["frame"] = int(fr)
    return {"t": "struct", "K": K, "F": F, "mode": mode, "given": given, "obs": o, "raised": 0}


def wide(case):
    """many groups: 2 rows per group, interleaved; the observation is relative to a rank pool 1..ng"""
    ng = case["wide"]
    keys = np.array([(i * 7) % ng for i in range(ng)] + list(range(ng)), dtype=np.int32)
    if ng % 7 == 0:
        keys[:ng] = np.arange(ng)[::-1]
    K = [[int(k)] for k in keys]
    if case["form"] == "gb":
        obj, mode = rt.Dataset({"k": lay.fa(keys), "v": rt.arange(len(keys))}).gb("k"), "first"
    else:
        obj = rt.Cat(lay.fa(keys), ordered=case["form"] == "cat")
        mode = "lex" if case["form"] == "cat" else "first"
    g = obj.grouping
    o = {"groups": [[int(x)] for x in list(g.uniquedict.values())[0]], "ikey": col(g.ikey, na=False), "uc": int(g.unique_count),
         "ncount": col(g.ncountgroup), "igroup": col(g.igroup), "ifirstgroup": col(g.ifirstgroup), "ifirstkey": col(g.ifirstkey),
         "ilastkey": col(g.ilastkey), "hasprev": 0, "iprev": [], "inext": [],
         "members": [col(g.as_filter(b + 1)) for b in range(g.unique_count)], "frame": 1}
    return {"t": "struct", "K": K, "F": [1] * len(K), "mode": mode, "given": [], "obs": o, "raised": 0}
