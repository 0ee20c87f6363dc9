"""Shared by c06/c07/c08: Categoricals over label pools (label id = rank of the value in its pool)."""
import enum

import numpy as np
import pandas as pd
import riptable as rt
import lay
from proj import NA, BAD

POOL = {
    "S": ["a", "ab", "b", "bb", "c", "cab", "d", "e", "zz"], "U": ["a", "ab", "b", "c", "d", "f", "\u00e0", "\u00e9", "\u0416"],
    "Ua": ["a", "ab", "b", "bb", "c", "cab", "d", "e", "zz"],
    "i4": [-7, 0, 1, 2, 3, 10, 20, 30, 1000], "i8": [-7, 0, 1, 2, 3, 10, 20, 30, 2**40], "u1": [0, 1, 2, 3, 5, 10, 20, 30, 200],
    "f8": [-1.5, 0.0, 0.25, 1.0, 2.0, 3.5, 10.0, 20.5, 1e12], "f4": [-1.5, 0.0, 0.25, 1.0, 2.0, 3.5, 10.0, 20.5, 4096.0],
    "date": [1, 2, 3, 400, 5000, 10000, 20000, 20001, 20002], "dtn": [x * 10**9 + 1 for x in (1, 2, 3, 400, 5000, 10000, 20000, 20001, 20002)],
    "SL": ["k%03d" % i for i in range(400)], "iL": [3 * i - 50 for i in range(400)], "UL": ["k%03d" % i for i in range(399)] + ["\u00e9"],
}
STR = ("S", "U", "Ua", "SL", "UL")
NUM = ("i4", "i8", "u1", "f8", "f4", "iL")
MUL = 1000


def arr(kind, ids):
    """label ids -> array of the kind"""
    p = POOL[kind]
    v = [p[i - 1] for i in ids]
    if kind in ("S", "SL"):
        return rt.FastArray(np.array([x.encode() for x in v], dtype="S%d" % max([1] + [len(x) for x in v])))
    if kind in STR:
        return rt.FastArray(np.array(v, dtype="U%d" % max([1] + [len(x) for x in v])), unicode=True)
    if kind == "date":
        return rt.Date(np.array(v, dtype=np.int32))
    if kind == "dtn":
        return rt.DateTimeNano(np.array(v, dtype=np.int64), from_tz="GMT", to_tz="NYC")
    return rt.FastArray(np.array(v, dtype={"iL": "i4"}.get(kind, kind)))


def lab(kind, x):
    """one concrete value -> label id (0: filtered, -n: unmapped code n)"""
    if isinstance(x, bytes):
        x = x.decode("latin-1") if kind in ("S", "SL") else x.decode()
    p = POOL[kind]
    if isinstance(x, str):
        if x == "Filtered":
            return 0
        if x.startswith("!<"):
            return -int(x[2:-1])
        if kind in STR:
            return p.index(x) + 1 if x in p else BAD
        return BAD
    if kind in STR:
        return BAD
    if isinstance(x, (rt.rt_datetime.DateScalar, rt.rt_datetime.DateTimeNanoScalar)):
        x = x._np if hasattr(x, "_np") else x
    x = x.item() if hasattr(x, "item") else x
    if x != x:
        return 0
    if x in p and not isinstance(x, bool):
        return p.index(x) + 1
    return BAD


def labs(kind, a):
    if isinstance(a, np.ndarray) and kind in ("date", "dtn"):
        if type(a) is not {"date": rt.Date, "dtn": rt.DateTimeNano}[kind]:
            return [BAD] * len(a)
        if kind == "dtn" and a._timezone._to_tz not in ("NYC", "America/New_York"):
            return [BAD] * len(a)
    k = a.dtype.kind if isinstance(a, np.ndarray) else None
    if isinstance(a, np.ndarray):
        inv = np.iinfo(a.dtype).min if k == "i" else np.iinfo(a.dtype).max if k == "u" else None
        tm = kind in ("date", "dtn")
        a = np.asarray(a).tolist()
        return [0 if (inv is not None and x == inv) or (tm and x == 0) else lab(kind, x) for x in a]
    return [lab(kind, x) for x in a]


def strs(kind, a):
    """as_string_array values -> label ids"""
    p = [str(x) for x in POOL[kind]]
    out = []
    for x in np.asarray(a).tolist():
        if isinstance(x, bytes):
            x = x.decode("latin-1")
        out.append(0 if x == "Filtered" else p.index(x) + 1 if x in p else -int(x[2:-1]) if x.startswith("!<") else BAD)
    return out


def pairs(kd, seqs):
    out = []
    for t in zip(*[labs(k, s) for k, s in zip(kd, seqs)]):
        out.append(0 if t[0] == 0 and t[1] == 0 else BAD if BAD in t or 0 in t else t[0] * MUL + t[1])
    return out


def obs(c, kd):
    """everything the specification says about one Categorical"""
    if c is None:
        return {"m": 0, "b": 1, "cats": [], "cells": [], "sc": [], "ex": [], "st": [], "uc": 0, "gcats": []}
    if not isinstance(c, rt.Categorical):
        return {"m": BAD, "b": 1, "cats": [], "cells": [], "sc": [], "ex": [], "st": [], "uc": 0, "gcats": []}
    kind = kd[0]
    n = len(c)
    codes = c._np.tolist()
    o = {"m": int(c.isenum), "b": 0 if c.base_index is None else int(c.base_index)}
    rows = [c[i] for i in range(n)]
    if o["m"]:
        m = c.category_mapping
        o["cats"] = sorted([int(k), lab(kind, v)] for k, v in m.items())
        o["cells"] = codes
        o["sc"] = [lab(kind, x) for x in rows]
        o["ex"] = np.asarray(c.expand_array).tolist()
        o["st"] = strs(kind, c.as_string_array)
        o["uc"] = len(m)
        o["gcats"] = []
        return o
    if len(kd) == 1:
        o["cats"] = labs(kind, c.category_array)
        o["gcats"] = labs(kind, list(c.grouping.uniquedict.values())[0])
        o["sc"] = [lab(kind, x) for x in rows]
        o["ex"] = labs(kind, c.expand_array)
        o["st"] = strs(kind, c.as_string_array)
        d = c.category_dict
        if len(d) != 1 or labs(kind, list(d.values())[0]) != o["cats"]:
            o["cats"] = [BAD]
        if labs(kind, list(c.expand_dict.values())[0]) != o["ex"]:
            o["ex"] = [BAD]
    else:
        o["cats"] = pairs(kd, list(c.category_dict.values()))
        o["gcats"] = pairs(kd, list(c.grouping.uniquedict.values()))
        o["sc"] = [0 if isinstance(x, str) and x == "Filtered" else pairs(kd, [[x[0]], [x[1]]])[0] for x in rows]
        o["ex"] = pairs(kd, list(c.expand_array))
        if pairs(kd, list(c.expand_dict.values())) != o["ex"]:
            o["ex"] = [BAD]
        tab = {"%s_%s" % (a, b): (i + 1) * MUL + j + 1 for i, a in enumerate(POOL[kd[0]]) for j, b in enumerate(POOL[kd[1]])}
        tab["Filtered"] = 0
        o["st"] = [tab.get(x.decode("latin-1") if isinstance(x, bytes) else x, BAD) for x in np.asarray(c.as_string_array).tolist()]
    o["cells"] = []
    for x in codes:
        if o["b"] == 1 and x == 0:
            o["cells"].append(0)
        elif 0 <= x - o["b"] < len(o["cats"]):
            o["cells"].append(o["cats"][x - o["b"]])
        else:
            o["cells"].append(BAD)
    o["uc"] = int(c.unique_count)
    return o


def vals_of(kind, ids, how):
    """label ids as the constructor input"""
    p = POOL[kind]
    if how == "list":
        return [p[i - 1] for i in ids]
    if how == "np":
        return np.asarray(arr(kind, ids)) if kind not in ("date", "dtn") else arr(kind, ids)
    if how == "bytes":
        return [p[i - 1].encode() for i in ids]
    return arr(kind, ids)


def enum_of(pairs_, kind):
    return enum.IntEnum("E", {POOL[kind][l - 1]: c for c, l in pairs_})


def build(e, kd):
    """event of op 'new' -> Categorical"""
    kind = kd[0]
    form, how = e["form"], e["how"]

    def R(ins, f):
        b = snap(ins)
        return f(), int(snap(ins) == b)

    kw = {}
    if len(e["flt"]):
        kw["filter"] = lay.fa(np.array(e["flt"], dtype=bool)) if e.get("fk", 0) == 0 else np.array(e["flt"], dtype=bool)
    if form == "vals":
        if e["base"] == 0:
            kw["base_index"] = 0
        if e["lex"]:
            kw["lex"] = True
        if e["ordered"] != 2:
            kw["ordered"] = bool(e["ordered"])
        if e["sgb"] != 2:
            kw["sort_gb"] = bool(e["sgb"])
        if e["dt"]:
            kw["dtype"] = np.dtype(e["dt"])
        v = vals_of(kind, e["vals"], how)
        return R([v], lambda: rt.Categorical(v, **kw))
    if form == "zero":
        v = vals_of(kind, e["vals"], how)
        return R([v], lambda: rt.CatZero(v, ordered=bool(e["srt"])))
    if form in ("pairs", "dict"):
        a, b = arr(kd[0], [x // MUL for x in e["vals"]]), arr(kd[1], [x % MUL for x in e["vals"]])
        if e["lex"]:
            kw["lex"] = True
        if e["ordered"] != 2:
            kw["ordered"] = bool(e["ordered"])
        return R([a, b], lambda: rt.Categorical([a, b] if form == "pairs" else {"x": a, "y": b}, **kw))
    if form == "given":
        if e["base"] == 0:
            kw["base_index"] = 0
        if e["ordered"] != 2:
            kw["ordered"] = bool(e["ordered"])
        v = vals_of(kind, e["vals"], how)
        cs = vals_of(kind, e["cats"], e["chow"])
        return R([v, cs], lambda: rt.Categorical(v, cs, **kw))
    if form in ("codes", "dup"):
        v = np.array(e["vals"], dtype=e["dt"] or "i4")
        v = v.tolist() if how == "list" else lay.fa(v) if how == "fa" else v
        cs = vals_of(kind, e["cats"], e["chow"])
        kw["base_index"] = e["base"]
        if e.get("mat"):
            v = lay.fa(np.array(e["vals"], dtype="f8"))
            kw["from_matlab"] = True
        if form == "dup":
            return R([v, cs], lambda: rt.Categorical(v, cs, **kw).category_make_unique())
        return R([v, cs], lambda: rt.Categorical(v, cs, **kw))
    if form == "codes2":
        a, b = arr(kd[0], [x // MUL for x in e["cats"]]), arr(kd[1], [x % MUL for x in e["cats"]])
        v = lay.fa(np.array(e["vals"], dtype=e["dt"] or "i4"))
        return R([v, a, b], lambda: rt.Categorical(v, {"x": a, "y": b}, base_index=e["base"], **kw))
    if form == "pd":
        p = POOL[kind]
        v = pd.Categorical.from_codes(e["vals"], categories=[p[i - 1] for i in e["cats"]], ordered=bool(e["ordered"] == 1))
        return rt.Categorical(v, **kw), 1
    if form == "full":
        return rt.Categorical.full(len(e["vals"]), POOL[kind][e["vals"][0] - 1]), 1
    if form == "map":
        v = np.array(e["vals"], dtype=e["dt"] or "i4")
        v = v.tolist() if how == "list" else lay.fa(v)
        p = POOL[kind]
        if e["mk"] == "s2i":
            d = {p[l - 1]: c for c, l in e["cats"]}
        elif e["mk"] == "i2s":
            d = {c: p[l - 1] for c, l in e["cats"]}
        else:
            d = enum_of(e["cats"], kind)
        return R([v, d], lambda: rt.Categorical(v, d))
    raise AssertionError(form)


def snap(xs):
    out = []
    for x in xs:
        if isinstance(x, np.ndarray):
            out.append((type(x).__name__, str(x.dtype), np.asarray(x).tobytes()))
        else:
            out.append(repr(x))
    return out


DEF = dict(op="new", t=1, vals=[], cats=[], flt=[], srt=1, lex=0, base=1, ordered=2, sgb=2, dt="", how="fa", chow="fa", form="vals", mk="", idx=[], jdx=[], a=0, c=0, raised=0, frame=1)


def gvals(rng, kind, n, lim=None):
    m = len(POOL[kind]) if lim is None else lim
    sub = [rng.randint(1, m) for _ in range(rng.randint(1, 6))] if rng.random() < 0.6 else list(range(1, m + 1))
    return [rng.choice(sub) for _ in range(n)]


def gflt(rng, n):
    return [int(rng.random() < 0.7) for _ in range(n)]


def gnew(rng, kind, form, n=None, large=False, kd=None, t=1):
    """random construction event"""
    n = n or rng.choice([1, 2, 3, 4, 5, 7, 10])
    e = dict(DEF, t=t, form=form)
    F = gflt(rng, n) if rng.random() < 0.35 else []
    if len(F) and not any(F):
        F[rng.randrange(n)] = 1
    if form in ("pairs", "dict"):
        a, b = gvals(rng, kd[0], n), gvals(rng, kd[1], n)
        e.update(vals=[x * MUL + y for x, y in zip(a, b)], flt=F, lex=int(rng.random() < 0.4), srt=0)
        if e["lex"]:
            e["srt"] = 1
        return e
    if form == "codes2":
        cs = list(dict.fromkeys(x * MUL + y for x, y in zip(gvals(rng, kd[0], 7), gvals(rng, kd[1], 7))))
        e["cats"] = cs
        e["base"] = 1
        e["vals"] = [rng.randint(0, len(cs)) for _ in range(n)]
        e["dt"] = rng.choice(["i1", "i2", "i4", "i8"])
        return e
    if large:
        n = rng.choice([130, 256, 300, 420])
        F = gflt(rng, n) if F else []
        m = rng.choice([126, 127, 128, 129, 254, 255, 256, 257, 300])
        ids = [rng.randint(1, m) for _ in range(n)] if rng.random() < 0.3 else (list(range(1, m + 1)) + [rng.randint(1, m) for _ in range(n)])
        rng.shuffle(ids)
        n = len(ids)
        F = gflt(rng, n) if F else []
        if form in ("codes", "map", "pd"):
            form = e["form"] = "vals"
    else:
        ids = gvals(rng, kind, n)
    if form in ("vals", "zero"):
        e["vals"] = ids
        if kind in STR and kind not in ("U", "UL"):
            e["how"] = rng.choice(["list", "np", "fa", "bytes"] if kind == "S" else ["list", "np", "fa"])
        elif kind in ("date", "dtn"):
            e["how"] = "fa"
        else:
            e["how"] = rng.choice(["list", "np", "fa"])
        e["srt"] = 1
        if form == "zero":
            e["base"], e["srt"] = 0, rng.randint(0, 1)
            return e
        r = rng.random()
        if r < 0.3:
            e["ordered"], e["srt"] = 0, 0
        elif r < 0.5:
            e["ordered"] = 1
        elif r < 0.65:
            e["lex"] = 1
        e["flt"] = F
        if rng.random() < 0.15 and not F:
            e["base"] = 0
        if rng.random() < 0.15:
            e["sgb"] = rng.randint(0, 1)
        if rng.random() < 0.2:
            e["dt"] = rng.choice(["i2", "i4", "i8"])
        e["fk"] = rng.randint(0, 1)
        return e
    cs = list(dict.fromkeys(ids + gvals(rng, kind, 2, None if not large else 300)))
    rng.shuffle(cs)
    if rng.random() < 0.4:
        cs.sort()
    if form == "given":
        if rng.random() < 0.2 and len(cs) > 1:
            cs = cs[:-1]
        e.update(vals=ids, cats=cs, srt=0, flt=F, how=rng.choice(["list", "np", "fa"]) if kind in STR else "fa", chow=rng.choice(["list", "np", "fa"]) if kind in STR else rng.choice(["np", "fa"]))
        if kind in ("U", "UL"):
            e["how"], e["chow"] = "fa", "fa"
        if rng.random() < 0.15 and not F:
            e["base"] = 0
        return e
    if form == "codes":
        e["base"] = rng.choice([1, 1, 0])
        e["cats"] = cs
        e["vals"] = [rng.randint(0, len(cs) - 1 + e["base"]) for _ in range(n)]
        if rng.random() < 0.08:
            e["vals"][rng.randrange(n)] = rng.choice([-1, len(cs) + e["base"]])
        e["dt"] = rng.choice(["i1", "i2", "i4", "i8"])
        e["how"] = rng.choice(["list", "np", "fa"])
        e["chow"] = rng.choice(["list", "np", "fa"]) if kind in STR and kind not in ("U", "UL") else rng.choice(["np", "fa"])
        if e["base"] == 1 and rng.random() < 0.1 and kind in STR:
            e["mat"] = 1
        return e
    if form == "dup":
        cs = [rng.choice(cs) for _ in range(rng.randint(2, 6))]
        e["base"] = rng.choice([1, 0])
        e["cats"] = cs
        e["vals"] = [rng.randint(0, len(cs) - 1 + e["base"]) for _ in range(n)]
        e["dt"] = rng.choice(["i1", "i4"])
        e["srt"] = int(len(set(cs)) < len(cs))
        return e
    if form == "pd":
        e["cats"] = cs
        e["vals"] = [rng.randint(-1, len(cs) - 1) for _ in range(n)]
        e["ordered"] = rng.choice([0, 1])
        return e
    if form == "full":
        e["vals"] = [ids[0]] * n
        return e
    if form == "map":
        codes = rng.sample([0, 1, 2, 3, 7, 10, 20, 30, 77, 100, 5], len(cs))
        e["cats"] = [[c, l] for c, l in zip(codes, cs)]
        e["vals"] = [rng.choice(codes) for _ in range(n)]
        e["how"] = rng.choice(["list", "fa"])
        e["dt"] = rng.choice(["i1", "i2", "i4", "i8"])
        e["mk"] = rng.choice(["s2i", "i2s", "enum"])
        return e
    raise AssertionError(form)
