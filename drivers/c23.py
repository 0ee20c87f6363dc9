"""C23: melt, pivot, transpose and trim move every cell to its place."""
import numpy as np
import riptable as rt
import lay
import tcol
from proj import NA, BAD

VALS = [-5, 0, 3, 77, 100]  # numeric cells; rank 2 is zero
NUM = ["i1", "i2", "i4", "i8", "f4", "f8"]
KEYK = ["S", "Us", "i4", "i8", "u1", "f8", "date", "cat", "cati"]
VALK = ["S", "Us", "date", "dtn", "tsp", "cat", "catu", "?"]


def mk(k, r):
    if k not in NUM:
        return tcol.mk(k, r)
    d = np.dtype(k)
    inv = np.nan if d.kind == "f" else np.iinfo(d).min
    return lay.fa(np.array([inv if x == NA else VALS[x - 1] for x in r], dtype=d))


def num(a):
    """numeric column of any type -> ranks"""
    if isinstance(a, rt.Categorical) or type(a) is not rt.FastArray or a.dtype.kind not in "if":
        return [BAD] * len(a)
    inv = None if a.dtype.kind == "f" else int(np.iinfo(a.dtype).min)
    return [NA if x != x or x == inv else VALS.index(x) + 1 if x in VALS else BAD for x in np.asarray(a).tolist()]


def rd(k, a):
    if k not in NUM:
        return tcol.rd(a, k)
    return num(a) if a.dtype == np.dtype(k) else [BAD] * len(a)


def gen(rng, k, n, na=0.2):
    hi = 2 if k == "?" else 5
    return [NA if k != "?" and rng.random() < na else rng.randint(1, hi) for _ in range(n)]


def snap(ds):
    return [(n, type(c).__name__, str(c.dtype), np.asarray(c._np).tobytes()) for n, c in ds.items()] + [tuple(ds.label_get_names())]


def names(ds):
    return [str(n) for n in ds.keys()]


def text(k, x):
    """what a key is called as a column"""
    v = tcol.POOL[k][x - 1]
    if k in ("S", "Us", "cat"):
        return v
    if k in ("date", "cati"):
        return str(v)
    return str(np.array([v], dtype=k).astype("U")[0])


def cases(tier, rng):
    big = tier == "thorough"
    for i in range(3000 if big else 500):
        n = rng.choice([1, 1, 2, 3, 5, 8])
        ik = [rng.choice(["S", "Us", "date", "dtn", "tsp", "cat", "?"] + NUM) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        ids = [gen(rng, k, n, 0 if k == "cat" else 0.2) for k in ik]
        if rng.random() < 0.6:
            vk = [rng.choice(NUM) for _ in range(rng.randint(1, 4))]
        else:
            vk = [rng.choice(VALK)] * rng.randint(1, 3)
        trim = int(vk[0] in NUM and rng.random() < 0.3)
        yield {"op": "melt", "n": n, "ik": ik, "ids": ids, "vk": vk, "vals": [gen(rng, k, n) for k in vk], "trim": trim, "zr": 2, "vv": rng.choice(["none", "list", "one", "rev"]),
               "nm": rng.randint(0, 1), "iform": rng.choice(["list", "str", "tuple"]), "extra": rng.randint(0, 1)}
    for i in range(6000 if big else 1100):
        n = rng.choice([1, 2, 3, 4, 6, 6, 9])
        lk = [rng.choice(KEYK) for _ in range(rng.choice([1, 1, 1, 2, 2]))]
        ck = [rng.choice(KEYK) for _ in range(rng.choice([1, 1, 1, 2]))]
        w = rng.choice([2, 3, 5])
        rows = [([rng.randint(1, w) for _ in lk], [rng.randint(1, w) for _ in ck]) for _ in range(n)]
        if rng.random() < 0.85:  # mostly without two rows in one cell
            rows = [list(x) for x in dict.fromkeys((tuple(a), tuple(b)) for a, b in rows)]
        n = len(rows)
        lab = [[r[0][j] for r in rows] for j in range(len(lk))]
        col = [[r[1][j] for r in rows] for j in range(len(ck))]
        vk = [rng.choice(NUM + [k for k in VALK if k != "?"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        flt = [] if rng.random() < 0.55 else [int(rng.random() < 0.6) for _ in range(n)]
        yield {"op": "pivot", "n": n, "lk": lk, "ck": ck, "lab": lab, "col": col, "vk": vk, "vals": [gen(rng, k, n) for k in vk], "flt": flt, "ordered": rng.choice([1, 1, 0]),
               "lex": rng.choice([0, 0, 0, 1]), "lform": rng.choice(["list", "str", "labels"]), "vform": rng.choice(["none", "list"]), "cform": rng.choice(["list", "str"])}
    for i in range(1200 if big else 250):
        n = rng.choice([1, 2, 3, 5])
        ks = [rng.choice(NUM) for _ in range(rng.randint(1, 4))]
        lk = rng.choice(["", "", "S", "Us", "i4", "cat"])
        yield {"op": "transpose", "n": n, "vk": ks, "cols": [gen(rng, k, n) for k in ks], "lk": lk,
               "lab": rng.sample([1, 2, 3, 4, 5], min(n, 5)), "hdr": rng.choice(["", "H"]), "txt": rng.randint(0, 1), "cn": rng.randint(0, 1)}
    for i in range(2500 if big else 450):
        n = rng.choice([1, 2, 3, 5, 8])
        ks = [rng.choice(NUM + ["f8", "i4", "S", "cat"]) for _ in range(rng.randint(1, 4))]
        sparse = rng.random() < 0.7
        cols = [[rng.choice([2, NA, 2, NA, 3]) if sparse and k in NUM and rng.random() < 0.9 else x for x in gen(rng, k, n)] for k in ks]
        z, a = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        yield {"op": "trim", "n": n, "vk": ks, "cols": cols, "zeros": z, "nans": a, "co": rng.choice([1, 1, 0]), "ro": rng.choice([1, 1, 0]), "keep": rng.choice([0, 0, 0, 1]),
               "lab": int(rng.random() < 0.3), "ret": rng.randint(0, 1)}


def nolay(c):
    return False


def execute(c):
    e = {k: v for k, v in c.items() if k in ("op", "n", "ids", "vals", "trim", "zr", "lab", "col", "flt", "ordered", "lex", "cols", "zeros", "nans", "co", "ro", "keep")}
    return [globals()["x_" + c["op"]](c, e)]


def x_melt(c, e):
    d = {}
    inames = ["id%d" % (j + 1) for j in range(len(c["ids"]))]
    vnames = ["v%d" % (j + 1) for j in range(len(c["vals"]))]
    for nm, k, r in zip(inames, c["ik"], c["ids"]):
        d[nm] = mk(k, r)
    for nm, k, r in zip(vnames, c["vk"], c["vals"]):
        d[nm] = mk(k, r)
    vv, order = c["vv"], list(range(len(vnames)))
    if vv == "one":
        order = [0]
    elif vv == "rev":
        order = order[::-1]
    if vv != "none" and c["extra"]:
        d["other"] = rt.FA(np.arange(c["n"]))
    ds = rt.Dataset(d)
    b = snap(ds)
    kw = {"trim": True} if c["trim"] else {}
    if inames:
        kw["id_vars"] = inames[0] if c["iform"] == "str" and len(inames) == 1 else tuple(inames) if c["iform"] == "tuple" else inames
    if vv != "none":
        kw["value_vars"] = vnames[0] if vv == "one" else [vnames[j] for j in order]
    if c["nm"]:
        kw.update(var_name="VV", value_name="XX")
    e["vals"] = [c["vals"][j] for j in order]
    vk = [c["vk"][j] for j in order]
    vn, xn = ("VV", "XX") if c["nm"] else ("variable", "value")
    e["want"] = inames + [vn, xn]
    o = {"raised": 0, "names": [], "ids": [], "var": [], "val": [], "frame": 1}
    try:
        r = ds.melt(**kw)
        o["names"] = names(r)
        for nm, k in zip(inames, c["ik"]):
            o["ids"].append(rd("S" if k == "cat" else k, r[nm]) if k != "cat" else [tcol.POOL["cat"].index(x.decode() if isinstance(x, bytes) else x) + 1 for x in r[nm].tolist()])
        pos = {vnames[j]: i + 1 for i, j in enumerate(order)}
        o["var"] = [pos.get(x.decode() if isinstance(x, bytes) else str(x), BAD) for x in r[vn].tolist()]
        o["val"] = num(r[xn]) if vk[0] in NUM else rd(vk[0], r[xn])
    except Exception:
        o["raised"] = 1
    o["frame"] = int(snap(ds) == b)
    e["obs"] = o
    return e


def x_pivot(c, e):
    ln = ["l%d" % (j + 1) for j in range(len(c["lk"]))]
    cn = ["c%d" % (j + 1) for j in range(len(c["ck"]))]
    vn = ["v%d" % (j + 1) for j in range(len(c["vk"]))]
    d = {}
    for ns, ks, rs in ((ln, c["lk"], c["lab"]), (cn, c["ck"], c["col"]), (vn, c["vk"], c["vals"])):
        for nm, k, r in zip(ns, ks, rs):
            d[nm] = tcol.mk(k, r) if ns is not vn else mk(k, r)
    ds = rt.Dataset(d)
    if c["lform"] == "labels":
        ds.label_set_names(ln)
    b = snap(ds)
    kw = {"ordered": bool(c["ordered"])}
    if c["lex"]:
        kw["lex"] = True
    if c["lform"] != "labels":
        kw["labels"] = ln[0] if c["lform"] == "str" and len(ln) == 1 else ln
    kw["columns"] = cn[0] if c["cform"] == "str" and len(cn) == 1 else cn
    if c["vform"] != "none":
        kw["values"] = vn if len(vn) > 1 else vn[0]
    if c["flt"]:
        kw["filter"] = lay.fa(np.array(c["flt"], dtype=bool))
    e["rall"] = 5 if c["lk"] in (["cat"], ["cati"]) else 0
    e["call"] = 5 if c["ck"] in (["cat"], ["cati"]) else 0
    o = {"raised": 0, "tabs": [], "labels": 1, "frame": 1}
    try:
        r = ds.pivot(**kw)
    except ValueError:
        o["raised"] = 1
    except Exception:
        o["raised"] = 2
    if not o["raised"]:
        import itertools
        call = {"_".join(text(k, x) for k, x in zip(c["ck"], t)): list(t) for t in itertools.product(range(1, 6), repeat=len(cn))}
        tabs = [r] if len(vn) == 1 else [r[v] for v in vn]
        for t, k in zip(tabs, c["vk"]):
            q = {"rows": [], "cols": [], "cells": []}
            try:
                if t.label_get_names() != ln:
                    o["labels"] = 0
                ks = [keycol(lk, t[nm]) for nm, lk in zip(ln, c["lk"])]
                q["rows"] = [list(x) for x in zip(*ks)]
                rest = [x for x in names(t) if x not in ln]
                q["cols"] = [call.get(x, [BAD]) for x in rest]
                q["cells"] = [rd(k, t[x]) for x in rest]
            except Exception:
                q["rows"] = [[BAD]]
            o["tabs"].append(q)
        if len(vn) > 1 and list(r.keys()) != vn:
            o["labels"] = 0
    o["frame"] = int(snap(ds) == b)
    e["obs"] = o
    return e


def keycol(k, a):
    """a key column of the result: a Categorical key may come back as its labels"""
    if k in ("cat", "cati") and not isinstance(a, rt.Categorical):
        p = tcol.POOL[k]
        return [p.index(x) + 1 if x in p else BAD for x in [y.decode() if isinstance(y, bytes) else y for y in a.tolist()]]
    return tcol.rd(a, k)


def x_transpose(c, e):
    vn = ["v%d" % (j + 1) for j in range(len(c["vk"]))]
    n = c["n"]
    d = {}
    if c["lk"]:
        d["lab"] = tcol.mk(c["lk"], c["lab"][:n])
    if c["txt"]:
        d["txt"] = rt.FA(["t"] * n)
    for nm, k, r in zip(vn, c["vk"], c["cols"]):
        d[nm] = mk(k, r)
    ds = rt.Dataset(d)
    if c["lk"]:
        ds.label_set_names(["lab"])
    b = snap(ds)
    kw = {}
    if c["hdr"]:
        kw["headername"] = c["hdr"]
    if c["cn"]:
        kw["colnames"] = list(vn)
    h = c["hdr"] or "Col"
    e["want"] = [h] + [text(c["lk"], x) if c["lk"] else "C%d" % i for i, x in enumerate(c["lab"][:n] if c["lk"] else range(n))]
    o = {"raised": 0, "names": [], "hdr": [], "cells": [], "frame": 1}
    try:
        r = ds.transpose(**kw)
        o["names"] = names(r)
        o["hdr"] = [vn.index(x.decode() if isinstance(x, bytes) else x) + 1 for x in r[h].tolist()]
        o["cells"] = [num(r[x]) for x in names(r)[1:]]
    except Exception:
        o["raised"] = 1
    o["frame"] = int(snap(ds) == b)
    e["obs"] = o
    return e


def x_trim(c, e):
    vn = ["v%d" % (j + 1) for j in range(len(c["vk"]))]
    ds = rt.Dataset({nm: mk(k, r) for nm, k, r in zip(vn, c["vk"], c["cols"])})
    can = [int(k in NUM) for k in c["vk"]]
    if c["lab"]:
        ds.label_set_names([vn[0]])
        can[0] = 0
    e["can"] = can
    e["zr"] = [2 if k in NUM else 0 for k in c["vk"]]
    b = snap(ds)
    o = {"raised": 0, "kept": [], "cells": [], "frame": 1}
    try:
        r = ds.trim(zeros=bool(c["zeros"]), nans=bool(c["nans"]), columns=bool(c["co"]), rows=bool(c["ro"]), keep=bool(c["keep"]), ret_filters=bool(c["ret"]))
        if c["ret"]:
            r, rf, cf = r
            if list(cf) != names(r) or rf is not None and int(np.sum(rf)) != r.get_nrows():
                o["raised"] = 3
        o["kept"] = [vn.index(x) + 1 for x in names(r)]
        o["cells"] = [rd(k, r[nm]) for nm, k in zip(vn, c["vk"]) if nm in r]
    except Exception:
        o["raised"] = 1
    o["frame"] = int(snap(ds) == b)
    e["obs"] = o
    return e
