"""C02: selecting and assigning cells, who shares what."""
import numpy as np
import riptable as rt
import tcol
from proj import NA, BAD

INTS = ("i1", "i2", "i4", "i8")
UINTS = ("u1", "u2", "u4", "u8")
STRK = ("S", "U", "cat", "catu")


def mkc(kind, v):
    if kind == "v":
        return rt.FA(np.array([np.nan if x == NA else x for x in v], dtype=np.float64))
    a = tcol.mk(kind, v)
    if kind == "S":
        return rt.FA(a._np.astype("S3"))
    if kind == "U":
        return rt.FastArray(a._np.astype("U3"), unicode=True)
    return a


def rdc(a, kind):
    if kind == "v":
        if type(a) is not rt.FastArray or a.dtype != np.float64:
            return [BAD] * len(a)
        return [NA if x != x else int(x) for x in a._np.tolist()]
    return tcol.rd(a, kind)


# ---------------------------------------------------------------- generation
def rowspec(rng, n, kinds, names, oor=True, single=True):
    r = rng.random()
    if r < 0.12:
        return {"f": "all"}
    if r < 0.27 and single and n:
        return {"f": "int", "i": rng.randint(-n, n - 1)}
    if r < 0.5:
        s = rng.choice([1, 1, 1, 2, 3, -1, -2])
        ha, hb = int(rng.random() < 0.7), int(rng.random() < 0.7)
        if not ha and not hb and s == 1:
            ha = 1
        return {"f": "slice", "ha": ha, "a": rng.randint(-n - 2, n + 2) if ha else 0, "hb": hb, "b": rng.randint(-n - 2, n + 2) if hb else 0, "s": s}
    if r < 0.72:
        p = rng.choice([0, 0.3, 0.5, 0.5, 1])
        return {"f": "mask", "m": [int(rng.random() < p) for _ in range(n)], "how": rng.choice(["np", "fa", "list" if n else "np", "str"])}
    lab = [m for m in names if kinds[m] in STRK]
    if r < 0.78 and lab and n and single:
        cs = rng.sample(lab, 2) if len(lab) > 1 and rng.random() < 0.4 else [rng.choice(lab)]
        xs = [[rng.randint(1, 5) for _ in cs] for _ in range(rng.randint(1, 3))]
        return {"f": "label", "cs": cs, "xs": xs, "how": rng.choice(["one", "list", "np"])}
    m = rng.randint(0, n + 2) if n else 0
    hi = n + 2 if oor and rng.random() < 0.4 else n - 1
    lo = -n - 2 if hi > n else -n
    return {"f": "fancy", "idx": [rng.randint(lo, hi) for _ in range(m)] if n else [], "how": rng.choice(["np", "fa", "i4", "i1", "str", "list" if m and hi < n else "np"])}


def colspec(rng, names, multi=None):
    k = len(names)
    r = rng.random()
    if multi is False or multi is None and r < 0.4:
        if rng.random() < 0.6:
            return {"f": "name", "n": rng.choice(names), "how": rng.choice(["str", "bytes"])}
        return {"f": "int", "i": rng.randint(-k, k - 1)}
    r = rng.random()
    if r < 0.2:
        return {"f": "all"}
    if r < 0.5:
        return {"f": "names", "ns": rng.sample(names, rng.randint(1, k)), "how": rng.choice(["list", "np", "bytes"])}
    if r < 0.65:
        return {"f": "ints", "idx": [i - (k if rng.random() < 0.3 else 0) for i in rng.sample(range(k), rng.randint(1, k))], "how": rng.choice(["list", "np"])}
    if r < 0.8:
        ha, hb = int(rng.random() < 0.7), int(rng.random() < 0.7)
        if not ha and not hb:
            ha = 1
        return {"f": "slice", "ha": ha, "a": rng.randint(-k - 1, k + 1) if ha else 0, "hb": hb, "b": rng.randint(-k - 1, k + 1) if hb else 0, "s": rng.choice([1, 1, 2, -1])}
    return {"f": "mask", "m": [int(rng.random() < 0.6) for _ in names], "how": rng.choice(["np", "list"])}


def sel(spec, names):
    """names picked by a column spec (generator's own bookkeeping)"""
    f = spec["f"]
    if f == "all":
        return list(names)
    if f == "name":
        return [spec["n"]] if spec["n"] in names else []
    if f == "names":
        return [m for m in spec["ns"] if m in names]
    if f == "int":
        return [names[spec["i"]]] if -len(names) <= spec["i"] < len(names) else []
    if f == "ints":
        return [names[i] for i in spec["idx"]]
    if f == "slice":
        return names[pyslice(spec)]
    return [m for m, b in zip(names, spec["m"]) if b]


def pyslice(s):
    return slice(s["a"] if s["ha"] else None, s["b"] if s["hb"] else None, s["s"] if s["s"] != 1 else None)


def nsel(spec, n):
    f = spec["f"]
    if f == "all":
        return n
    if f == "int":
        return 1
    if f == "slice":
        return len(range(n)[pyslice(spec)])
    if f == "mask":
        return sum(spec["m"])
    if f == "fancy":
        return len(spec["idx"])
    return None


def val1(rng, kind, na=0.15):
    return rng.randint(1, 9) if kind == "v" else tcol.gen(rng, kind, 1, na)[0]


def valn(rng, kind, n, na=0.15):
    return [val1(rng, kind, na) for _ in range(n)]


def hist(rng, kinds=None, n=None, steps=None):
    kinds = list(kinds or [rng.choice(tcol.KINDS) for _ in range(rng.choice([1, 2, 2, 3]))])
    if rng.random() < 0.4:
        kinds.append(rng.choice(kinds))
    n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6]) if n is None else n
    cols = [["k%d" % i, k, valn(rng, k, n)] for i, k in enumerate(kinds)] + [["v", "v", list(range(1, n + 1))]]
    c = {"n": n, "cols": cols, "ops": [], "lay": rng.choice([0, 0, 0, 1, 2])}
    # bookkeeping: per table rows, ordered names, kinds
    T = [{"n": n, "names": [x[0] for x in cols], "kinds": {x[0]: x[1] for x in cols}}]
    # a label selection or a failed step makes the count unknown: stop there
    for _ in range(steps or rng.choice([1, 2, 3, 4, 5, 6, 7])):
        t = rng.randrange(len(T))
        tb = T[t]
        nn, names, kd = tb["n"], tb["names"], tb["kinds"]
        if not names:
            continue
        o = rng.choice(["get", "get", "get", "set", "set", "set", "set", "set", "head", "tail", "shallow", "deep", "filter", "filterin", "bind", "setcol", "putmask", "sample"])
        isb = any(kd[m] == "?" for m in names)
        new = None
        if len(T) >= 4 and o in ("get", "head", "tail", "shallow", "deep", "filter", "sample"):
            o = "set"
        if o == "get":
            R = rowspec(rng, nn, kd, names, oor=not isb)
            C = colspec(rng, names)
            if rng.random() < 0.03:
                C = {"f": "name", "n": "nope", "how": "str"}
            if rng.random() < 0.03 and C["f"] in ("name", "int"):
                R = {"f": "int", "i": rng.choice([nn, nn + 3, -nn - 1])}
            op = {"o": o, "t": t, "rows": R, "cols": C, "sugar": int(rng.random() < 0.5)}
            got = sel(C, names)
            if C["f"] not in ("name", "int"):
                k = nsel(R, nn)
                new = (k, got, {m: kd[m] for m in got})
        elif o == "set":
            R = rowspec(rng, nn, kd, names, oor=False)
            if R["f"] == "label" and rng.random() < 0.5:
                continue
            k = nsel(R, nn)
            how = rng.choice(["scalar", "scalar", "col", "col", "row", "grid", "tab"])
            if R["f"] == "fancy" and R["idx"] and rng.random() < 0.08:
                R["idx"][-1] = rng.choice([nn, -nn - 1])
                R["how"] = "np"
            if k is None and how != "scalar":
                continue
            if R["f"] == "all" and how != "grid":
                continue
            if how == "scalar":
                kk = rng.choice([kd[m] for m in names if m != "v"] or [kd["v"]])
                if kk == "cati":
                    continue
                same = [m for m in names if kd[m] == kk]
                if len(same) > 1 and rng.random() < 0.6:
                    C = {"f": "names", "ns": rng.sample(same, rng.randint(1, len(same))), "how": "list"}
                else:
                    C = {"f": "name", "n": rng.choice(same), "how": "str"}
                na = 0 if kk.startswith("cat") or kk in ("S", "U") else 0.15
                val = {"f": "scalar", "x": val1(rng, kk, na), "kind": kk, "how": rng.choice(["plain", "plain", "wide"])}
            elif how == "col":
                C = colspec(rng, names, False)
                m = sel(C, names)[0]
                if kd[m] == "cate":
                    continue
                val = {"f": "col", "v": valn(rng, kd[m], k), "kind": kd[m], "how": rng.choice(["same", "wide", "narrow", "list", "str"])}
                if kd[m].startswith("cat") and val["how"] == "list":
                    val["how"] = "same"
            elif how == "row":
                if R["f"] not in ("int",) or nn == 1:
                    continue
                C = colspec(rng, names, True)
                got = sel(C, names)
                if len(got) < 2 or any(kd[m] == "cati" for m in got):
                    continue
                val = {"f": "row", "v": [val1(rng, kd[m], 0) for m in got], "kinds": [kd[m] for m in got]}
            elif how == "grid":
                C = colspec(rng, names, True)
                got = sel(C, names)
                if not got or any(kd[m] == "cate" for m in got):
                    continue
                val = {"f": "grid", "g": [valn(rng, kd[m], k) for m in got], "kinds": [kd[m] for m in got]}
                if R["f"] == "all":
                    # whole columns from a table: they are replaced
                    if len(got) < 2:
                        continue
                    op = {"o": "setcol", "t": t, "names": got, "vals": val["g"], "kinds": val["kinds"], "how": "grid", "C": C}
                    c["ops"].append(op)
                    continue
                r = rng.random()
                if r < 0.08 and k > 2 and len(got) > 1:
                    val["g"] = [g[:-1] for g in val["g"]]
                elif r < 0.16 and len(got) > 2 and k:
                    val["g"], val["kinds"] = val["g"][:-1], val["kinds"][:-1]
            else:
                if R["f"] not in ("slice", "int"):
                    continue
                C = colspec(rng, names, True)
                got = sel(C, names)
                u = [i for i, x in enumerate(T) if x["n"] == k and [x["kinds"][m] for m in x["names"]] == [kd[m] for m in got]]
                if not u or not got or any(kd[m] == "cate" for m in got):
                    continue
                val = {"f": "tab", "t": rng.choice(u) + 1}
            op = {"o": o, "t": t, "rows": R, "cols": C, "val": val, "via": rng.choice(["ds", "ds", "arr"])}
        elif o in ("head", "tail"):
            x = rng.randint(-nn - 1, nn + 2)
            op = {"o": o, "t": t, "x": x}
            k = len(range(nn)[:min(nn, x)]) if o == "head" else (min(nn, x) if x >= 0 else max(0, nn + x))
            new = (k, list(names), dict(kd))
        elif o in ("shallow", "deep"):
            op = {"o": o, "t": t}
            new = (nn, list(names), dict(kd))
        elif o in ("filter", "filterin"):
            R = rowspec(rng, nn, kd, names, oor=not isb, single=False)
            if R["f"] not in ("mask", "fancy"):
                continue
            if rng.random() < 0.05 and R["f"] == "mask":
                R["m"] = R["m"] + [1]
                op = {"o": o, "t": t, "rows": R}
                c["ops"].append(op)
                continue
            op = {"o": o, "t": t, "rows": R}
            k = nsel(R, nn)
            if o == "filter":
                new = (k, list(names), dict(kd))
            else:
                tb["n"] = k
        elif o == "bind":
            us = [i for i, x in enumerate(T) if x["n"] == nn and x["names"]]
            if not us:
                continue
            u = rng.choice(us)
            fr = rng.choice(T[u]["names"])
            to = rng.choice(["k0", "k1", "b", "b2"])
            op = {"o": o, "t": t, "u": u, "from": fr, "to": to, "how": rng.choice(["item", "attr"])}
            k = T[u]["kinds"][fr]
            if to not in names:
                names.append(to)
            kd[to] = k
        elif o == "setcol":
            m = rng.choice(names)
            k = rng.choice(tcol.KINDS)
            op = {"o": o, "t": t, "names": [m], "vals": [valn(rng, k, nn)], "kinds": [k], "how": rng.choice(["item", "attr"])}
            if rng.random() < 0.3 and nn:
                x = val1(rng, "i4", 0)
                ms = rng.sample(names, rng.randint(1, len(names)))
                op = {"o": o, "t": t, "names": ms, "vals": [[x] * nn for _ in ms], "kinds": ["i4"] * len(ms), "how": "scalar", "x": x}
            for m2, k2 in zip(op["names"], op["kinds"]):
                kd[m2] = k2
        elif o == "putmask":
            op = {"o": o, "t": t, "m": [rng.randint(0, 1) for _ in range(nn)], "g": [valn(rng, kd[m], nn) for m in names], "kinds": [kd[m] for m in names]}
            if rng.random() < 0.05 and nn:
                op["m"] = op["m"][:-1]
        else:
            R = rng.choice([{"f": "all"}, {"f": "mask", "m": [rng.randint(0, 1) for _ in range(nn)], "how": "np"}, {"f": "fancy", "idx": rng.sample(range(nn), rng.randint(0, nn)), "how": "np"}])
            op = {"o": o, "t": t, "rows": R, "x": rng.randint(0, nn + 1), "seed": rng.randint(0, 99)}
            k = min(op["x"], nsel(R, nn))
            new = (k, list(names), dict(kd))
        c["ops"].append(op)
        if new:
            if new[0] is None or not new[1]:
                break
            T.append({"n": new[0], "names": list(new[1]), "kinds": dict(new[2])})
    return c


def cases(tier, rng):
    big = tier == "thorough"
    for k in tcol.KINDS:
        for n in (0, 1, 2, 3, 5):
            for _ in range(8 if big else 3):
                yield hist(rng, [k], n)
        for _ in range(2):
            yield hist(rng, [k], rng.choice([130, 260]), 2)
        for _ in range(20 if big else 8):
            yield hist(rng, [k, k])
    # every slice over small tables
    for n in (3, 4) if big else (3,):
        for a in list(range(-n - 1, n + 2)) + [None]:
            for b in list(range(-n - 1, n + 2)) + [None]:
                for s in (1, 2, -1, -2, -3):
                    if s == 1 and a is None and b is None:
                        continue
                    R = {"f": "slice", "ha": int(a is not None), "a": a or 0, "hb": int(b is not None), "b": b or 0, "s": s}
                    k = rng.choice([k for k in tcol.KINDS if k != "cati"])
                    x = val1(rng, k, 0)
                    yield {"n": n, "cols": [["k0", k, valn(rng, k, n)], ["v", "v", list(range(1, n + 1))]],
                           "ops": [{"o": "get", "t": 0, "rows": R, "cols": {"f": "all"}, "sugar": 0}, {"o": "set", "t": 0, "rows": R, "cols": {"f": "name", "n": "k0", "how": "str"}, "val": {"f": "scalar", "x": x, "kind": k, "how": "plain"}, "via": "ds"}]}
    for _ in range(14000 if big else 3200):
        yield hist(rng)


# ---------------------------------------------------------------- execution
def stride(a):
    """the same elements as a view with a step"""
    b = np.repeat(np.asarray(a), 2)
    b[1::2] = b[1::2][::-1]
    b = b[::2]
    return b.view(rt.FastArray) if isinstance(a, rt.FastArray) else b


def pyrows(R, ds, kinds):
    f = R["f"]
    if f == "all":
        return slice(None)
    if f == "int":
        return R["i"]
    if f == "slice":
        return pyslice(R)
    how = R.get("how")
    if f == "mask":
        m = np.array(R["m"], dtype=bool)
        return m if how == "np" else rt.FA(m) if how == "fa" else stride(m) if how == "str" else m.tolist()
    if f == "fancy":
        if how == "list":
            return list(R["idx"])
        if how == "str":
            return stride(rt.FA(np.array(R["idx"], dtype=np.int32)))
        dt = {"np": np.int64, "fa": np.int32, "i4": np.int32, "i1": np.int8 if len(R["idx"]) < 100 else np.int64}[how]
        if dt is np.int8 and any(not -128 <= i < 128 for i in R["idx"]):
            dt = np.int64
        a = np.array(R["idx"], dtype=dt)
        return rt.FA(a) if how == "fa" else a
    ds.label_set_names(list(R["cs"]))
    xs = [[tcol.POOL[kinds[m]][x - 1] for m, x in zip(R["cs"], row)] for row in R["xs"]]
    if len(R["cs"]) > 1:
        xs = [tuple(x) for x in xs]
        return xs[0] if len(xs) == 1 and how == "one" else xs
    xs = [x[0] for x in xs]
    return xs[0] if len(xs) == 1 and how == "one" else np.array(xs) if how == "np" else xs


def pycols(C):
    f = C["f"]
    how = C.get("how")
    if f == "all":
        return slice(None)
    if f == "name":
        return C["n"].encode() if how == "bytes" else C["n"]
    if f == "names":
        return list(C["ns"]) if how == "list" else np.array(C["ns"]) if how == "np" else [m.encode() for m in C["ns"]]
    if f == "int":
        return C["i"]
    if f == "ints":
        return list(C["idx"]) if how == "list" else np.array(C["idx"], dtype=np.int64)
    if f == "slice":
        return pyslice(C)
    m = np.array(C["m"], dtype=bool)
    return m if how == "np" else m.tolist()


def scalar(kind, x, how):
    """a Python/numpy scalar for one cell"""
    if kind == "v":
        return x
    p = tcol.POOL[kind]
    if x == NA:
        if how == "wide" and kind in INTS + UINTS:
            return np.nan
        if kind == "u8":
            return 2**64 - 1
        return mkc(kind, [NA])._np[0] if kind not in tcol.CLS else mkc(kind, [NA])[0]
    if kind in tcol.CLS:
        return mkc(kind, [x])[0]
    if how == "wide" and kind in INTS + UINTS:
        return float(p[x - 1])
    return p[x - 1]


def values(kind, v, how):
    a = mkc(kind, v)
    if how == "str" and type(a) is rt.FastArray:
        return stride(a)
    if how == "wide":
        if kind in INTS:
            return a.astype(np.float64)
        if kind in UINTS:
            return a.astype(np.float64)
        if kind == "f4":
            return a.astype(np.float64)
    if how == "narrow":
        if kind in ("i2", "i4") :
            return mkc("i1", v)
        if kind == "f8" and all(x == NA or x <= 3 for x in v):
            return mkc("f4", v)
    if how == "list":
        if kind in tcol.CLS or kind == "u8" and NA in v:
            return a
        return [scalar(kind, x, "plain") for x in v]
    return a


def grid(kinds, cols, names):
    """a table of values, paired with the target columns by position: its names are others or the same in another order"""
    nm = ["z%d" % i for i in range(len(kinds))]
    if len(names) == len(kinds) == len(set(names)) and len(str(cols)) % 2:
        nm = names[1:] + names[:1]
    return rt.Dataset({m: mkc(k, g) for m, k, g in zip(nm, kinds, cols)})


def execute(c):
    kinds0 = {m: k for m, k, _ in c["cols"]}
    lay = c.get("lay", 0)
    if lay == 1:
        tabs = [rt.Dataset({m: mkc(k, [x for y in v for x in (y, 1)]) for m, k, v in c["cols"]})[::2, :]]
    elif lay == 2:
        tabs = [rt.Dataset({m: mkc(k, v[::-1]) for m, k, v in c["cols"]})[::-1, :]]
    else:
        tabs = [rt.Dataset({m: mkc(k, v) for m, k, v in c["cols"]})]
    kinds = [kinds0]
    if c["n"] and tabs[0].get_nrows() != c["n"]:
        return []
    out = []

    def dump():
        return [{"n": int(d.get_nrows() or 0), "names": list(d.keys()), "vals": [rdc(d[m], kd[m]) for m in d.keys()]} for d, kd in zip(tabs, kinds)]

    def emit(op, err, res=()):
        out.append({"op": op, "err": err, "res": list(res), "dump": dump(), "n": c["n"], "init": [{"n": m, "v": v} for m, _, v in c["cols"]] if not out else []})

    emit({"o": "init"}, "")
    for q in c["ops"]:
        o, t = q["o"], q["t"]
        if t >= len(tabs):
            break
        ds, kd = tabs[t], kinds[t]
        sp = {"o": o, "t": t + 1}
        strip = lambda d: {a: b for a, b in d.items() if a not in ("how", "kind", "kinds")}
        res, err, new = [], "", None
        labels = ds.label_get_names()
        try:
            if o == "get":
                sp.update(rows=strip(q["rows"]), cols=strip(q["cols"]))
                one = q["cols"]["f"] in ("name", "int")
                C = pycols(q["cols"])
                if q["rows"]["f"] == "all" and q["sugar"]:
                    r = ds[C]
                else:
                    r = ds[pyrows(q["rows"], ds, kd), C]
                if one:
                    m = sel(q["cols"], list(ds.keys()))[0]
                    if q["rows"]["f"] == "int":
                        b = mkc(kd[m], [1])
                        if kd[m].startswith("cat"):
                            p = tcol.POOL[kd[m]]
                            y = r.decode() if isinstance(r, bytes) else r
                            res = [p.index(y) + 1 if y in p else NA if y in ("Filtered",) or isinstance(y, str) and y.startswith("!<") else BAD]
                        elif kd[m] in tcol.CLS:
                            res = rdc(b.newclassfrominstance(np.array([r._np if hasattr(r, "_np") else r]).astype(b.dtype), b), kd[m])
                        else:
                            res = rdc(rt.FastArray(np.array([r]).astype(b.dtype), unicode=kd[m] == "U"), kd[m])
                    else:
                        res = rdc(r, kd[m])
                else:
                    new = (r, {m: kd[m] for m in r.keys()})
            elif o == "set":
                val = q["val"]
                sp.update(rows=strip(q["rows"]), cols=strip(q["cols"]), val=strip(val))
                names = sel(q["cols"], list(ds.keys()))
                f = val["f"]
                if f == "scalar":
                    x = scalar(val["kind"], val["x"], val["how"])
                elif f == "col":
                    x = values(val["kind"], val["v"], val["how"])
                elif f == "row":
                    x = [scalar(k, y, "plain") for k, y in zip(val["kinds"], val["v"])]
                elif f == "grid":
                    x = grid(val["kinds"], val["g"], names)
                else:
                    x = tabs[val["t"] - 1]
                R = pyrows(q["rows"], ds, kd)
                if q["via"] == "arr" and f in ("scalar", "col") and len(names) == 1 and q["rows"]["f"] not in ("label",) and not (f == "col" and q["rows"]["f"] == "int"):
                    ds[names[0]][R] = x
                else:
                    ds[R, pycols(q["cols"])] = x
            elif o in ("head", "tail"):
                sp["x"] = q["x"]
                new = (getattr(ds, o)(q["x"]), dict(kd))
            elif o == "shallow":
                new = (ds.copy(deep=False), dict(kd))
            elif o == "deep":
                new = (ds.copy(), dict(kd))
            elif o in ("filter", "filterin"):
                sp["rows"] = strip(q["rows"])
                R = pyrows(q["rows"], ds, kd)
                if o == "filter":
                    new = (ds.filter(R), dict(kd))
                else:
                    ds.filter(R, inplace=True)
            elif o == "bind":
                sp.update(u=q["u"] + 1, to=q["to"])
                sp["from"] = q["from"]
                a = tabs[q["u"]][q["from"]]
                k = kinds[q["u"]][q["from"]]
                if q["how"] == "item":
                    ds[q["to"]] = a
                else:
                    setattr(ds, q["to"], a)
                kd[q["to"]] = k
            elif o == "setcol":
                sp.update(names=q["names"], vals=q["vals"])
                if q["how"] == "grid":
                    ds[:, pycols(q["C"])] = grid(q["kinds"], q["vals"], q["names"])
                elif q["how"] == "scalar":
                    ds[q["names"] if len(q["names"]) > 1 else q["names"][0]] = np.int32(tcol.POOL["i4"][q["x"] - 1])
                elif q["how"] == "item":
                    ds[q["names"][0]] = mkc(q["kinds"][0], q["vals"][0])
                else:
                    setattr(ds, q["names"][0], mkc(q["kinds"][0], q["vals"][0]))
                for m, k in zip(q["names"], q["kinds"]):
                    kd[m] = k
            elif o == "putmask":
                sp.update(m=q["m"], g=q["g"])
                m = np.array(q["m"], dtype=bool)
                ds.putmask(stride(m) if q["t"] % 2 else m, grid(q["kinds"], q["g"], list(ds.keys())))
            else:
                sp.update(rows=strip(q["rows"]), x=q["x"], picked=[])
                if "v" not in ds.keys() or kd["v"] != "v":
                    break
                ids = ds["v"]._np.tolist()
                if len(set(ids)) != len(ids) or any(y != y for y in ids):
                    break
                R = pyrows(q["rows"], ds, kd)
                r = ds.sample(q["x"], filter=None if q["rows"]["f"] == "all" else R, seed=q["seed"])
                new = (r, dict(kd))
                sp["picked"] = [ids.index(y) + 1 if y in ids else 0 for y in r["v"]._np.tolist()]
        except Exception as e:
            err = type(e).__name__
        finally:
            if q.get("rows", {}).get("f") == "label":
                ds.label_set_names(labels)
                if new:
                    new[0].label_set_names([])
        if new:
            tabs.append(new[0])
            kinds.append(new[1])
        emit(sp, err, res)
        if err and o not in ("get", "set", "filter", "filterin", "putmask"):
            break
    return out
