"""Stacking: tables one under the other, side by side, and structures member by member."""
import warnings

import numpy as np
import riptable as rt

import lay
import tcol
from proj import NA, BAD, sentinel

NUMK = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "f4", "f8"]
NPOOL = [0, 3, 9, 77, 100]  # exact in every numeric type
SPOOL = ["a", "ab", "b", "zz", "longer text"]
CATS = ["a", "ab", "b", "c", "longer", "zz"]
FAMS = ["num", "num", "str", "catx", "catx", "mk", "cat0", "mat"] + ["i1", "i8", "u8", "f4", "f8", "?", "S", "U", "date", "dtn", "tsp", "dspan", "cat", "cati", "catu", "cate"]
NOGAP = ("cat0", "cate")


def col(rng, fam, n):
    """one column of a family: {"f": family, "k": concrete kind, "v": ranks}"""
    if fam == "num":
        return {"f": fam, "k": rng.choice(NUMK), "v": [NA if rng.random() < 0.2 else rng.randint(1, 5) for _ in range(n)]}
    if fam == "str":
        return {"f": fam, "k": rng.choice(["S", "S", "Us"]), "v": [NA if rng.random() < 0.15 else rng.randint(1, 5) for _ in range(n)]}
    if fam in ("catx", "cat0"):
        own = sorted(rng.sample(range(1, 7), rng.randint(1, 6)))
        if rng.random() < 0.3:
            rng.shuffle(own)
        return {"f": fam, "k": rng.choice(["b", "b", "u"]), "own": own, "w": rng.choice(["i1", "i2", "i4"]), "v": [NA if fam == "catx" and rng.random() < 0.2 else rng.choice(own) for _ in range(n)]}
    if fam == "mk":
        return {"f": fam, "k": "mk", "v": [NA if rng.random() < 0.15 else rng.randint(1, 6) for _ in range(n)]}
    if fam == "mat":
        return {"f": fam, "k": rng.choice(["i4", "f8", "i1"]), "w": 2, "v": [[rng.randint(1, 5), NA if rng.random() < 0.2 else rng.randint(1, 5)] for _ in range(n)]}
    return {"f": fam, "k": fam, "v": tcol.gen(rng, fam, n, 0.2)}


MKA, MKB = ["x", "yy", "x", "yy", "z", "z"], [1, 1, 2, 2, 1, 2]


def build(c):
    f, v, n = c["f"], c["v"], len(c["v"])
    if f == "num":
        dt = np.dtype(c["k"])
        a = np.zeros(n, dtype=dt)
        for i, x in enumerate(v):
            a[i] = NPOOL[x - 1] if x != NA else (np.nan if dt.kind == "f" else sentinel(dt))
        return lay.fa(a)
    if f == "str":
        a = np.array(["" if x == NA else SPOOL[x - 1] for x in v], dtype="U%d" % max([1] + [len(SPOOL[x - 1]) for x in v if x != NA]))
        return lay.view(rt.FA(a.astype("S")) if c["k"] == "S" else rt.FastArray(a, unicode=True))
    if f in ("catx", "cat0"):
        b = 1 if f == "catx" else 0
        own = c["own"]
        cats = np.array([CATS[x - 1] for x in own])
        cats = rt.FA(cats.astype("S")) if c["k"] == "b" else rt.FastArray(cats, unicode=True)
        ix = np.array([0 if x == NA else own.index(x) + b for x in v], dtype=c["w"])
        return rt.Categorical(lay.fa(ix), cats, base_index=b)
    if f == "mk":
        keys = [rt.FA(np.array([MKA[0 if x == NA else x - 1].encode() for x in v], dtype="S2")), rt.FA(np.array([MKB[0 if x == NA else x - 1] for x in v], dtype=np.int32))]
        return rt.Categorical(keys, filter=rt.FA(np.array([x != NA for x in v], dtype=bool)))
    if f == "mat":
        dt = np.dtype(c["k"])
        a = np.zeros((n, 2), dtype=dt)
        for i, r in enumerate(v):
            for j, x in enumerate(r):
                a[i, j] = NPOOL[x - 1] if x != NA else (np.nan if dt.kind == "f" else sentinel(dt))
        return rt.FA(a)
    return tcol.mk(f, v)


def read(a, f):
    """column -> cells; a column that is no longer of its family reads as BAD"""
    bad = [BAD] * len(a)
    if f == "num":
        if type(a) is not rt.FastArray or a.dtype.kind not in "iuf" or a.ndim != 1:
            return bad
        s = sentinel(a.dtype)
        return [NA if x != x or x == s else NPOOL.index(x) + 1 if x in NPOOL else BAD for x in np.asarray(a).tolist()]
    if f == "str":
        if type(a) is not rt.FastArray or a.dtype.kind not in "SU":
            return bad
        t = [x.decode("latin-1") if isinstance(x, bytes) else x for x in np.asarray(a).tolist()]
        return [NA if x == "" else SPOOL.index(x) + 1 if x in SPOOL else BAD for x in t]
    if f in ("catx", "cat0"):
        if not isinstance(a, rt.Categorical) or a.base_index != (1 if f == "catx" else 0):
            return bad
        b = a.base_index
        lab = [x.decode("latin-1") if isinstance(x, bytes) else x for x in a.category_array.tolist()]
        if len(set(lab)) != len(lab):
            return bad
        out = []
        for k in a._np.tolist():
            out.append(NA if b == 1 and k == 0 else CATS.index(lab[k - b]) + 1 if 0 <= k - b < len(lab) and lab[k - b] in CATS else BAD)
        return out
    if f == "mk":
        if not isinstance(a, rt.Categorical) or len(a.category_dict) != 2:
            return bad
        p, q = [list(x.tolist()) for x in a.category_dict.values()]
        p = [x.decode() if isinstance(x, bytes) else x for x in p]
        if len(set(zip(p, q))) != len(p):
            return bad
        prs = list(zip(MKA, MKB))
        return [NA if k == 0 else prs.index((p[k - 1], q[k - 1])) + 1 if 0 < k <= len(p) and (p[k - 1], q[k - 1]) in prs else BAD for k in a._np.tolist()]
    if f == "mat":
        if a.ndim != 2 or a.shape[1] != 2:
            return [[BAD, BAD]] * len(a)
        s = sentinel(a.dtype)
        return [[NA if x != x or x == s else NPOOL.index(x) + 1 if x in NPOOL else BAD for x in r] for r in np.asarray(a).tolist()]
    return tcol.rd(a, f, strict=f not in ("S", "U"))


def klass(c):
    f = c["f"]
    if f in ("num", "str", "S", "U") or f in NUMK + ["u8", "?"]:
        return "plain"
    return {"catx": "cat", "cat": "cat", "mk": "mk", "catu": "cat"}.get(f, f)


def gap(f):
    return 1 if f == "?" else [NA, NA] if f == "mat" else NA


def table(rng, fams, n):
    names = [m for m in fams if rng.random() < 0.75]
    if rng.random() < 0.3:
        rng.shuffle(names)
    return [[m, col(rng, fams[m], n)] for m in names]


def mkcase(rng, t=None, fam=None):
    t = t or rng.choice(["rows"] * 6 + ["dict", "cols", "cols", "struct"])
    names = ["a", "b", "c", "d"][: rng.choice([1, 2, 3, 4])]
    fams = {m: rng.choice(FAMS) for m in names}
    if fam:
        fams[names[0]] = fam
    k = rng.choice([1, 2, 2, 3, 3, 4])
    ns = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(k)]
    if t == "cols":
        ns = [ns[0]] * k if rng.random() < 0.85 else ns
    if rng.random() < 0.02:
        ns[0] = 130
    T = [table(rng, fams, n) for n in ns]
    c = {"t": t, "T": T, "N": ns, "bad": 0}
    if t == "cols":
        for tab in T:  # mostly distinct names
            if rng.random() < 0.5:
                for e in tab:
                    e[0] = e[0] + str(T.index(tab))
        c.update(copy=rng.randint(0, 1), dup=rng.choice(["raise", "first", "last"]), mis=rng.choice(["warn", "raise", "ignore"]))
    elif t == "rows":
        c["form"] = rng.choice(["concat_rows", "hstack", "rt.hstack", "stack_rows", "hstack_any", "nest", "destroy"])
        c["seq"] = rng.choice(["list", "tuple"])
        if k > 1 and rng.random() < 0.06:
            c["bad"] = 1
            f2 = rng.choice(["date", "catx", "dtn", "tsp", "mat"])
            f1 = rng.choice(["i4", "S", "f8"] + [x for x in ("date", "tsp", "catx") if x != f2])
            T[0] = [e for e in T[0] if e[0] != "q"] + [["q", col(rng, f1, ns[0])]]
            T[-1] = [e for e in T[-1] if e[0] != "q"] + [["q", col(rng, f2, ns[-1])]]
    elif t == "struct":
        c["sub"] = [rng.randint(0, 1) for _ in range(k)]
    if t in ("rows", "dict"):  # a gap in a column without a missing code is refused by the engine: not driven
        for m in list(fams):
            if fams[m] in NOGAP:
                for i, tab in enumerate(T):
                    if not any(e[0] == m for e in tab):
                        tab.append([m, col(rng, fams[m], ns[i])])
    return c


def cases(tier, rng):
    big = tier == "thorough"
    for f in sorted(set(FAMS)):
        for t in ("rows", "rows", "dict", "cols", "struct"):
            for _ in range(16 if big else 5):
                yield mkcase(rng, t, f)
    for _ in range(9000 if big else 1500):
        yield mkcase(rng)


def nolay(c):
    return any(e[1]["f"].startswith("cat") or e[1]["f"] == "mk" for tab in c["T"] for e in tab)


def shard(c):
    return c["t"]


def absT(tabs, ns):
    return [{"n": n, "c": [{"m": m, "k": klass(x), "g": gap(x["f"]), "v": x["v"]} for m, x in tab]} for tab, n in zip(tabs, ns)]


def project(ds, fam):
    n = ds._nrows
    return {"n": 0 if n is None else int(n), "c": [{"m": m, "v": read(ds[m], fam.get(m, "?"))} for m in ds.keys()]}


def raw(a):
    if isinstance(a, rt.Categorical):
        return [np.array(a._np)] + [np.array(x) for x in a.category_dict.values()]
    return [np.array(np.asarray(a))]


def execute(c):
    t = c["t"]
    # a table without columns has no rows
    T = [tab for tab in c["T"]]
    ns = [n if tab else 0 for tab, n in zip(T, c["N"])]
    fam = {m: x["f"] for tab in T for m, x in tab}
    cols = [[(m, build(x)) for m, x in tab] for tab in T]
    ev = {"t": t, "T": absT(T, ns), "keys": [], "dup": c.get("dup", ""), "mis": c.get("mis", ""), "copy": c.get("copy", 0), "subs": []}
    o = {"raised": 0, "frame": 1, "r": {"n": 0, "c": []}, "keys": [], "own": [], "warned": 0, "shared": 0, "names": [], "vals": [], "subs": []}
    ev["obs"] = o
    keep = [[(m, raw(a)) for m, a in tab] for tab in cols]
    if t == "struct":
        return struct(c, ev, o, cols, fam, keep)
    D = [rt.Dataset(dict(tab)) for tab in cols]
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        try:
            if t == "rows":
                s = D if c["seq"] == "list" else tuple(D)
                f = c["form"]
                if f == "nest" and len(D) > 2:
                    h = len(D) // 2
                    r = rt.hstack([rt.hstack(list(D[:h])), rt.hstack(list(D[h:]))])
                elif f == "concat_rows" or f == "nest":
                    r = rt.Dataset.concat_rows(s)
                elif f == "destroy":
                    r = rt.Dataset.concat_rows([d.copy(deep=False) for d in D], destroy=True)
                elif f == "hstack":
                    r = rt.Dataset.hstack(s)
                else:
                    r = {"rt.hstack": rt.hstack, "stack_rows": rt.stack_rows, "hstack_any": rt.hstack_any}[f](s)
                o["r"] = project(r, fam)
            elif t == "dict":
                ks = ["k%d" % (9 - i) for i in range(len(D))]
                r, cat = rt.stack_rows(dict(zip(ks, D)))
                o["r"] = project(r, fam)
                o["keys"] = [x.decode() if isinstance(x, bytes) else x for x in cat.category_array.tolist()]
                o["own"] = [int(x) for x in cat._np.tolist()]
                ev["keys"] = ks
            else:
                r = rt.Dataset.concat_columns(D, do_copy=bool(c["copy"]), on_duplicate=c["dup"], on_mismatch=c["mis"])
                fam2 = {}
                for d, tab in zip(D, T):
                    for m, x in tab:
                        if c["dup"] == "last" or m not in fam2:
                            fam2[m] = x["f"]
                o["r"] = project(r, fam2)
                o["warned"] = int(any("duplicate column mismatch" in str(w.message) for w in W))
                o["shared"] = int(any(np.shares_memory(np.asarray(r[m]), np.asarray(d[m])) for m in r.keys() for d in D if m in d and r[m].shape == d[m].shape and len(d[m])))
        except (TypeError, ValueError, KeyError, RuntimeError, NotImplementedError) as e:
            o["raised"] = 1
    for d, tab in zip(D, keep):
        if list(d.keys()) != [m for m, _ in tab] or any(any(p.tobytes() != q.tobytes() or p.dtype != q.dtype for p, q in zip(k, raw(d[m]))) for m, k in tab):
            o["frame"] = 0
    return ev


def struct(c, ev, o, cols, fam, keep):
    for e in ev["T"]:
        e["n"] = 0
    S = [rt.Struct(dict(tab)) for tab in cols]
    subs = []
    for i, s in enumerate(S):
        if c["sub"][i]:
            s["sub"] = rt.Dataset(dict(cols[i])) if cols[i] else rt.Dataset({"z": rt.FA([1, 2])})
            subs.append({"n": c["N"][i] if cols[i] else 2, "c": [{"m": m, "k": klass(x), "g": gap(x["f"]), "v": x["v"]} for m, x in c["T"][i]] or [{"m": "z", "k": "plain", "g": NA, "v": [1, 2]}]})
    for m, f in fam.items():
        if f in NOGAP and len({any(x["m"] == m for x in t["c"]) for t in subs}) == 2:
            return []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = rt.Struct.hstack(S)
            names = [m for m in r.keys() if m != "sub"]
            o["names"] = names
            o["vals"] = [read(r[m], fam.get(m, "?")) for m in names]
            if subs:
                p = project(r["sub"], dict(fam, z="num"))
                for x in p["c"]:
                    if x["m"] == "z":
                        x["v"] = [int(v) if v == v else NA for v in np.where(np.asarray(r["sub"]["z"]) < 0, NA, np.asarray(r["sub"]["z"])).tolist()]
                o["subs"] = [p]
                ev["subs"] = [subs]
        except (TypeError, ValueError, KeyError, RuntimeError, NotImplementedError) as e:
            o["raised"] = 1
    return ev
