"""C12: merge2 / merge / merge_lookup / merge_indices."""
import itertools
import warnings

import numpy as np
import riptable as rt
import tcol
from proj import BAD, NA, same

PAIRS = [(k, k) for k in tcol.KINDS if k not in ("cate", "?")] + [("i1", "i8"), ("i4", "i2"), ("i8", "i4"), ("f4", "f8"), ("f8", "f4"), ("S", "Us"), ("Us", "S"), ("cat", "S"), ("S", "cat"), ("catu", "U"), ("cat", "cat"), ("u1", "u4")]
SINGLE_ONLY = ()
FNS = ["merge2", "merge2", "merge2", "dsmerge2", "merge", "dsmerge", "lookup", "dslookup", "inplace", "indices"]
PAY = [k for k in tcol.KINDS]


def lim(a, b):
    return 3 if a != b else len(tcol.POOL[a])


def mkcase(rng, fn=None, how=None, pair=None, nmax=8):
    fn = fn or rng.choice(FNS)
    how = how or rng.choice(["left", "inner", "right", "outer"])
    if fn in ("lookup", "dslookup", "inplace"):
        how = "left"
    nk = 1 if pair or rng.random() < 0.6 else rng.choice([2, 2, 3])
    kd = [pair or rng.choice(PAIRS)] if nk == 1 else [rng.choice([p for p in PAIRS if not (p[0].startswith("cat") ^ p[1].startswith("cat"))]) for _ in range(nk)]
    if fn in ("merge", "dsmerge") and nk > 1:
        kd = [("S", "S") if a.startswith("cat") else (a, b) for a, b in kd]  # several Categorical keys: merge() has no such mode
    nl, nr = rng.randint(0, nmax), rng.randint(0, nmax)
    if rng.random() < 0.7:
        nl, nr = max(1, nl), max(1, nr)
    old = fn in ("merge", "dsmerge")
    if old:
        nl, nr = max(1, nl), max(1, nr)
    na = 0 if old or rng.random() < 0.4 else 0.2
    m = [rng.randint(1, lim(a, b)) for a, b in kd]
    L = [[NA if a not in tcol.NONA and rng.random() < na else rng.randint(1, q) if a not in tcol.NONA else rng.randint(1, 2) for (a, b), q in zip(kd, m)] for _ in range(nl)]
    R = [[NA if a not in tcol.NONA and rng.random() < na else rng.randint(1, q) if a not in tcol.NONA else rng.randint(1, 2) for (a, b), q in zip(kd, m)] for _ in range(nr)]
    # an empty string is an ordinary key
    for j, (a, b) in enumerate(kd):
        if a in ("S", "U", "Us") or b in ("S", "U", "Us"):
            for K in (L, R):
                for k in K:
                    if k[j] == NA:
                        k[j] = 1
    if rng.random() < 0.25:  # unique right keys
        seen, R2 = [], []
        for k in R:
            if k not in seen:
                seen.append(k)
                R2.append(k)
        R = R2
    c = {"op": fn, "how": how, "kd": kd, "L": L, "R": R, "kl": 0, "kr": 0, "validate": 0, "req": 0, "suf": None, "ind": "", "copy": 1, "hc": None}
    r = rng.random()
    if not old:
        if r < 0.4:
            c["kl"], c["kr"] = rng.choice([(0, 1), (0, 2), (1, 1), (2, 2), (1, 0), (2, 0), (1, 2)])
            if how == "outer":
                c["kl"] = 0
            if fn in ("lookup", "dslookup", "inplace"):
                c["kl"] = 0
        if fn in ("merge2", "dsmerge2", "indices") and rng.random() < 0.3:
            c["validate"] = rng.randint(1, 4)
        if fn in ("lookup", "dslookup", "inplace"):
            if c["kr"] == 0:
                c["validate"] = 3
            c["req"] = int(rng.random() < 0.2)
        if rng.random() < 0.25:
            c["hc"] = rng.choice([True, False, (True, False), (False, True)])
            # the engine's lexical multi-key grouping ignores trailing bytes of rows of odd size (see DESIGN)
            if nk > 1 and any(k in ("i1", "u1", "S", "U", "Us", "?") for pr in kd for k in pr):
                c["hc"] = False
        if rng.random() < 0.2:
            c["copy"] = 0
    # names: same or different key names; payload names may collide
    c["lon"] = ["k%d" % j if rng.random() < 0.6 else "lk%d" % j for j in range(nk)]
    c["ron"] = [n if n[0] == "k" else rng.choice(["rk%d" % j, n]) for j, n in enumerate(c["lon"])]
    c["lp"], c["rp"] = rng.choice([("p", "q"), ("p", "q"), ("p", "p"), ("p", "p_y"), ("p_x", "p")])
    c["suf"] = rng.choice([None, ["_x", "_y"], ["", "_y"], ["_l", ""], ["_x", "_x"]])
    if fn in ("merge", "dsmerge"):
        c["suf"] = rng.choice([["_x", "_y"], ["_l", "_r"], ["", "_y"], ["_x", "_x"]])
    if fn == "inplace":
        c["suf"] = rng.choice([["", ""], ["", "_y"]])
    if fn in ("dslookup",) and c["suf"] is None:
        c["suf"] = ["", ""]
    c["lk"], c["rk"] = rng.choice(PAY), rng.choice(PAY)
    c["lpv"], c["rpv"] = tcol.gen(rng, c["lk"], len(L), 0.1), tcol.gen(rng, c["rk"], len(R), 0.1)
    c["cl"] = rng.choice([None, None, None, [], ["a"], ["a", c["lp"]], [c["lp"], "a"]])
    c["cr"] = rng.choice([None, None, None, [], ["b"], ["b", c["rp"]], [c["rp"], "b"]])
    if fn == "inplace":
        c["cl"] = None
    if rng.random() < 0.25 and fn in ("merge2", "merge", "dsmerge2", "dsmerge"):
        c["ind"] = rng.choice(["merge_indicator", "who", "p"])
    c["onform"] = rng.choice(["lr", "on", "on"])
    return c


def cases(tier, rng):
    # each outer join that keeps all right rows recompiles a numba kernel (0.4 s): fewer of those in the quick tier
    k = 0
    for c in _cases(tier, rng):
        if tier != "thorough" and c["how"] == "outer" and c["kr"] == 0 and c["op"] in ("merge2", "dsmerge2", "indices"):
            k += 1
            if k % 4:
                continue
        yield c


def _cases(tier, rng):
    big = tier == "thorough"
    # exhaustive: single key, small tables, every join kind
    n = 0
    for nl in range(0, 4):
        for nr in range(0, 4):
            for L in itertools.product([1, 2, NA], repeat=nl):
                for R in itertools.product([1, 2, NA], repeat=nr):
                    n += 1
                    for q, (fn, how, kl, kr) in enumerate([("merge2", "left", 0, 0), ("merge2", "inner", 0, 0), ("merge2", "right", 0, 0), ("merge2", "outer", 0, 0), ("merge2", "left", 0, 2), ("merge2", "inner", 1, 2),
                                                           ("merge2", "outer", 0, 1), ("lookup", "left", 0, 0), ("indices", "outer", 0, 0), ("merge2", "right", 2, 1)]):
                        if not big and (n + 3 * q) % 10 not in (0, 5):
                            continue
                        pr = [("f8", "f8"), ("i4", "i4"), ("cat", "cat"), ("i1", "i8")][(n + q) % 4]
                        yield {"op": fn, "how": how, "kd": [pr], "L": [[x] for x in L], "R": [[x] for x in R], "kl": kl, "kr": kr, "validate": 3 if fn == "lookup" and kr == 0 else 0, "req": 0,
                               "suf": None, "ind": "", "copy": 1, "hc": None, "lon": ["k0"], "ron": ["k0"], "lp": "p", "rp": "q", "lk": "i4", "rk": "S", "lpv": [1 + i % 3 for i in range(nl)], "rpv": [1 + i % 3 for i in range(nr)],
                               "cl": None, "cr": None, "onform": "on"}
    for fn in sorted(set(FNS)):
        for how in ("left", "inner", "right", "outer"):
            for pr in PAIRS:
                for _ in range(3 if big else 1):
                    yield mkcase(rng, fn, how, pr)
    # an empty side, every key dtype
    for fn in ("merge2", "indices"):
        for how in ("left", "inner", "right", "outer"):
            for pr in PAIRS:
                if big or rng.random() < 0.3:
                    c = mkcase(rng, fn, how, pr)
                    if len(c["kd"]) == 1:
                        side, pay = rng.choice([("L", "lpv"), ("R", "rpv")])
                        c[side], c[pay] = [], []
                        yield c
    for k in range(14000 if big else 3500):
        yield mkcase(rng)
    # longer tables: row numbers and group numbers beyond one byte
    for k in range(60 if big else 16):
        c = mkcase(rng, rng.choice(["merge2", "lookup", "indices", "merge"]), None, rng.choice([("i4", "i4"), ("S", "S"), ("f8", "f8"), ("cat", "cat")]), 8)
        c["big"] = 1
        nl, nr = rng.choice([(130, 5), (5, 140), (140, 135), (260, 3)])
        u = rng.choice([3, 40, 1000])
        c["L"] = [[rng.randint(1, 5)] for _ in range(nl)]
        c["R"] = [[rng.randint(1, 5)] for _ in range(nr)]
        c["kd"] = [("iL", "iL")]
        c["L"] = [[rng.randint(1, u)] for _ in range(nl)]
        c["R"] = [[rng.randint(1, u)] for _ in range(nr)] if nl * nr / u < 3000 else [[1 + i] for i in range(nr)]
        if c["op"] in ("merge2", "indices") and rng.random() < 0.4:
            # few keys kept out of many rows
            c["how"], c["validate"] = "outer", 0
            c["kl"], c["kr"] = rng.choice([(0, 1), (0, 2), (1, 0), (2, 0), (1, 1), (2, 2)])
        c["lpv"], c["rpv"] = tcol.gen(rng, c["lk"], nl, 0.1), tcol.gen(rng, c["rk"], nr, 0.1)
        yield c


tcol.POOL["iL"] = list(range(1, 1001))


def mkkey(kind, r):
    if kind == "iL":
        return rt.FA(np.array(r, dtype=np.int32))
    return tcol.mk(kind, r)


def rdkey(a, kinds):
    if kinds[0] == "iL":
        return [int(x) if x != -(2**31) else tcol.NA for x in a]
    for k in kinds:
        if isinstance(a, rt.Categorical) == k.startswith("cat"):
            return tcol.rd(a, k, strict=False)
    return [BAD] * len(a)


KEEP = {0: None, 1: "first", 2: "last"}
VAL = {0: None, 1: "1:1", 2: "1:m", 3: "m:1", 4: "m:m"}


def execute(c):
    fn, how, kd = c["op"], c["how"], c["kd"]
    L, R = c["L"], c["R"]
    left, right = rt.Dataset({}), rt.Dataset({})
    for j, (a, b) in enumerate(kd):
        left[c["lon"][j]] = mkkey(a, [k[j] for k in L])
        right[c["ron"][j]] = mkkey(b, [k[j] for k in R])
    left["a"] = rt.arange(1, len(L) + 1, dtype=np.int32)
    right["b"] = rt.arange(1, len(R) + 1, dtype=np.int32)
    left[c["lp"]], right[c["rp"]] = tcol.mk(c["lk"], c["lpv"]), tcol.mk(c["rk"], c["rpv"])
    lcols = [{"n": n, "v": [k[j] for k in L], "nona": int(kd[j][0] in tcol.NONA)} for j, n in enumerate(c["lon"])]
    rcols = [{"n": n, "v": [k[j] for k in R], "nona": int(kd[j][1] in tcol.NONA)} for j, n in enumerate(c["ron"])]
    lcols += [{"n": "a", "v": list(range(1, len(L) + 1)), "nona": 0}, {"n": c["lp"], "v": c["lpv"], "nona": int(c["lk"] in tcol.NONA)}]
    rcols += [{"n": "b", "v": list(range(1, len(R) + 1)), "nona": 0}, {"n": c["rp"], "v": c["rpv"], "nona": int(c["rk"] in tcol.NONA)}]
    # without the row-number columns the pairing could not be observed
    cl = c["cl"] if c["cl"] is None or "a" in c["cl"] else c["cl"] + ["a"]
    cr = c["cr"] if c["cr"] is None or "b" in c["cr"] else c["cr"] + ["b"]
    pyfn = {"dsmerge2": "merge2", "dsmerge": "merge", "dslookup": "lookup", "inplace": "lookup"}.get(fn, fn)
    ev = {"t": "join", "fn": pyfn, "how": how, "L": L, "R": R, "kl": c["kl"], "kr": c["kr"], "validate": c["validate"], "reqmatch": c["req"], "lon": c["lon"], "ron": c["ron"],
          "cl": cl if cl is not None else list(left.keys()), "cr": cr if cr is not None else list(right.keys()),
          "suf": [] if c["suf"] is None or c["suf"] == ["", ""] else c["suf"], "ind": c["ind"], "lcols": lcols, "rcols": rcols}
    snapL = [(n, left[n]._np.copy() if hasattr(left[n], "_np") else np.array(left[n])) for n in left.keys()]
    snapR = [(n, right[n]._np.copy() if hasattr(right[n], "_np") else np.array(right[n])) for n in right.keys()]
    kw = {}
    if c["onform"] == "on":
        on = [a if a == b else (a, b) for a, b in zip(c["lon"], c["ron"])]
        if fn in ("merge", "dsmerge"):
            if c["lon"] == c["ron"]:
                kw["on"] = c["lon"] if len(on) > 1 else c["lon"][0]
            else:
                kw["left_on"], kw["right_on"] = c["lon"], c["ron"]
        else:
            kw["on"] = on if len(on) > 1 else on[0]
    else:
        kw["left_on"], kw["right_on"] = (c["lon"], c["ron"]) if len(c["lon"]) > 1 else (c["lon"][0], c["ron"][0])
    if fn == "indices":
        kw = {"on": [(a, b) for a, b in zip(c["lon"], c["ron"])]}
    if fn in ("merge2", "dsmerge2", "indices", "merge", "dsmerge"):
        kw["how"] = how
    if fn in ("merge2", "dsmerge2", "indices"):
        kw["validate"] = VAL[c["validate"]]
        if c["kl"] or c["kr"]:
            kw["keep"] = KEEP[c["kl"]] if c["kl"] == c["kr"] else (KEEP[c["kl"]], KEEP[c["kr"]])
    if fn in ("lookup", "dslookup", "inplace"):
        kw["keep"] = KEEP[c["kr"]]
        kw["require_match"] = bool(c["req"])
    if fn not in ("indices", "merge", "dsmerge"):
        kw["copy"] = bool(c["copy"])
    if fn not in ("merge", "dsmerge") and c["hc"] is not None:
        kw["high_card"] = tuple(c["hc"]) if isinstance(c["hc"], (list, tuple)) else c["hc"]
    if fn != "indices":
        kw["columns_left"], kw["columns_right"] = cl, cr
        if c["suf"] is not None:
            if fn in ("dslookup", "inplace"):
                if c["suf"][0] == "":
                    kw["suffix"] = c["suf"][1] or None
                else:
                    kw["suffixes"] = tuple(c["suf"])
            else:
                kw["suffixes"] = tuple(c["suf"])
        if fn in ("merge", "dsmerge") and c["suf"] is None:
            kw["suffixes"] = (False, False)
    if c["ind"]:
        kw["indicator"] = True if c["ind"] == "merge_indicator" else c["ind"]
    if fn == "inplace":
        kw["inplace"] = True
        kw.pop("columns_left")
    o = {"raised": 0, "pairs": [], "cols": [], "frame": 1}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if fn == "merge2":
                r = rt.merge2(left, right, **kw)
            elif fn == "dsmerge2":
                r = left.merge2(right, **kw)
            elif fn == "merge":
                r = rt.merge(left, right, **kw)
            elif fn == "dsmerge":
                r = left.merge(right, **kw)
            elif fn == "lookup":
                r = rt.merge_lookup(left, right, **kw)
            elif fn in ("dslookup", "inplace"):
                r = left.merge_lookup(right, **kw)
            else:
                r = rt.rt_merge.merge_indices(left, right, **kw)
        except (ValueError, KeyError) as e:
            o["raised"] = 1
            r = None
    fl = all(n in left and same(a, left[n]._np if hasattr(left[n], "_np") else np.asarray(left[n])) for n, a in snapL)
    fl = fl and ((fn == "inplace" and not o["raised"]) or list(left.keys()) == [n for n, _ in snapL])
    fr = list(right.keys()) == [n for n, _ in snapR] and all(same(a, right[n]._np if hasattr(right[n], "_np") else np.asarray(right[n])) for n, a in snapR)
    o["frame"] = int(fl and fr)
    ev["obs"] = o
    if o["raised"]:
        return ev
    if fn == "indices":
        def ix(x, n):
            if x is None:
                return list(range(1, n + 1))
            x = np.asarray(x)
            if x.dtype == bool:
                return [i + 1 for i in range(len(x)) if x[i]]
            bad = np.iinfo(x.dtype).min
            return [0 if v == bad else v + 1 if 0 <= v < n else BAD for v in x.tolist()]
        a, b = ix(r.left_index, len(L)), ix(r.right_index, len(R))
        o["pairs"] = [list(p) for p in zip(a, b)] if len(a) == len(b) else [[BAD, BAD]]
        return ev
    a = [0 if x == -(2**31) else int(x) for x in r["a"].tolist()]
    b = [0 if x == -(2**31) else int(x) for x in r["b"].tolist()]
    o["pairs"] = [list(p) for p in zip(a, b)] if len(a) == len(b) else [[BAD, BAD]]
    lon, ron = c["lon"], c["ron"]
    for n in r.keys():
        x = r[n]
        # every column is read both as a left and as a right column; the specification knows which it must be
        if n in ("a", "b"):
            vl = vr = [NA if q == -(2**31) else int(q) for q in x.tolist()]
        elif c["ind"] and n == c["ind"] and isinstance(x, rt.Categorical) and x.category_array.tolist()[:1] == [b"left_only"]:
            vl = vr = x._np.astype(int).tolist() if x.category_array.tolist() == [b"left_only", b"right_only", b"both"] else [BAD] * len(x)
        else:
            both = n in lon and n in ron
            vl = rdkey(x, kd[lon.index(n)] if both else kd[lon.index(n)][:1]) if n in lon else tcol.rd(x, c["lk"])
            vr = rdkey(x, kd[ron.index(n)] if both else kd[ron.index(n)][1:]) if n in ron else tcol.rd(x, c["rk"])
        o["cols"].append({"n": n, "l": vl, "r": vr})
    return ev
