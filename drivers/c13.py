"""C13: merge_asof / Dataset.merge_asof / merge_asof2."""
import datetime
import itertools
import warnings

import lay
import numpy as np
import riptable as rt
import tcol
from proj import BAD, NA, same, sentinel
from riptable.rt_merge_asof import merge_asof2

# `on' values: an integer of the specification <-> a concrete value
BASE = 1600000000 * 10**9
ON = {
    "i1": lambda v: v - 10, "i2": lambda v: v - 10, "i4": lambda v: v - 10, "i8": lambda v: v - 10,
    "u1": lambda v: v, "u2": lambda v: v, "u4": lambda v: v, "u8": lambda v: v,
    "f4": lambda v: v * 0.25 - 3, "f8": lambda v: v * 0.25 - 3,
    "date": lambda v: 10000 + v, "dtn": lambda v: BASE + v, "tsp": lambda v: 1e9 * (v - 5),
    # spread over most of the range of the type
    "i4w": lambda v: (v - 100) * 20000000, "i8w": lambda v: (v - 100) * 2**56, "u4w": lambda v: v * 20000000, "u8w": lambda v: v * 2**56,
    "i1w": lambda v: v - 100,
}
CLS = {"date": rt.Date, "dtn": rt.DateTimeNano, "tsp": rt.TimeSpan}
UNIT = {"f4": 0.25, "f8": 0.25, "dtn": 1}
ENGINE = ["i4", "i8", "u4", "u8", "f4", "f8", "date", "dtn", "tsp"]
NUMBA = ["i4", "f8", "dtn"]
NUMBA2 = ["i8", "u1", "i2", "f4", "date", "tsp", "u8"]
MIXED = [("i4", "i8"), ("f4", "f8"), ("i8", "i2")]
WIDE = ["i4w", "i8w", "u4w", "u8w"]
BY = ["i4", "i8", "S", "Us", "U", "cat", "catx", "f8", "i1", "u2", "date", "dtn", "?", "cati"]
PAY = [k for k in tcol.KINDS]


def mkon(kind, vals):
    c = [ON[kind](v) for v in vals]
    if kind == "date":
        return rt.Date(lay.view(np.array(c, dtype=np.int32)))
    if kind == "dtn":
        return rt.DateTimeNano(lay.view(np.array(c, dtype=np.int64)), from_tz="GMT", to_tz="NYC")
    if kind == "tsp":
        return rt.TimeSpan(lay.view(np.array(c, dtype=np.float64)))
    return lay.fa(np.array(c, dtype=kind.rstrip("w")))


def rdon(a, kind, strict=True):
    if kind in CLS and type(a) is not CLS[kind] or kind not in CLS and (type(a) is not rt.FastArray or strict and a.dtype != np.dtype(kind.rstrip("w"))):
        return [BAD] * len(a)
    inv = {ON[kind](v): v for v in range(0, 201)}
    out = []
    s = sentinel(a.dtype)
    for x in a._np.tolist():
        if x in inv:
            out.append(inv[x])
        elif x != x or s is not None and x == s or kind in ("date", "dtn") and x == 0:
            out.append(NA)
        else:
            out.append(BAD)
    return out


def mkby(kind, r):
    if kind == "catx":
        # only the categories that occur, in their own order
        return rt.Cat(lay.view(np.array([tcol.POOL["S"][x - 1] for x in r], dtype="U3")))
    return tcol.mk(kind, r)


def rdby(a, kind):
    if kind == "catx":
        if not isinstance(a, rt.Categorical):
            return [BAD] * len(a)
        p = tcol.POOL["S"]
        s = [x.decode() if isinstance(x, bytes) else str(x) for x in a.expand_array.tolist()]
        return [p.index(x) + 1 if x in p else NA if x == "Filtered" else BAD for x in s]
    return tcol.rd(a, kind, strict=False)


def mkcase(rng, fn=None, onk=None, nmax=8, nby=None, bk=None, direction=None):
    fn = fn or rng.choice(["asof", "asof", "asof", "dsasof", "asof2"])
    if onk is None:
        onk = rng.choice(ENGINE) if fn != "asof2" else rng.choice(NUMBA)
    lk, rk = onk if isinstance(onk, (list, tuple)) else (onk, onk)
    nby = rng.choice([0, 1, 1, 1, 2, 3]) if nby is None else nby
    bys = [bk or rng.choice(BY) for _ in range(nby)]
    if fn == "asof2":
        bys = ["i4" if b == "?" else b for b in bys]  # boolean keys are refused by ismember
    nl, nr = rng.randint(0, nmax), rng.randint(0, nmax)
    if rng.random() < 0.85:
        nl, nr = max(1, nl), max(1, nr)
    top = rng.choice([4, 8, 15, 60])
    if lk.endswith("w"):
        top = 200
        nr = min(nr, 2)
    L = [rng.randint(0, top) for _ in range(nl)]
    R = [rng.randint(0, top) for _ in range(nr)]
    if lk.endswith("w") and nr == 2:
        R = [rng.randint(0, 60), rng.randint(140, 200)]
    m = [rng.randint(1, 2 if b == "?" else 3) for b in bys]
    LB = [[rng.randint(1, q) for q in m] for _ in range(nl)]
    RB = [[rng.randint(1, q) for q in m] for _ in range(nr)]
    if bys and rng.random() < 0.2:  # every right row of one key missing
        RB = [[max(2, x) for x in k] if "?" not in bys else k for k in RB]
        if m and max(m) < 2:
            m = [2] * len(m)
    uns = rng.random() < 0.4 and fn != "asof2"
    if not uns:
        L.sort()
        R.sort()
        if fn == "asof2" and bys and rng.random() < 0.5:
            # sorted within each key is enough
            for T, B in ((L, LB), (R, RB)):
                per = {}
                for t, b in zip(T, B):
                    per.setdefault(tuple(b), []).append(t)
                B2 = B[:]
                rng.shuffle(B2)
                its = {k: iter(v) for k, v in per.items()}
                B[:] = B2
                T[:] = [next(its[tuple(b)]) for b in B]
    c = {"op": fn, "lk": lk, "rk": rk, "by": bys, "L": L, "R": R, "LB": LB, "RB": RB,
         "dir": direction or rng.choice(["backward", "forward", "nearest"]), "exact": int(rng.random() < 0.6), "tol": -1, "tolform": "int",
         "unsorted": rng.choice(["sort", "sort", "raise", None]) if fn != "asof2" else None, "copy": int(rng.random() < 0.7), "bad": ""}
    if fn == "asof2" and rng.random() < 0.5 and lk in ("i4", "i8", "f4", "f8", "dtn"):
        c["tol"] = rng.choice([0, 1, 2, 3, 5])
        c["tolform"] = rng.choice(["tsp", "td"]) if lk == "dtn" else rng.choice(["int", "np"])
        if c["tolform"] == "td":
            c["tol"] = rng.choice([0, 1000, 2000])
    c["lon"] = [rng.choice(["t", "t", "lt"])] + ["k%d" % j if rng.random() < 0.6 else "lk%d" % j for j in range(nby)]
    c["ron"] = [n if n[0] in "tk" else rng.choice([n, "r" + n[1:]]) for n in c["lon"]]
    c["lp"], c["rp"] = rng.choice([("p", "q"), ("p", "q"), ("p", "p"), ("p", "p_y"), ("p_x", "p")])
    c["suf"] = rng.choice([None, ["_x", "_y"], ["_x", "_y"], ["", "_y"], ["_l", ""], ["_x", "_x"]])
    c["pk"], c["qk"] = rng.choice(PAY), rng.choice(PAY)
    c["pv"], c["qv"] = tcol.gen(rng, c["pk"], nl, 0.1), tcol.gen(rng, c["qk"], nr, 0.1)
    c["cl"] = rng.choice([None, None, None, ["a"], ["a", c["lp"]], [c["lp"], "a", c["lon"][0]]])
    c["cr"] = rng.choice([None, None, None, ["b"], ["b", c["rp"]], [c["rp"], "b", c["ron"][0]]])
    c["ind"] = rng.choice(["", "", "matched_on", "who", "p"])
    c["onform"] = rng.choice(["on", "on", "lr"])
    c["byform"] = rng.choice(["by", "by", "lr"])
    if rng.random() < 0.03:
        c["bad"] = rng.choice(["dir", "both", "none", "nocol", "byn"] + (["act"] if fn != "asof2" else ["negtol"]))
    return c


def cases(tier, rng):
    big = tier == "thorough"
    # exhaustive small sorted tables, two keys, every direction
    n = 0
    for nl in range(0, 3):
        for nr in range(0, 4):
            for L in itertools.combinations_with_replacement([1, 2, 4], nl):
                for R in itertools.combinations_with_replacement([1, 2, 4], nr):
                    for LB in itertools.product([1, 2], repeat=nl):
                        for RB in itertools.product([1, 2], repeat=nr):
                            for d in ("backward", "forward", "nearest"):
                                n += 1
                                if not big and n % 7:
                                    continue
                                q = n // 7
                                yield dict(op=["asof", "asof2", "dsasof"][q % 3], lk="i4" if q % 3 == 1 else ENGINE[q % 9], rk="i4" if q % 3 == 1 else ENGINE[q % 9], by=[["cat", "i8", "S", "catx"][q % 4]],
                                           L=list(L), R=list(R), LB=[[x] for x in LB], RB=[[x] for x in RB], dir=d, exact=(q // 3) % 2, tol=-1, tolform="int",
                                           unsorted=None, copy=1, bad="", lon=["t", "k0"], ron=["t", "k0"], lp="p", rp="q", suf=None, pk="S", qk="f8",
                                           pv=[1 + i % 3 for i in range(nl)], qv=[1 + i % 4 for i in range(nr)], cl=None, cr=None, ind="who", onform="on", byform="by")
    for fn in ("asof", "dsasof"):
        for k in ENGINE + WIDE:
            for b in [None] + BY:
                for d in ("backward", "forward", "nearest"):
                    for _ in range(3 if big else 1):
                        if b is None or big or rng.random() < 0.5:
                            yield mkcase(rng, fn, k, 8, 0 if b is None else 1, b, d)
    # each combination of types is compiled anew for merge_asof2 (0.5 to 1.5 s)
    few = [k for k in NUMBA2]
    kinds = NUMBA + (few if big else rng.sample(few, 2)) + (MIXED if big else rng.sample(MIXED, 1))
    for k in kinds:
        for d in ("backward", "forward", "nearest"):
            for b in (BY if k in NUMBA else BY[:4]):
                yield mkcase(rng, "asof2", k, 8, 1, b, d)
            yield mkcase(rng, "asof2", k, 8, 0, None, d)
    for k in range(12000 if big else 2600):
        yield mkcase(rng)
    # longer tables: row numbers beyond one and two bytes
    for k in range(40 if big else 14):
        c = mkcase(rng, None, None, 8, rng.choice([0, 1]), rng.choice(["i4", "S", "cat"]))
        c["bad"] = ""
        c["ind"] = ""
        nl, nr = rng.choice([(130, 5), (5, 140), (20, 260), (140, 135), (260, 3)])
        c["L"], c["R"] = sorted(rng.randint(0, 200) for _ in range(nl)), sorted(rng.randint(0, 200) for _ in range(nr))
        c["LB"], c["RB"] = [[rng.randint(1, 3) for _ in c["by"]] for _ in range(nl)], [[rng.randint(1, 3) for _ in c["by"]] for _ in range(nr)]
        if c["op"] != "asof2" and rng.random() < 0.5:
            rng.shuffle(c["L"])
        if c["op"] != "asof2" and rng.random() < 0.5:
            rng.shuffle(c["R"])
        c["pv"], c["qv"] = tcol.gen(rng, c["pk"], nl, 0.1), tcol.gen(rng, c["qk"], nr, 0.1)
        yield c


def snap(ds):
    return [(n, np.array(ds[n]._np)) for n in ds.keys()]


def execute(c):
    fn, by = c["op"], c["by"]
    L, R = c["L"], c["R"]
    lon, ron = c["lon"], c["ron"]
    left, right = rt.Dataset({}), rt.Dataset({})
    left[lon[0]], right[ron[0]] = mkon(c["lk"], L), mkon(c["rk"], R)
    for j, k in enumerate(by):
        if k == "catx" and not L or k == "catx" and not R:
            return []
        left[lon[j + 1]] = mkby(k, [b[j] for b in c["LB"]])
        right[ron[j + 1]] = mkby(k, [b[j] for b in c["RB"]])
    left["a"] = rt.arange(1, len(L) + 1, dtype=np.int32)
    right["b"] = rt.arange(1, len(R) + 1, dtype=np.int32)
    left[c["lp"]], right[c["rp"]] = tcol.mk(c["pk"], c["pv"]), tcol.mk(c["qk"], c["qv"])
    nona = lambda k: int(k in tcol.NONA)
    lcols = [{"n": lon[0], "v": L, "nona": 0}] + [{"n": lon[j + 1], "v": [b[j] for b in c["LB"]], "nona": nona(k)} for j, k in enumerate(by)]
    rcols = [{"n": ron[0], "v": R, "nona": 0}] + [{"n": ron[j + 1], "v": [b[j] for b in c["RB"]], "nona": nona(k)} for j, k in enumerate(by)]
    lcols += [{"n": "a", "v": list(range(1, len(L) + 1)), "nona": 0}, {"n": c["lp"], "v": c["pv"], "nona": nona(c["pk"])}]
    rcols += [{"n": "b", "v": list(range(1, len(R) + 1)), "nona": 0}, {"n": c["rp"], "v": c["qv"], "nona": nona(c["qk"])}]
    kw = {"direction": c["dir"], "allow_exact_matches": bool(c["exact"]), "copy": bool(c["copy"])}
    if c["onform"] == "on":
        kw["on"] = lon[0] if lon[0] == ron[0] else (lon[0], ron[0])
    else:
        kw["left_on"], kw["right_on"] = lon[0], ron[0]
    if by:
        lb, rb = lon[1:], ron[1:]
        if c["byform"] == "by":
            b = [x if x == y else (x, y) for x, y in zip(lb, rb)]
            kw["by"] = b[0] if len(b) == 1 else b
        else:
            kw["left_by"], kw["right_by"] = (lb, rb) if len(lb) > 1 else (lb[0], rb[0])
    if c["suf"] is not None:
        kw["suffixes"] = tuple(c["suf"])
    if c["cl"] is not None:
        kw["columns_left"] = c["cl"]
    if c["cr"] is not None:
        kw["columns_right"] = c["cr"]
    if c["ind"]:
        kw["matched_on"] = True if c["ind"] == "matched_on" else c["ind"]
    if c["unsorted"]:
        kw["action_on_unsorted"] = c["unsorted"]
    if c["tol"] >= 0:
        t = c["tol"]
        kw["tolerance"] = {"int": lambda: t * UNIT.get(c["lk"], 1), "np": lambda: np.dtype(c["lk"]).type(t * UNIT.get(c["lk"], 1)),
                           "tsp": lambda: rt.TimeSpan([float(t)])[0], "td": lambda: datetime.timedelta(microseconds=t // 1000)}[c["tolform"]]()
    bad = c["bad"]
    if bad == "dir":
        kw["direction"] = "sideways"
    elif bad == "both":
        kw["on"], kw["left_on"] = lon[0], lon[0]
    elif bad == "none":
        for x in ("on", "left_on", "right_on"):
            kw.pop(x, None)
    elif bad == "nocol":
        kw["columns_right"] = ["b", "nowhere"]
    elif bad == "byn":
        kw.pop("by", None)
        kw["left_by"], kw["right_by"] = ["a", lon[0]], ["b"]
    elif bad == "act":
        kw["action_on_unsorted"] = "shrug"
    elif bad == "negtol":
        kw["tolerance"] = -1
    ev = {"t": "asof", "how": "left", "dir": c["dir"], "exact": c["exact"], "tol": c["tol"], "unsorted": c["unsorted"] or "sort", "badopt": int(bad != ""), "ind": c["ind"],
          "L": {"on": L, "by": c["LB"]}, "R": {"on": R, "by": c["RB"]}, "lon": lon, "ron": ron,
          "cl": c["cl"] if c["cl"] is not None else list(left.keys()), "cr": c["cr"] if c["cr"] is not None else list(right.keys()),
          "suf": [] if c["suf"] is None else c["suf"], "lcols": lcols, "rcols": rcols}
    sl, sr = snap(left), snap(right)
    o = {"raised": 0, "pairs": [], "cols": [], "frame": 1}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if fn == "asof":
                r = rt.merge_asof(left, right, **kw)
            elif fn == "dsasof":
                r = left.merge_asof(right, **kw)
            else:
                r = merge_asof2(left, right, **kw)
        except (ValueError, KeyError):
            o["raised"] = 1
            r = None
    for ds, s in ((left, sl), (right, sr)):
        if list(ds.keys()) != [n for n, _ in s] or not all(same(a, ds[n]._np) for n, a in s):
            o["frame"] = 0
    ev["obs"] = o
    if o["raised"]:
        return ev
    z = lambda x: [0 if v == -(2**31) else int(v) for v in x.tolist()]
    a, b = z(r["a"]), z(r["b"])
    o["pairs"] = [list(p) for p in zip(a, b)] if len(a) == len(b) else [[BAD, BAD]]
    for n in r.keys():
        x = r[n]
        m = []
        if c["ind"] and n == c["ind"]:
            vl = vr = []
            m = rdon(x, c["rk"])
        elif n in ("a", "b"):
            vl = vr = [NA if q == -(2**31) else int(q) for q in x.tolist()]
        else:
            vl = (rdon(x, c["lk"]) if lon.index(n) == 0 else rdby(x, by[lon.index(n) - 1])) if n in lon else tcol.rd(x, c["pk"])
            vr = (rdon(x, c["rk"]) if ron.index(n) == 0 else rdby(x, by[ron.index(n) - 1])) if n in ron else tcol.rd(x, c["qk"])
        o["cols"].append({"n": n, "l": vl, "r": vr, "m": m})
    return ev


def shard(c):
    return (c["lk"], c["rk"], bool(c["by"]), c["exact"], c["tol"] >= 0) if c["op"] == "asof2" else None


def nolay(c):
    return c["op"] == "asof2" and c["lk"] != "i4"
