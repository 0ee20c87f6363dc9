"""C03: row-by-row operations on columns."""
import warnings

import lay
import numpy as np
import riptable as rt
import tcol
from proj import BAD, NA, sentinel

INF, NINF = 2000000003, 2000000004
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
FLTS = ["f4", "f8"]
NUM = INTS + FLTS
GEN = ["S", "U", "Us", "date", "dtn", "tsp", "dspan"]
TIMES = ["date", "dtn", "tsp", "dspan"]


def mkn(kind, x):
    a = np.zeros(len(x), dtype=kind)
    for i, v in enumerate(x):
        a[i] = {NA: np.nan if kind in FLTS else sentinel(np.dtype(kind)), INF: np.inf, NINF: -np.inf}.get(v, v) if v in (NA, INF, NINF) else v
    return lay.fa(a)


def mk(kind, x):
    return mkn(kind, x) if kind in NUM else tcol.mk(kind, x)


def rdn(a, kind=None):
    if isinstance(a, (bool, int, float, np.generic)):
        a = np.array([a])
    if not isinstance(a, np.ndarray) or a.ndim != 1:
        return [BAD]
    if kind is not None and (type(a) is not rt.FastArray or a.dtype != np.dtype(kind)):
        return [BAD] * len(a)
    s = sentinel(a.dtype)
    out = []
    for v in np.asarray(a).tolist():
        if isinstance(v, bool):
            out.append(int(v))
        elif v != v or s is not None and v == s:
            out.append(NA)
        elif v in (float("inf"), float("-inf")):
            out.append(INF if v > 0 else NINF)
        else:
            out.append(int(v) if v == int(v) and abs(v) < 10**9 else BAD)
    return out


def rd(a, kind):
    if kind in NUM:
        return rdn(a, kind)
    if not isinstance(a, np.ndarray):
        return [BAD]
    return tcol.rd(a, kind)


def rdb(a):
    """a boolean column, or BAD"""
    if not isinstance(a, np.ndarray) or a.dtype != bool:
        return [BAD]
    return [int(v) for v in a.tolist()]


def rdix(a):
    """a fancy index -> 1-based positions"""
    if not isinstance(a, np.ndarray) or a.dtype.kind not in "iu":
        return [BAD]
    return [int(v) + 1 for v in a.tolist()]


def cells(rng, kind, n, na=0.25, inf=0.0):
    if kind in NUM:
        lo = 0 if kind[0] == "u" else -20
        small = rng.random() < 0.5
        x = [rng.choice([0, 1, 2, 3] if small else list(range(lo, 61))) for _ in range(n)]
        x = [NA if rng.random() < na else v for v in x]
        if kind in FLTS:
            x = [rng.choice([INF, NINF]) if rng.random() < inf else v for v in x]
        return x
    if kind == "?":
        return [rng.randint(1, 2) for _ in range(n)]
    return tcol.gen(rng, kind, n, na, 3)


OPS = ["pred", "pred", "fill", "ffill", "bfill", "shift", "diff", "changes", "stays", "between", "clip", "where", "where", "abs", "sign", "cumsum", "zero", "astype",
       "allna", "map", "mask", "mask", "fancy", "fancy2", "putmask", "repeat", "tile", "take", "stack", "stack", "max", "min", "search", "sorted", "sample", "interp", "refuse", "dsfill", "cummin", "cummax", "arith", "arith", "cmp"]


def mkcase(rng, op=None, kind=None, n=None):
    op = op or rng.choice(OPS)
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12]) if n is None else n
    c = {"op": op, "form": rng.choice(["m", "f"])}
    anyk = kind or rng.choice(NUM + GEN)
    num = kind or rng.choice(NUM)
    if op == "pred":
        c["kind"] = anyk
        c["name"] = rng.choice(["isnan", "isna", "isnotnan", "notna", "isfinite", "isnotfinite"] + (["isnanorzero", "isinf", "isnotinf"] if anyk in NUM else []))
        c["fancy"] = int(rng.random() < 0.3 and anyk not in ("date", "dtn", "dspan") and c["name"] not in ("isna", "notna"))
        c["x"] = cells(rng, anyk, n, 0.3, 0.2)
    elif op in ("fill", "ffill", "bfill", "dsfill"):
        k = anyk if op == "fill" else (kind or rng.choice(["i4", "i4", "f8", "f8", "i8", "u1", "f4", "date", "dtn", "tsp"]))
        c["kind"] = k
        c["x"] = cells(rng, k, n, 0.5)
        c["v"] = rng.randint(1, 3) if k not in ("S", "U", "Us") else 1  # fits the width of any column
        c["hasv"] = 1 if op == "fill" else int(rng.random() < 0.5)
        c["n"] = rng.choice([0, 0, 1, 2, 3])
        c["inplace"] = int(rng.random() < 0.4)
        c["form"] = rng.choice(["fillna", "direct"])
        c["alias"] = rng.randint(0, 1)
        if op == "dsfill":
            c["x2"] = cells(rng, k, n, 0.5)
            c["way"] = rng.choice(["fill", "ffill", "bfill"])
    elif op == "shift":
        c["kind"] = anyk
        c["x"] = cells(rng, anyk, n)
        c["n"] = rng.choice([0, 1, 1, 2, 3, -1, -1, -2, n, -n, n + 1, -n - 2, n - 1])
        c["hasv"] = int(anyk in NUM and rng.random() < 0.3)
        c["v"] = rng.randint(0, 9)
    elif op == "diff":
        c["kind"] = num
        c["x"] = cells(rng, num, n, 0.2 if num in FLTS else 0)
        c["n"] = rng.choice([1, 1, 2, -1, -2, n, -n, n + 1]) or 1
        if num[0] == "u":
            c["x"] = sorted(c["x"])
            c["n"] = abs(c["n"])
    elif op in ("changes", "stays"):
        k = kind or rng.choice(NUM + ["date", "dtn", "tsp"])
        c["kind"], c["x"] = k, cells(rng, k, n, 0.2)
        c["n"] = rng.choice([1, 1, 2, -1, -2, 3])
        c["fancy"] = int(rng.random() < 0.3)
    elif op == "between":
        k = kind or rng.choice(NUM + ["date", "dtn", "tsp"])
        c["kind"], c["x"] = k, cells(rng, k, n, 0.2 if k in FLTS else 0)
        per = rng.random() < 0.3 and n > 1
        m = n if per else 1
        c["lo"], c["hi"] = cells(rng, k, m, 0), cells(rng, k, m, 0)
        if rng.random() < 0.8:
            c["lo"], c["hi"] = [min(p) for p in zip(c["lo"], c["hi"])], [max(p) for p in zip(c["lo"], c["hi"])]
        c["il"], c["ih"] = rng.randint(0, 2), rng.randint(0, 2)  # 2 = default
    elif op == "clip":
        c["kind"], c["x"] = num, cells(rng, num, n, 0.2 if num in FLTS else 0)
        a, b = sorted([rng.randint(0, 30), rng.randint(0, 30)])
        c["lo"], c["hi"] = rng.choice([([a], [b]), ([a], []), ([], [b])])
        c["form"] = rng.choice(["clip", "one"])
    elif op == "where":
        k = kind or rng.choice(NUM + ["S", "U", "Us"])
        k2 = rng.choice(NUM) if k in NUM and rng.random() < 0.6 else k
        c["kind"], c["k2"] = k, k2
        c["m"] = [rng.randint(0, 1) for _ in range(n)]
        ns = rng.random()
        c["sx"], c["sy"] = int(ns < 0.25), int(0.2 < ns < 0.5)
        if n == 0:
            c["sx"] = c["sy"] = 0
        na = 0.2
        c["x"] = cells(rng, k, 1 if c["sx"] else n, 0 if c["sx"] else na)
        c["y"] = cells(rng, k2, 1 if c["sy"] else n, 0 if c["sy"] else na)
        if k not in NUM:
            c["k2"] = rng.choice([k, "S", "Us"]) if k != "U" else "U"
        c["mform"] = rng.choice(["bool", "bool", "int", "list"])
    elif op in ("abs", "sign"):
        num = kind or rng.choice(["i1", "i2", "i4", "i8", "f4", "f8"])
        c["kind"], c["x"] = num, cells(rng, num, n, 0.2 if num in FLTS else 0)
    elif op == "cumsum":
        c["kind"], c["x"] = num, cells(rng, num, n, 0)
    elif op in ("arith", "cmp"):
        k2 = rng.choice(NUM)
        c["kind"], c["k2"] = num, k2
        c["name"] = rng.choice(["add", "sub", "mul", "floordiv", "mod"] if op == "arith" else ["eq", "ne", "lt", "le", "gt", "ge"])
        both = num in FLTS and k2 in FLTS
        lim = {"mul": 7, "add": 30}.get(c["name"], 60)
        lo = 1 if c["name"] in ("floordiv", "mod") else 0 if "u" in num + k2 or c["name"] in ("mul",) else -20
        def val():
            return [rng.randint(lo, lim) for _ in range(n)]
        c["x"], c["y"] = val(), val()
        if c["name"] == "sub" and "u" in num + k2:
            c["x"], c["y"] = [max(p) for p in zip(c["x"], c["y"])], [min(p) for p in zip(c["x"], c["y"])]
        # missing integers are no concern of the engine's arithmetic; a missing float (NaN) is
        if both and (op == "arith" and c["name"] not in ("floordiv", "mod") or c["name"] != "ne" and op == "cmp"):
            for v in (c["x"], c["y"]):
                for i in range(n):
                    if rng.random() < 0.15:
                        v[i] = NA
        c["form"] = rng.choice(["op", "np", "in", "sc", "rsc"])
        if c["form"] == "in" and (op == "cmp" or num != k2):  # the engine may rebind for mixed types
            c["form"] = "op"
        if c["form"] in ("sc", "rsc"):
            q = c["x" if c["form"] == "rsc" else "y"]
            if not q or NA in q:
                c["form"] = "op"
            elif c["name"] == "sub" and "u" in num + k2:
                q[:] = [(max if c["form"] == "rsc" else min)(q)] * n
            else:
                q[:] = q[:1] * n
    elif op in ("cummin", "cummax"):
        k = rng.choice(["i4", "f8", "u2", "i8", "f4"])
        c["kind"], c["x"] = k, cells(rng, k, n, rng.choice([0, 0.2, 0.5]))
        c["n"] = rng.randint(0, 1)
    elif op == "zero":
        c["kind"], c["x"] = num, cells(rng, num, n, 0.4)
    elif op == "astype":
        k2 = rng.choice(NUM)
        c["kind"], c["k2"] = num, k2
        c["x"] = cells(rng, num, n, 0.3)
        if k2[0] == "u":
            c["x"] = [v if v == NA else abs(v) for v in c["x"]]
        c["by"] = rng.choice(["str", "dtype", "type"])
    elif op == "allna":
        c["kind"] = anyk if anyk != "dspan" else "i4"
        c["x"] = cells(rng, c["kind"], n)
        c["inplace"] = rng.randint(0, 1)
    elif op == "map":
        k = kind or rng.choice(INTS + ["f8", "S", "Us"])
        c["kind"], c["x"] = k, cells(rng, k, n, 0)
        pool = sorted(set(c["x"])) + ([61] if k in NUM else [])
        c["ks"] = rng.sample(pool, rng.randint(1, len(pool))) if pool else [1]
        c["vk"] = rng.choice(["int", "float", "str"])
        c["vs"] = [rng.randint(1, 4) for _ in c["ks"]]
    elif op == "mask":
        c["name"] = rng.choice(["or", "and", "xor", "andnot"])
        c["ms"] = [[rng.randint(0, 1) for _ in range(n)] for _ in range(rng.choice([2, 2, 3, 4, 5]))]
        c["inplace"] = rng.randint(0, 1)
        c["tup"] = rng.randint(0, 1)
    elif op in ("fancy", "fancy2"):
        c["m"] = [rng.randint(0, 1) for _ in range(rng.choice([n, n, 20, 140]))]
    elif op == "putmask":
        c["kind"], c["x"] = num, cells(rng, num, n, 0.2)
        c["m"] = [rng.randint(0, 1) for _ in range(n)]
        c["y"] = cells(rng, num, rng.choice([1, n]) or 1, 0)
    elif op in ("repeat", "tile"):
        c["kind"], c["x"] = anyk, cells(rng, anyk, n)
        c["n"] = rng.randint(0, 3)
        c["y"] = [rng.randint(0, 3)] if op == "repeat" and rng.random() < 0.6 else [rng.randint(0, 3) for _ in range(n)]
        if op == "repeat" and len(c["y"]) != 1 and n == 0:
            c["y"] = [2]
    elif op == "take":
        c["kind"], c["x"] = anyk, cells(rng, anyk, n)
        c["form"] = rng.choice(["mask", "idx", "list"])
        c["m"] = [rng.randint(0, 1) for _ in range(n)]
        c["y"] = [rng.randint(1, n) for _ in range(rng.randint(0, 6))] if n else []
    elif op == "stack":
        k = anyk
        c["ks"] = [k] * rng.randint(1, 4)
        c["form"] = rng.choice(["hstack", "concat"])
        if k in NUM and rng.random() < 0.6:
            # concatenate of mixed types is NumPy's: missing integers are not known to it
            c["ks"] = [rng.choice(NUM) for _ in c["ks"]]
            c["form"] = "hstack"
        c["ms"] = [cells(rng, q, rng.choice([0, 1, 2, 3, n]), 0.2) for q in c["ks"]]
    elif op in ("max", "min"):
        k = kind or rng.choice(NUM + ["date", "dtn", "tsp"])
        c["kind"], c["x"], c["y"] = k, cells(rng, k, n, 0), cells(rng, k, n, 0)
        c["form"] = rng.choice(["imum", "two"])
    elif op == "search":
        k2 = rng.choice(NUM)
        c["kind"], c["k2"] = num, k2
        c["x"], c["y"] = sorted(cells(rng, num, n, 0)), cells(rng, k2, rng.randint(1, 6), 0)
        c["name"] = rng.choice(["left", "right"])
        c["scal"] = rng.randint(0, 1)
    elif op == "sorted":
        k = kind or rng.choice(NUM + ["date", "dtn", "tsp", "S"])
        c["kind"], c["x"] = k, cells(rng, k, n, 0)
        if rng.random() < 0.6:
            c["x"].sort()
    elif op == "sample":
        c["N"] = rng.randint(0, 8)
        c["n"] = n
        c["flt"] = rng.choice(["none", "bool", "idx"])
        c["m"] = [rng.randint(0, 1) for _ in range(n)]
        c["seed"] = rng.randint(0, 10**6)
        c["form"] = rng.choice(["fa", "ds"])
        if n == 0:
            c["N"] = 0
    elif op == "interp":
        m = rng.randint(2, 6)
        c["kind"] = rng.choice(["f8", "f8", "f4"])
        c["x"] = sorted(rng.sample(range(-10, 30), m))
        c["fp"] = [rng.randint(-9, 20) for _ in range(m)]
        c["y"] = [rng.randint(-15, 35) for _ in range(max(1, n))]
        c["n"] = rng.randint(0, 1)
    elif op == "refuse":
        c["what"] = rng.choice(["fillnone", "method", "limit", "maskint", "filterlen", "fancyint", "where1", "masklen", "self0"])
        c["kind"], c["x"] = rng.choice(["i4", "f8"]), cells(rng, "i4", max(3, n), 0.2)
    return c


def cases(tier, rng):
    big = tier == "thorough"
    # every operation on every column type and every small size
    for op in sorted(set(OPS)):
        for kind in NUM + GEN:
            if op in ("diff", "abs", "sign", "clip", "cumsum", "zero", "astype", "putmask", "search", "arith", "cmp") and kind not in NUM or op in ("ffill", "bfill", "dsfill") and kind not in ("i4", "f8", "i8", "u1", "f4", "date", "dtn", "tsp"):
                continue
            if op in ("changes", "stays", "between", "max", "min") and kind not in NUM + ["date", "dtn", "tsp"] or op == "where" and kind not in NUM + ["S", "U", "Us"] or op == "map" and kind not in INTS + ["f8", "S", "Us"]:
                continue
            if op == "sorted" and kind not in NUM + ["date", "dtn", "tsp", "S"] or op in ("abs", "sign") and kind[0] == "u":
                continue
            for n in (0, 1, 2, 5):
                for _ in range(4 if big else 1):
                    yield mkcase(rng, op, kind, n)
    for _ in range(40000 if big else 7000):
        yield mkcase(rng)
    for _ in range(200 if big else 60):
        op = rng.choice(["pred", "shift", "fill", "ffill", "where", "fancy", "mask", "take", "changes", "repeat", "sample"])
        yield mkcase(rng, op, None, rng.choice([127, 128, 129, 255, 256, 300]))


EXC = (ValueError, TypeError, KeyError)


def scal(kind, v):
    """a scalar of the kind of column"""
    if kind in NUM:
        return np.nan if v == NA else float(v) if kind in FLTS else v
    a = tcol.mk(kind, [v])
    return a[0]


def execute(c):
    op = c["op"]
    kind = c.get("kind")
    ev = {"t": "col", "op": op, "x": c.get("x", []), "y": c.get("y", []), "m": c.get("m", []), "ms": c.get("ms", []), "n": c.get("n", 0), "v": c.get("v", 0), "name": c.get("name", ""),
          "fancy": c.get("fancy", 0), "nan": int(kind in FLTS + ["tsp"]), "lo": c.get("lo", []), "hi": c.get("hi", []), "il": 0, "ih": 0, "ks": c.get("ks", []) if op == "map" else [],
          "vs": c.get("vs", []) if op == "map" else [], "refuse": 0}
    o = {"raised": 0, "frame": 1, "out": [], "inplace": []}
    ev["obs"] = o
    ins = []  # arrays that must not change

    def keep(a):
        ins.append((a, np.array(a._np) if isinstance(a, rt.FastArray) else np.array(a)))
        return a

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            o["out"] = run(c, op, kind, ev, o, keep)
        except EXC:
            if op != "refuse":
                raise
            o["raised"] = 1
    for a, s in ins:
        b = a._np if isinstance(a, rt.FastArray) else np.asarray(a)
        if b.dtype != s.dtype or b.shape != s.shape or b.tobytes() != s.tobytes():
            o["frame"] = 0
    if "second" in o:
        return [ev, dict(ev, x=c["x2"], obs=dict(o, out=o.pop("second")))]
    return ev


def run(c, op, kind, ev, o, keep):
    form = c["form"]
    if op == "refuse":
        ev["refuse"] = 1
        a = keep(mkn(kind, c["x"]))
        w = c["what"]
        t = rt.FA(np.array([True] * len(a)))
        {"fillnone": lambda: a.fillna(), "method": lambda: a.fillna(method="sideways"), "limit": lambda: a.fillna(1, limit=2), "maskint": lambda: rt.mask_or(t, a),
         "filterlen": lambda: a.filter(np.array([True] * (len(a) + 1))), "fancyint": lambda: rt.bool_to_fancy(mkn("i4", c["x"])), "where1": lambda: rt.where(t, a),
         "masklen": lambda: rt.mask_and(t, t[1:]), "self0": lambda: a.transitions(0)}[w]()
        return []
    if op in ("mask", "fancy", "fancy2", "sample", "stack", "interp"):
        pass
    elif op in ("putmask", "zero") or c.get("inplace"):
        a = mk(kind, c["x"])
    else:
        a = keep(mk(kind, c["x"])) if not (op == "where" and c["sx"]) else None
    if op == "pred":
        nm = c["name"]
        kw = {"fancy": True} if c["fancy"] else {}
        if form == "f" and nm not in ("isna", "notna"):
            r = getattr(rt, nm)(a, **kw)
        else:
            r = getattr(a, nm)(**kw)
        return rdix(r) if c["fancy"] else rdb(r)
    if op in ("fill", "ffill", "bfill", "dsfill"):
        way = c.get("way", op)
        v = scal(kind, c["v"]) if c["hasv"] or way == "fill" else None
        ev["op"] = way
        ev["v"] = c["v"] if v is not None else NA
        kw = {"inplace": True} if c["inplace"] else {}
        lim = {"limit": c["n"]} if c["n"] or c["alias"] else {}
        name = {"ffill": ["ffill", "pad"], "bfill": ["bfill", "backfill"]}.get(way, [""] * 2)[c["alias"]]
        if op == "dsfill":
            ds = rt.Dataset({"p": a, "q": mk(kind, c["x2"])})
            ds2 = ds.fillna(v, **kw) if way == "fill" else ds.fillna(v, method=name, **kw, **lim)
            r = ds if c["inplace"] else ds2
            # the second column is judged as an event of its own
            o["second"] = rd(r["q"], kind)
            return rd(r["p"], kind)
        if way == "fill":
            r = a.fillna(v, **kw) if form == "fillna" else a.replacena(v, **kw)
        elif form == "fillna":
            r = a.fillna(v, method=name, **kw, **lim)
        else:
            f = {"ffill": "fill_forward", "bfill": "fill_backward"}[way]
            r = getattr(a, f)(v, **kw, **lim) if c["alias"] else getattr(rt, f)(a, fill_val=v, **kw, **lim)
        if c["inplace"]:
            o["inplace"] = rd(a, kind)
            return rd(a, kind) if r is None else rd(r, kind)
        return rd(r, kind)
    if op == "shift":
        ev["v"] = c["v"] if c["hasv"] else NA
        return rd(a.shift(c["n"], c["v"]) if c["hasv"] else a.shift(c["n"]) if c["n"] != 1 else a.shift(), kind)
    if op == "diff":
        return rd(a.diff(c["n"]) if c["n"] != 1 else a.diff(), kind)
    if op in ("changes", "stays"):
        r = getattr(a, "transitions" if op == "changes" else "differs")(c["n"], **({"fancy": True} if c["fancy"] else {}))
        return rdix(r) if c["fancy"] else rdb(r)
    if op == "between":
        kw = {}
        for k, q, d in (("include_low", "il", 1), ("include_high", "ih", 0)):
            ev[q] = d if c[q] == 2 else c[q]
            if c[q] != 2:
                kw[k] = bool(c[q])
        b = [scal(kind, c[s][0]) if len(c[s]) == 1 else keep(mk(kind, c[s])) for s in ("lo", "hi")]
        return rdb(a.between(*b, **kw))
    if op == "clip":
        lo, hi = (c["lo"] or [None])[0], (c["hi"] or [None])[0]
        if form == "one" and hi is None:
            r = a.clip_lower(lo)
        elif form == "one" and lo is None:
            r = a.clip_upper(hi)
        else:
            r = a.clip(lo, hi)
        return rdn(r)
    if op == "where":
        y = scal(c["k2"], c["y"][0]) if c["sy"] else keep(mk(c["k2"], c["y"]))
        x = scal(kind, c["x"][0]) if c["sx"] else a
        m = {"bool": lambda: lay.fa(np.array(c["m"], dtype=bool)), "int": lambda: rt.FA(np.array(c["m"], dtype=np.int32)), "list": lambda: [bool(v) for v in c["m"]]}[c["mform"]]()
        if c["mform"] == "list" and not c["m"]:
            m = rt.FA(np.array([], dtype=bool))
        if form == "m" and not c["sx"]:
            r = x.where(m, y)
        else:
            r = rt.where(m, x, y)
        if kind in NUM:
            return rdn(r)
        p = tcol.POOL[kind]
        s = [v.decode("latin-1") if isinstance(v, bytes) else str(v) for v in np.asarray(r).tolist()]
        return [NA if v == "" else p.index(v) + 1 if v in p else BAD for v in s]
    if op == "abs":
        return rd(a.abs() if form == "m" else rt.abs(a), kind)
    if op == "sign":
        return rdn(a.sign())
    if op == "cumsum":
        return rdn(a.cumsum() if form == "m" else rt.cumsum(a))
    if op in ("arith", "cmp"):
        import operator
        f = getattr(operator, c["name"])
        sx = c["x"][0] if form == "rsc" else None
        b = (c["y"][0] if c["k2"] in INTS else float(c["y"][0])) if form == "sc" else keep(mkn(c["k2"], c["y"]))
        if form == "rsc":
            a = sx if kind in INTS else float(sx)
        if form == "np":
            f = getattr(np, {"add": "add", "sub": "subtract", "mul": "multiply", "floordiv": "floor_divide", "mod": "mod", "eq": "equal", "ne": "not_equal", "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal"}[c["name"]])
        if form == "in":
            a = mkn(kind, c["x"])
            view = a[:]
            r = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "floordiv": operator.ifloordiv, "mod": operator.imod}[c["name"]](a, b)
            o["inplace"] = rd(view, kind)
            return rd(r, kind)
        r = f(a, b)
        if op == "cmp":
            return rdb(r)
        return rdn(r) if type(r) is rt.FastArray else [BAD]
    if op in ("cummin", "cummax"):
        return rd(getattr(a, op)(skipna=bool(c["n"])) if not c["n"] or form == "f" else getattr(a, op)(), kind)
    if op == "zero":
        r = rt.nan_to_zero(a)
        o["inplace"] = rd(a, kind)
        return rd(r, kind)
    if op == "astype":
        ev["op"] = "same"
        t = np.dtype(c["k2"])
        return rd(a.astype({"str": c["k2"], "dtype": t, "type": t.type}[c["by"]]), c["k2"])
    if op == "allna":
        if c["inplace"]:
            a.fill_invalid()
            return rd(a, kind)
        return rd(a.copy_invalid() if form == "m" else a.fill_invalid(inplace=False), kind)
    if op == "map":
        p = tcol.POOL.get(kind)
        key = lambda v: v if kind in INTS else float(v) if kind in FLTS else p[v - 1]
        val = {"int": lambda v: v, "float": lambda v: v + 0.5, "str": lambda v: "w%d" % v}[c["vk"]]
        d = {key(k): val(v) for k, v in zip(c["ks"], c["vs"])}
        r = a.map(d)
        back = {val(v): v for v in range(1, 5)}
        out = []
        s = sentinel(r.dtype) if r.dtype.kind in "iuf" else None
        for v in np.asarray(r).tolist():
            v = v.decode() if isinstance(v, bytes) else v
            out.append(back[v] if v in back else NA if v != v or v == "" or s is not None and v == s else BAD)
        return out
    if op == "mask":
        ms = [lay.fa(np.array(m, dtype=bool)) for m in c["ms"]]
        for m in ms[1 if c["inplace"] else 0:]:
            keep(m)
        f = getattr(rt, "mask_" + c["name"] + ("i" if c["inplace"] else ""))
        r = f(ms) if c["tup"] else f(*ms)
        if c["inplace"]:
            o["inplace"] = rdb(ms[0])
        return rdb(r)
    if op == "fancy":
        return rdix(rt.bool_to_fancy(keep(lay.fa(np.array(c["m"], dtype=bool)))) if form == "m" else rt.where(keep(lay.fa(np.array(c["m"], dtype=bool))))[0])
    if op == "fancy2":
        r = rt.bool_to_fancy(keep(lay.fa(np.array(c["m"], dtype=bool))), both=True)
        # the trues first, then the falses
        return rdix(r[0])[: int(r[1])] + rdix(r[0])[int(r[1]):] if isinstance(r, tuple) else rdix(r)
    if op == "putmask":
        m = keep(lay.fa(np.array(c["m"], dtype=bool)))
        y = scal(kind, c["y"][0]) if len(c["y"]) == 1 else keep(mk(kind, c["y"]))
        rt.putmask(a, m, y)
        return rd(a, kind)
    if op == "repeat":
        n = c["y"][0] if len(c["y"]) == 1 else np.array(c["y"])
        return rd(a.repeat(n) if form == "m" else rt.repeat(a, n), kind)
    if op == "tile":
        return rd(a.tile(c["n"]) if form == "m" else rt.tile(a, c["n"]), kind)
    if op == "take":
        if form == "mask":
            ev["y"] = [i + 1 for i, v in enumerate(c["m"]) if v]
            f = lay.fa(np.array(c["m"], dtype=bool))
        else:
            f = [v - 1 for v in c["y"]]
            f = np.array(f, dtype=np.int32) if form == "idx" or not f else f
        return rd(a.filter(f), kind)
    if op == "stack":
        arrs = [keep(mk(k, x)) for k, x in zip(c["ks"], c["ms"])]
        r = rt.hstack(arrs) if form == "hstack" else rt.concatenate(arrs)
        return rd(r, c["ks"][0]) if len(set(c["ks"])) == 1 else rdn(r)
    if op in ("max", "min"):
        b = keep(mk(kind, c["y"]))
        f = {"imum": "maximum" if op == "max" else "minimum", "two": op}[form]
        return rd(getattr(rt, f)(a, b), kind)
    if op == "search":
        b = keep(mkn(c["k2"], c["y"]))
        if c["scal"]:
            return [int(a.searchsorted(v if c["k2"] in INTS else float(v), side=c["name"])) for v in c["y"]]
        r = a.searchsorted(b, side=c["name"]) if form == "m" else rt.searchsorted(a, b, side=c["name"])
        return rdn(r)
    if op == "sorted":
        return [int(bool(a.issorted() if form == "m" else rt.issorted(a)))]
    if op == "sample":
        a = keep(rt.arange(1, c["n"] + 1, dtype=np.int64))
        f = None
        ev["y"] = list(range(1, c["n"] + 1))
        if c["flt"] != "none":
            ev["y"] = [i + 1 for i, v in enumerate(c["m"]) if v]
            f = rt.FA(np.array(c["m"], dtype=bool)) if c["flt"] == "bool" else rt.FA(np.array([i for i, v in enumerate(c["m"]) if v], dtype=np.int64))
        ev["n"] = c["N"]
        obj = a if form == "fa" else rt.Dataset({"a": a, "b": a * 2})
        r = obj.sample(c["N"], filter=f, seed=c["seed"])
        r2 = obj.sample(c["N"], filter=f, seed=c["seed"])
        if form == "ds":
            ok = r["b"].tolist() == [2 * v for v in r["a"].tolist()]
            r, r2 = r["a"], r2["a"]
        else:
            ok = True
        return rdn(r) if ok and r.tolist() == r2.tolist() else [BAD] * len(r)
    if op == "interp":
        k = c["kind"]
        xp, fp, y = keep(mkn(k, c["x"])), keep(mkn(k, c["fp"])), keep(mkn(k, c["y"]))
        ev["ms"] = [c["fp"]]
        r = rt.interp_extrap(y, xp, fp) if c["n"] else rt.interp(y, xp, fp)
        return [int(round(float(v) * 1000)) if v == v else NA for v in r.tolist()]
    raise AssertionError(op)


def shard(c):
    return (c["op"], c["kind"]) if c["op"] in ("ffill", "bfill", "dsfill", "cummin", "cummax") else None
