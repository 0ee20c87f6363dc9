"""C17: arithmetic of Date, DateSpan, DateTimeNano and TimeSpan; histories over registers."""
import operator
import warnings
from fractions import Fraction

import numpy as np
import riptable as rt
import lay
from proj import NA, BAD

warnings.simplefilter("ignore")
NS = 10**9
DAYNS = 86400 * NS
I8MIN, I4MIN = -(2**63), -(2**31)
ZONES = ["UTC", "GMT", "NYC", "DUBLIN", "Australia/Sydney", "Asia/Kolkata", "Asia/Tokyo"]
NONE = {"r": 0, "i": 0, "k": "I", "v": [], "z": ""}


def tri(n):
    n = int(n)
    return [n // DAYNS, n % DAYNS // NS, n % NS]


def num(t):
    return t[0] * DAYNS + t[1] * NS + t[2]


def val(rng, k):
    if k == "D":
        return [rng.choice([rng.randint(3000, 20000), 10000 + rng.randint(0, 3), 8000]), 0, 0]
    if k == "S":
        return [rng.choice([0, 1, -1, 7, rng.randint(-400, 400), rng.randint(-5, 5)]), 0, 0]
    if k == "T":
        base = rng.choice([rng.randint(3000, 20000), 10000 + rng.randint(0, 3), 8000]) * DAYNS
        return tri(base + rng.choice([0, 0, rng.randrange(24) * 3600 * NS, rng.randrange(86400) * NS, rng.randrange(DAYNS // 512) * 512, rng.randrange(DAYNS)]))
    m = rng.choice([0, 1, NS, DAYNS, 3600 * NS, rng.randrange(10**6), rng.randrange(86400) * NS, rng.randrange(DAYNS), rng.randint(0, 40) * DAYNS, rng.randrange(40 * DAYNS)])
    return tri(rng.choice([1, 1, -1]) * m)


def vals(rng, k, n):
    pm = rng.choice([0, 0, 0.25, 0.5])
    pool = [val(rng, k) for _ in range(rng.choice([1, 2, 4, 8]))] if rng.random() < 0.4 else None
    return [[] if rng.random() < pm else (rng.choice(pool) if pool else val(rng, k)) for _ in range(n)]


OPS = ["add"] * 5 + ["sub"] * 5 + ["iadd", "isub", "eq", "ne", "lt", "le", "gt", "ge", "lt", "eq", "diff", "shift", "take", "hstack", "copy", "neg", "abs", "scale", "scale", "floordiv",
                                   "ratio", "reduce", "reduce", "isnan", "isnotnan", "cmpstr", "radd"]


def cases(tier, rng):
    for _ in range(1400 if tier == "quick" else 16000):
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7])
        regs = []
        z = rng.choice(ZONES)
        ks = ["D", "S", "T", "N", rng.choice("DSTN")]
        rng.shuffle(ks)
        for k in ks:
            m = 1 if rng.random() < 0.2 else n
            regs.append({"k": k, "z": (z if rng.random() < 0.7 else rng.choice(ZONES)) if k == "T" else "", "v": vals(rng, k, m), "sent": int(rng.random() < 0.15)})
        steps = []
        for _ in range(rng.choice([3, 6, 10, 14])):
            op = rng.choice(OPS)
            s = {"op": op, "a": rng.randint(1, 5), "b": rng.randint(1, 5), "dst": rng.randint(1, 5), "af": rng.choice(["arr"] * 6 + ["one", "scal"]),
                 "bf": rng.choice(["arr"] * 5 + ["one", "scal", "scal", "int", "ints"]), "ai": rng.randint(1, 7), "bi": rng.randint(1, 7)}
            if s["bf"] in ("int", "ints"):
                s["n"] = [rng.choice([0, 1, -1, 5, rng.randint(-300, 300)]) for _ in range(8)]
                s["dt"] = rng.choice(["i4", "i8", "py"])
            if op in ("diff", "shift"):
                s["p"] = rng.choice([1, 1, 2, -1, -2, 0, 3, 9])
            if op == "take":
                s["how"] = rng.choice(["fancy", "mask", "slice", "rev", "step", "list", "filter"])
                s["seed"] = rng.randrange(10**6)
            if op == "scale":
                s["p"], s["q"] = rng.choice([(2, 1), (3, 1), (-1, 1), (0, 1), (1, 2), (1, 4), (3, 2), (1, 3), (1, 7), (10, 1)])
                s["how"] = rng.choice(["mul", "rmul", "div", "div", "mulf", "mularr"])
            if op == "reduce":
                s["f"] = rng.choice(["sum", "mean", "min", "max", "median", "nansum", "nanmean", "nanmin", "nanmax", "nanmedian", "min", "max"])
                s["mask"] = [rng.randint(0, 1) for _ in range(16)] if rng.random() < 0.3 else []
            if op == "ratio":
                m = rng.choice([1, 2, 4])
                b = [val(rng, "N") for _ in range(m)]
                a = []
                for x in b:
                    p, q = rng.choice([(1, 1), (2, 1), (7, 1), (-3, 1), (0, 1), (1, 2), (5, 4), (1, 8)])
                    v = num(x) * p
                    a.append(tri(v // q) if v % q == 0 else tri(num(x)))
                mi = rng.choice([-1, -1, 0])
                if mi == 0:
                    (a if rng.random() < 0.5 else b)[0] = []
                s["av"], s["bv"] = a, b
            if op == "cmpstr":
                s["op2"] = rng.choice(["eq", "ne", "lt", "le", "gt", "ge"])
                s["d"], s["s"] = rng.randint(9998, 10004), rng.randrange(86400)
            steps.append(s)
        yield {"regs": regs, "steps": steps}


def make(r):
    k, v = r["k"], r["v"]
    if k == "D":
        return rt.Date(lay.fa(np.array([(I4MIN if r.get("sent") else 0) if x == [] else x[0] for x in v], dtype=np.int32)))
    if k == "S":
        return rt.DateSpan(lay.fa(np.array([I4MIN if x == [] else x[0] for x in v], dtype=np.int32)))
    if k == "T":
        return rt.DateTimeNano(lay.fa(np.array([(I8MIN if r.get("sent") else 0) if x == [] else num(x) for x in v], dtype=np.int64)), from_tz="UTC", to_tz=r["z"])
    return rt.TimeSpan(lay.fa(np.array([np.nan if x == [] else num(x) for x in v], dtype=np.float64)))


def pnum(x):
    """a plain floating result"""
    x = float(x)
    if np.isnan(x):
        return NA
    return int(x) if np.isfinite(x) and x == int(x) and abs(x) < 10**6 else BAD


CLS = {"Date": "D", "DateSpan": "S", "DateTimeNano": "T", "TimeSpan": "N", "DateScalar": "D", "DateSpanScalar": "S", "DateTimeNanoScalar": "T", "TimeSpanScalar": "N"}


def proj(o):
    """[k, z, v] of a result"""
    name = type(o).__name__
    k = CLS.get(name, "")
    if k:
        raw = np.atleast_1d(np.asarray(o._np))
        if raw.dtype != {"D": np.int32, "S": np.int32, "T": np.int64, "N": np.float64}[k]:
            return {"k": k + ":" + str(raw.dtype), "z": "", "v": []}
        if k == "D":
            v = [[] if x in (0, I4MIN) else [int(x), 0, 0] for x in raw]
        elif k == "S":
            v = [[] if x == I4MIN else [int(x), 0, 0] for x in raw]
        elif k == "T":
            v = [[] if x in (0, I8MIN) else tri(x) for x in raw]
        else:
            v = [[] if np.isnan(x) else tri(round(Fraction(float(x)))) if np.isfinite(x) else [9, 9, 9] for x in raw]
        return {"k": k, "z": o._timezone._to_tz if k == "T" else "", "v": v}
    a = np.atleast_1d(np.asarray(o))
    if a.dtype == bool:
        return {"k": "B", "z": "", "v": [int(x) for x in a]}
    if a.dtype.kind == "f":
        return {"k": "F", "z": "", "v": [pnum(x) for x in a]}
    return {"k": name + ":" + str(a.dtype), "z": "", "v": []}


def raw(o):
    return np.array(o._np)


def execute(case):
    regs = [None] + [make(r) for r in case["regs"]]
    evs = []

    def emit(op, a, b, dst, out, frame=1, **kw):
        e = {"op": op, "a": a, "b": b, "dst": dst, "out": out, "frame": frame}
        e.update(kw)
        evs.append(e)

    for i, r in enumerate(case["regs"], 1):
        emit("set", {"r": 0, "i": 0, "k": r["k"], "v": r["v"], "z": r["z"]}, NONE, i, proj(regs[i]))
    for s in case["steps"]:
        op = s["op"]
        if op == "ratio":
            A, B = make({"k": "N", "v": s["av"], "z": ""}), make({"k": "N", "v": s["bv"], "z": ""})
            try:
                r = A / B
                out = {"k": "F" if type(r) is rt.FastArray or not isinstance(r, np.ndarray) else type(r).__name__, "z": "",
                       "v": [[] if np.isnan(x) else [0, 0] if not np.isfinite(x) else list(Fraction(float(x)).limit_denominator(64).as_integer_ratio()) for x in np.atleast_1d(np.asarray(r))]}
            except Exception:
                out = {"k": "X", "z": "", "v": []}
            emit("ratio", {"r": 0, "i": 0, "k": "N", "v": s["av"], "z": ""}, {"r": 0, "i": 0, "k": "N", "v": s["bv"], "z": ""}, 1, out)
            continue

        def operand(reg, form, i):
            o = regs[reg]
            if form == "arr" or not isinstance(o, np.ndarray) or len(o) == 0:
                return o, {"r": reg, "i": 0, "k": "", "v": [], "z": ""}
            i = (i - 1) % len(o)
            return (o[i:i + 1] if form == "one" else o[i]), {"r": reg, "i": i + 1, "k": "", "v": [], "z": ""}

        a, da = operand(s["a"], s["af"], s["ai"])
        before = [None] + [raw(x) for x in regs[1:]]
        ka = CLS[type(a).__name__]
        sa = not isinstance(a, np.ndarray)
        if op in ("add", "sub", "iadd", "isub", "radd", "eq", "ne", "lt", "le", "gt", "ge", "floordiv"):
            cmp = op in ("eq", "ne", "lt", "le", "gt", "ge")
            if s["bf"] in ("int", "ints") and not cmp and op != "floordiv":
                n = len(regs[s["a"]]) if s["bf"] == "ints" and s["dt"] != "py" else 1
                if n == 0:
                    n = 1
                lit = (s["n"] * 3)[:n]
                b = lit[0] if s["bf"] == "int" or s["dt"] == "py" else rt.FastArray(np.array(lit, dtype=s["dt"]))
                db = {"r": 0, "i": 0, "k": "I", "v": [[x, 0, 0] for x in lit], "z": ""}
                if sa:
                    continue
            else:
                b, db = operand(s["b"], s["bf"] if s["bf"] not in ("int", "ints") else "arr", s["bi"])
            kb = CLS.get(type(b).__name__, "I")
            sb = not isinstance(b, np.ndarray)
            # scalars of Date and DateSpan have no arithmetic of their own, nor do two scalars of unlike classes
            if sa and (ka in "DS" or (sb and (kb in "DS" or cmp))):
                continue
            if sa and cmp and (ka != kb or before[s["a"]] is None or da["r"] == 0):
                continue
            if sa and cmp and ka == "T" and int(a) in (0, I8MIN):
                continue  # numpy's comparison of the integers
            if not sa and not sb and len(a) != len(b) and 1 not in (len(a), len(b)):
                continue
            if op == "floordiv" and (ka != "N" or kb != "N"):
                continue
            if op == "radd":
                if kb != "I":
                    continue
                a, b, da, db, ka, kb = b, a, db, da, kb, ka
            name = {"iadd": "add", "isub": "sub", "radd": "add"}.get(op, op)
            inplace = op in ("iadd", "isub")
            if inplace:
                if sa or ka in "SN" or (not sb and len(b) not in (1, len(a))) or (ka == "D" and kb in "NT"):
                    continue
                if op == "isub" and ka in "DT" and kb in "DT":
                    a = a.copy()
                    keep = raw(a)
                    try:
                        a -= b
                        out = {"k": "ok", "z": "", "v": []}
                    except Exception:
                        out = {"k": "X", "z": "", "v": []}
                    # an in-place difference of two points cannot be stored: refused, leaving its operand alone
                    if out["k"] == "X":
                        emit("copy", da, da, s["dst"], proj(a), int(np.array_equal(keep, raw(a))))
                        regs[s["dst"]] = a
                    continue
                a = a.copy()
            keep = raw(a) if hasattr(a, "_np") else None
            try:
                if op == "iadd":
                    a += b
                    r = a
                elif op == "isub":
                    a -= b
                    r = a
                elif cmp:
                    r = getattr(operator, op)(a, b)
                else:
                    r = {"add": operator.add, "radd": operator.add, "sub": operator.sub, "floordiv": operator.floordiv}[op](a, b)
                out = proj(r)
            except (TypeError, NotImplementedError):
                r, out = None, {"k": "X", "z": "", "v": []}
            frame = int(all(np.array_equal(before[j], raw(regs[j]), equal_nan=True) if before[j].dtype.kind == "f" else np.array_equal(before[j], raw(regs[j])) for j in range(1, 6)))
            if inplace and r is None and not np.array_equal(keep, raw(a)):
                frame = 0
            emit(name, da, db, s["dst"], out, frame)
            if name in ("add", "sub") and r is not None:
                if not isinstance(r, np.ndarray):
                    r = make({"k": out["k"], "z": out["z"], "v": out["v"]}) if out["k"] in "DSTN" else r
                if out["k"] in ("D", "S", "T", "N"):
                    regs[s["dst"]] = r
                else:
                    break  # rejected by the specification anyway
            continue
        if op == "cmpstr":
            if sa or ka not in "DN":
                continue
            if ka == "D":
                txt, lit = str(np.datetime64(s["d"], "D")), [s["d"], 0, 0]
            else:
                txt, lit = "%02d:%02d:%02d" % (s["s"] // 3600, s["s"] // 60 % 60, s["s"] % 60), [0, s["s"], 0]
            try:
                out = proj(getattr(operator, s["op2"])(a, txt))
            except TypeError:
                out = {"k": "X", "z": "", "v": []}
            emit(s["op2"], da, {"r": 0, "i": 0, "k": ka, "v": [lit], "z": ""}, s["dst"], out)
            continue
        if sa:
            if op not in ("neg", "abs") or ka != "N":
                continue
        kw, db = {}, NONE
        try:
            if op in ("isnan", "isnotnan"):
                r = getattr(a, op)()
            elif op == "shift":
                kw["p"] = s["p"]
                r = a.shift(s["p"])
            elif op == "diff":
                if s["p"] == 0:
                    continue  # refused
                kw["p"] = s["p"]
                r = a.diff(s["p"])
                if ka in "SN" and type(r) is not type(a):
                    continue  # the class of a difference of spans is that of FastArray.diff
            elif op == "take":
                n, rg = len(a), np.random.RandomState(s["seed"])
                if s["how"] in ("fancy", "list"):
                    ix = rg.randint(0, n, rg.randint(0, n + 2)) if n else np.array([], dtype=int)
                    r = a[ix] if s["how"] == "fancy" or not len(ix) else a[ix.tolist()]
                elif s["how"] in ("mask", "filter"):
                    m = rg.randint(0, 2, n).astype(bool)
                    ix = np.flatnonzero(m)
                    r = a[m] if s["how"] == "mask" else a[np.flatnonzero(m)]
                else:
                    sl = {"slice": slice(1, None), "rev": slice(None, None, -1), "step": slice(None, None, 2)}[s["how"]]
                    ix = np.arange(n)[sl]
                    r = a[sl]
                kw["ix"] = [int(x) + 1 for x in ix]
            elif op == "hstack":
                b, db = operand(s["b"], "arr", 0)
                if type(a) is not type(b) or (ka == "T" and a._timezone._to_tz != b._timezone._to_tz):
                    continue
                r = rt.hstack([a, b])
                if len(r) > 12:
                    continue
            elif op == "copy":
                r = a.copy()
            elif op in ("neg", "abs"):
                if ka == "S":
                    continue
                r = -a if op == "neg" else abs(a)
            elif op == "scale":
                if ka != "N":
                    continue
                p, q = s["p"], s["q"]
                if s["how"] == "div":
                    p, q = (1, p) if q == 1 else (q, p)
                    if q == 0 or p != 1:
                        continue
                    if q < 0:
                        p, q = -p, -q
                    r = a / (s["p"] if s["q"] == 1 else 1)
                elif q != 1 and s["how"] != "mulf":
                    r = a / q
                    p = 1
                else:
                    r = a * p if s["how"] == "mul" else p * a if s["how"] == "rmul" else a * np.full(len(a), p) if s["how"] == "mularr" else a * (p / q)
                kw["p"], kw["q"] = p, q
            elif op == "reduce":
                if ka != "N" and s["f"] not in ("min", "max"):
                    continue
                if s["mask"] and (ka != "N" or s["f"] not in ("mean", "nansum", "nanmean")):
                    s = dict(s, mask=[])
                kw["f"], kw["mask"] = s["f"], s["mask"][:len(a)]
                if len(a) == 0 or (kw["mask"] and not any(kw["mask"])):
                    continue
                if kw["mask"] and np.isnan(raw(a)[np.array(kw["mask"], dtype=bool)]).all():
                    continue  # nothing to reduce
                r = getattr(a, s["f"])(filter=np.array(kw["mask"], dtype=bool)) if kw["mask"] else getattr(a, s["f"])()
            else:
                continue
            out = proj(r)
        except (TypeError, NotImplementedError):
            r, out = None, {"k": "X", "z": "", "v": []}
        frame = int(all(np.array_equal(before[j], raw(regs[j]), equal_nan=before[j].dtype.kind == "f") for j in range(1, 6)))
        emit(op, da, db, s["dst"], out, frame, **kw)
        if op in ("shift", "diff", "take", "hstack", "copy", "neg", "abs", "scale"):
            if out["k"] in ("D", "S", "T", "N"):
                regs[s["dst"]] = r if isinstance(r, np.ndarray) else make(out)
            elif r is not None:
                break
    return evs
