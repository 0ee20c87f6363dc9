"""C22: exchange with Arrow, pandas, record arrays, rows, dictionaries, pickles."""
import copy
import pickle

import numpy as np
import pandas as pd
import pyarrow as pa
import riptable as rt
import lay
import tcol
from proj import NA, BAD, sentinel

SENT, EMPTY = 6, 0
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
SEC = [1, 1000000000, 1600000000, 1600000001, 1700000000]
DUR = [-1, 0, 1, 86400, 20000000]
KINDS = tcol.KINDS + ["Us", "dtg", "dtz", "cat0", "i8L", "u8L", "catm", "catL"]
XPOOL = {"i8L": [-(2**60) - 1, -1, 2**53 + 1, 2**60 + 1, 2**63 - 1], "u8L": [0, 1, 2**53 + 1, 2**63 + 1, 2**64 - 2], "catm": ["a|x", "a|y", "b|x", "b|y", "c|z"],
         "catL": ["n000", "n127", "n128", "n254", "n299"]}
BASE = {"dtg": "dtn", "dtz": "dtn", "cat0": "cat", "i8L": "i8", "u8L": "u8", "catm": "cat", "catL": "cat"}
ROUTES = ["pickle", "deepcopy", "dict", "struct", "rowds", "arrow", "pandas", "rec", "rows", "tagged", "named"]
KN = {"U": "U", "Us": "U", "dtn": "dtn:NYC", "dtg": "dtn:GMT", "dtz": "dtn:NYC", "cat": "cat:S", "catu": "cat:U", "cati": "cat:i8", "cate": "cate", "cat0": "cat:S", "i8L": "i8", "u8L": "u8", "catm": "catm", "catL": "cat:S"}
CATL = [1, 2, 3, 4, 5]
TZ = {"NYC": "NYC", "America/New_York": "NYC", "GMT": "GMT", "UTC": "GMT"}


def pool(k):
    return XPOOL[k] if k in XPOOL else tcol.POOL[BASE.get(k, k)]


def mk(k, r):
    if k in ("dtg", "dtz"):
        a = np.array([0 if x == NA else pool(k)[x - 1] for x in r], dtype=np.int64)
        if k == "dtg":
            return rt.DateTimeNano(a, from_tz="GMT", to_tz="GMT")
        z = rt.DateTimeNano(np.array([600000000 * 10**9] * len(r), dtype=np.int64), from_tz="NYC", to_tz="NYC")
        z._np[:] = a
        return z
    if k in ("i8L", "u8L"):
        d = np.dtype(k[:2])
        return lay.fa(np.array([sentinel(d) if x == NA else pool(k)[x - 1] for x in r], dtype=d))
    if k == "catL":
        return rt.Cat(np.array([0 if x == NA else int(pool(k)[x - 1][1:]) + 1 for x in r], dtype=np.int16), rt.FA(np.array([b"n%03d" % i for i in range(300)])))
    if k == "catm":
        p = [x.split("|") for x in pool(k)]
        full = rt.Cat([rt.FA([a for a, _ in p] + ["q"]), rt.FA([b for _, b in p] + ["q"])], filter=rt.FA([True] * 5 + [False]))
        return full[rt.FA(np.array([5 if x == NA else x - 1 for x in r], dtype=np.int32))]
    if k == "cat0":
        return rt.Cat(np.array([x - 1 for x in r], dtype=np.int8), rt.FA(np.array([s.encode() for s in pool(k)], dtype="S3")), base_index=0)
    return tcol.mk(k, r)


def read(a):
    """-> kind, values (None = missing), categories"""
    cats = []
    if isinstance(a, rt.Categorical) and a.ismultikey:
        ks = [[txt(x) for x in c.tolist()] for c in a.category_dict.values()]
        lab = ["|".join(t) for t in zip(*ks)]
        return "catm", [None if i == 0 else lab[i - 1] for i in a._np.tolist()], lab
    if isinstance(a, rt.Categorical):
        if a.base_index is None or a.category_mode in (2, 3) or "Enum" in str(a.category_mode) or "Dict" in str(a.category_mode):
            m = {}
            for x, y in a.category_mapping.items():
                if isinstance(x, (str, bytes)):
                    x, y = y, x
                m[int(x)] = txt(y)
            return "cate", [None if c == sentinel(a._np.dtype) else m.get(c, "??") for c in a._np.tolist()], []
        c = a.category_array
        k = "cat:" + (c.dtype.kind if c.dtype.kind in "SU" else c.dtype.str[1:])
        lab = [txt(x) for x in c.tolist()]
        b = a.base_index
        v = [None if b == 1 and i == 0 else lab[i - b] if 0 <= i - b < len(lab) else "??" for i in a._np.tolist()]
        return k, v, lab
    raw = a._np if hasattr(a, "_np") else np.asarray(a)
    if isinstance(a, rt.DateTimeNano):
        return "dtn:" + TZ.get(a._timezone._to_tz, "?"), [None if x in (0, -(2**63)) else x for x in raw.tolist()], []
    if isinstance(a, rt.Date):
        return "date", [None if x in (0, -(2**31)) else x for x in raw.tolist()], []
    if isinstance(a, rt.TimeSpan):
        return "tsp", [None if x != x else x for x in raw.tolist()], []
    if isinstance(a, rt.DateSpan):
        return "dspan", [None if x == -(2**31) else x for x in raw.tolist()], []
    if type(a) is not rt.FastArray:
        return type(a).__name__, [], []
    if raw.dtype.kind in "SU":
        return raw.dtype.kind, [None if x in (b"", "") else txt(x) for x in raw.tolist()], []
    if raw.dtype.kind == "b":
        return "?", raw.tolist(), []
    s = sentinel(raw.dtype)
    return raw.dtype.str[1:], [None if x != x or s is not None and x == s else x for x in raw.tolist()], []


def txt(x):
    return x.decode("latin-1") if isinstance(x, bytes) else x


def rk(v, p):
    return [NA if x is None else p.index(x) + 1 if x in p else BAD for x in v]


# ------------------------------------------------------------------ cases
def gcol(rng, k, n):
    r = tcol.gen(rng, BASE.get(k, k), n, na=0 if k == "cat0" else rng.choice([0, 0.25]))
    return {"kind": k, "k": KN.get(k, k), "v": r, "u": int(k == "U" and 5 in r or k == "catu"), "cats": CATL if k in ("cat", "cati", "catu", "cat0") else []}


def ok_route(k, r, v):
    if k == "catm" and (r in ("pandas", "arrow") or not v):
        return False
    if r in ("rec", "rows", "tagged", "named"):
        if k.startswith("cat") or NA in v and k in ("date", "dtn", "dtg", "dtz"):
            return False
        if r == "rec" and k == "tsp" and NA in v:
            return False
    return True


def gin(rng, lib):
    t = rng.choice(["int", "int", "int", "flt", "?", "text", "text", "fsb", "date", "ts", "ts", "dur", "dict:text", "dict:text", "dict:i8", "big"])
    n = rng.choice([0, 1, 3, 5, 8])
    na = rng.choice([0, 0.25, 0.25, 1.0 if rng.random() < 0.2 else 0.25])
    o = {"lib": lib, "zc": 0, "aw": 0, "wr": 0, "tz": "", "u": 0, "form": "from", "pi": "no"}
    hi = 5
    if t == "int":
        t = rng.choice(INTS)
        if rng.random() < 0.4 and lib == "arrow":
            hi = 6
            o["aw"] = int(rng.random() < 0.7)
    elif t == "flt":
        t = rng.choice(["f4", "f8"])
    elif t == "?":
        hi = 2
        na = na if lib == "arrow" and rng.random() < 0.3 else 0
    if lib == "arrow":
        o["zc"] = int(rng.random() < 0.15)
        o["wr"] = int(o["zc"] == 0 and rng.random() < 0.4)
    if lib == "pandas" and t == "date":
        t = "ts"
    if lib == "pandas" and t == "fsb":
        t = "text"
        o["sub"] = "bytes"
    if t == "big":
        t = "dict:text"
        o["sub"] = "big"
    if t == "ts":
        o["unit"] = rng.choice(["s", "ms", "us", "ns"])
        o["tz"] = rng.choice(["UTC", "America/New_York", "UTC" if lib == "pandas" else "naive"])
        if lib == "pandas" and rng.random() < 0.3:
            o["tz"] = ""
            o["naivetz"] = rng.choice(["UTC", "NYC", "GMT"])
    if t == "dur":
        o["unit"] = rng.choice(["s", "ms", "us", "ns"])
    if t in ("text", "dict:text") and "sub" not in o:
        if lib == "arrow":
            o["sub"] = rng.choice(["string", "large"])
        else:
            o["sub"] = rng.choice(["None", "nan", "NA", "string", "string"]) if t == "text" else ""
    if t.startswith("dict"):
        o["it"] = rng.choice(["i1", "i2", "i4", "i8", "u1", "u2", "u4"])
        if o.get("sub") == "big":
            o["it"] = rng.choice(["i1", "u1", "i2", "u2"])
            o["m"] = rng.choice([126, 127, 128] if o["it"] == "i1" else [127, 128, 200, 254, 255, 256])
    if lib == "pandas" and t in ("f4", "f8"):
        o["sub"] = rng.choice(["np", "ext"])
    if lib == "pandas" and t in INTS:
        o["sub"] = "ext" if na else rng.choice(["np", "ext"])
    if lib == "pandas" and t == "?":
        o["sub"] = rng.choice(["np", "ext"])
    uni = t in ("text", "dict:text") and o.get("sub") not in ("big", "bytes") and rng.random() < 0.4
    if t == "text" and not uni:
        hi = 4
    if t == "dict:text":
        hi = 5
        o["u"] = int(uni)

    def val():
        return NA if rng.random() < na else rng.randint(1, hi)

    nch = rng.choice([1, 1, 1, 2, 3]) if lib == "arrow" else 1
    cuts = sorted(rng.randint(0, n) for _ in range(nch - 1))
    bounds = [0] + cuts + [n]
    chunks = []
    for i in range(nch):
        m = bounds[i + 1] - bounds[i]
        lo, hi_ = (rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 2])) if lib == "arrow" else (0, 0)
        buf = [val() for _ in range(lo + m + hi_)]
        if o.get("sub") == "string" and t == "text" and lib == "pandas" or t == "text" and lib == "arrow":
            buf = [EMPTY if x != NA and rng.random() < 0.1 else x for x in buf]
        chunks.append({"buf": buf, "off": lo, "len": m})
    if lib == "arrow" and rng.random() < 0.05:
        chunks = []
    v = [x for c in chunks for x in c["buf"][c["off"] : c["off"] + c["len"]]]
    if t == "text":
        o["u"] = int(uni and 5 in v)
        if not uni and o.get("sub") != "x":
            o["asc"] = 1
    if lib == "pandas" and t == "text" and o["sub"] != "string" and all(x == NA for x in v):
        return None
    if lib == "pandas":
        o["form"] = rng.choice(["from", "from", "dict", "df"])
        if o["form"] == "df" and (t == "text" and NA in v or t == "ts"):
            o["form"] = "from"
        if o.get("naivetz", "UTC") != "UTC":
            o["form"] = "from"
        if o["form"] == "from":
            o["pi"] = rng.choice(["no", "no", "yes", "auto"])
        o["index"] = rng.choice(["def", "perm", "named", "text"])
    else:
        o["form"] = rng.choice(["from", "table"])
    o["perm"] = [rng.sample([1, 2, 3, 4, 5], 5) for _ in chunks]
    return {"op": "in", "t": t, "chunks": chunks, "o": o}


def cases(tier, rng):
    big = tier == "thorough"
    for k in KINDS:
        for r in ROUTES:
            for n in [0, 1, 5] * (3 if big else 1):
                c = gcol(rng, k, n)
                if ok_route(k, r, c["v"]):
                    yield {"op": "route", "cols": [c], "route": [r], "o": gopt(rng)}
        for r in ("arrow", "pandas"):
            for n in [0, 1, 5, 5] * (3 if big else 1):
                c = gcol(rng, k, n)
                if k == "cat0" and n == 0 or k == "catm":
                    continue
                yield dict(c, op="out", r=r, o=gopt(rng))
    for _ in range(4000 if big else 700):
        n = rng.choice([0, 1, 2, 4, 7])
        cols = [gcol(rng, rng.choice(KINDS), n) for _ in range(rng.randint(1, 4))]
        route = [rng.choice(ROUTES) for _ in range(rng.randint(1, 4))]
        if "arrow" in route and rng.random() < 0.9:
            cols = [c for c in cols if c["kind"] != "dspan"]
        cols = [c for c in cols if all(ok_route(c["kind"], r, c["v"]) for r in route)]
        if "arrow" in route[:-1]:   # a mapped Categorical comes back with a name for its missing code
            cols = [c for c in cols if c["kind"] != "cate" or NA not in c["v"]]
        if cols and not (n == 0 and any(c["kind"] == "cat0" for c in cols)):
            yield {"op": "route", "cols": cols, "route": route, "o": gopt(rng)}
    for _ in range(9000 if big else 1700):
        c = gin(rng, rng.choice(["arrow", "pandas"]))
        if c:
            yield c


def gopt(rng):
    return {"pfb": rng.randint(0, 1), "e2n": rng.randint(0, 1), "nullable": int(rng.random() < 0.75), "unicode": int(rng.random() < 0.75), "as": rng.choice(["tuple", "list", "iter"])}


def nolay(case):
    return case["op"] == "in"


# ------------------------------------------------------------------ running
def via(ds, r, o):
    if r == "pickle":
        return pickle.loads(pickle.dumps(ds))
    if r == "deepcopy":
        return copy.deepcopy(ds)
    if r == "dict":
        return rt.Dataset(ds.asdict())
    if r == "struct":
        return rt.Dataset(ds.as_struct().asdict()) if len(ds) != 1 else rt.Dataset(rt.Struct(ds.asdict()).asdict())
    if r == "rowds":
        return rt.hstack(list(ds.asrows())) if len(ds) else ds
    if r == "arrow":
        return rt.Dataset.from_arrow(ds.to_arrow(preserve_fixed_bytes=bool(o["pfb"]), empty_strings_to_null=bool(o["e2n"])), zero_copy_only=False)
    if r == "pandas":
        nullable = bool(o["nullable"]) or any(isinstance(c, (rt.Date, rt.DateSpan)) for c in ds.values())
        return rt.Dataset.from_pandas(ds.to_pandas(use_nullable=nullable, unicode=bool(o["unicode"])), tz="UTC")
    if r == "rec":
        return rt.Dataset(ds.as_recordarray())
    if len(ds) == 0:
        return ds  # rows carry the types
    if r == "rows":
        if o["as"] == "iter":
            return rt.Dataset.from_rows([tuple(x) for x in ds.asrows("iter")], list(ds.keys()))
        return rt.Dataset.from_rows(ds.asrows(o["as"]), list(ds.keys()))
    if r == "tagged":
        return rt.Dataset.from_tagged_rows(ds.asrows({"tuple": "dict", "list": "OrderedDict", "iter": "Struct"}[o["as"]]))
    if r == "named":
        return rt.Dataset.from_tagged_rows(ds.asrows("namedtuple"))
    raise ValueError(r)


def snap(a):
    r = a._np if hasattr(a, "_np") else np.asarray(a)
    if isinstance(a, rt.Categorical) and a.ismultikey:
        return (r.dtype.str, r.tobytes(), [c.tolist() for c in a.category_dict.values()])
    return (type(a).__name__, r.dtype.str, r.tobytes(), a.category_array.tolist() if isinstance(a, rt.Categorical) and a.base_index is not None else None)


def run_route(case):
    names = ["c%d" % (i + 1) for i in range(len(case["cols"]))]
    ds = rt.Dataset({nm: mk(c["kind"], c["v"]) for nm, c in zip(names, case["cols"])})
    before = [snap(ds[nm]) for nm in names]
    ev = {"op": "route", "names": names, "route": case["route"], "cols": [{"k": c["k"] if c["v"] else read(ds[nm])[0], "v": c["v"], "u": c["u"], "cats": c["cats"]} for nm, c in zip(names, case["cols"])]}
    # rows without rows carry no types, and the categories of an empty column of rows are not asked for
    if not case["cols"][0]["v"]:
        ev["route"] = [r for r in case["route"] if r not in ("rows", "tagged", "named")] or ["pickle"]
    try:
        x = ds
        for r in ev["route"]:
            x = via(x, r, case["o"])
    except Exception as e:
        ev["obs"] = {"raised": 1, "why": str(e)[:100]}
        return [ev]
    obs = []
    for nm, c in zip(names, case["cols"]):
        k, v, cats = read(x[nm])
        p = pool(c["kind"])
        obs.append({"k": k, "v": rk(v, p), "cats": rk(cats, p)})
    ev["obs"] = {"raised": 0, "names": list(x.keys()), "cols": obs, "frame": int([snap(ds[nm]) for nm in names] == before)}
    return [ev]


def pyval(x, k):
    """a python value of the other side -> comparable with the pool of kind k (None = null)"""
    if isinstance(x, dict):
        x = x["name"]
    if x is None or x is pd.NA or x is pd.NaT or isinstance(x, float) and x != x:
        return None
    if isinstance(x, bytes):
        x = x.decode("latin-1").rstrip("\0")
    if isinstance(x, (pd.Timestamp, pd.Timedelta)):
        return x.value
    if hasattr(x, "toordinal"):
        return x.toordinal() - 719163
    if hasattr(x, "item"):
        return x.item()
    return x


def run_out(case):
    k, r, o = case["kind"], case["r"], case["o"]
    if r == "pandas" and k in ("date", "dspan"):
        o = dict(o, nullable=1)
    a = mk(k, case["v"])
    ds = rt.Dataset({"a": a})
    before = snap(ds["a"])
    ev = {"op": "out", "kd": case["k"], "r": r, "v": case["v"], "o": o, "cats": case["cats"]}
    p = pool(k)
    cats = []
    try:
        if r == "arrow":
            c = ds.to_arrow(preserve_fixed_bytes=bool(o["pfb"]), empty_strings_to_null=bool(o["e2n"]))["a"]
            t = c.type
            T = pa.types
            if T.is_dictionary(t):
                tn = "dict:" + ("text" if T.is_string(t.value_type) or T.is_large_string(t.value_type) else "struct" if T.is_struct(t.value_type) else {"int64": "i8"}.get(str(t.value_type), str(t.value_type)))
                cats = c.chunk(0).dictionary.to_pylist() if c.num_chunks else []
            elif T.is_timestamp(t):
                tn = "ts"
            elif T.is_duration(t):
                tn = "dur"
            elif T.is_date(t):
                tn = "date"
            elif T.is_fixed_size_binary(t):
                tn = "fsb"
            elif T.is_string(t):
                tn = "text"
            elif T.is_boolean(t):
                tn = "?"
            else:
                tn = np.dtype(t.to_pandas_dtype()).str[1:]
            if tn in ("ts", "dur"):
                vals = [None if not x.is_valid else x.value for x in c]
            else:
                vals = c.to_pylist()
        else:
            c = ds.to_pandas(use_nullable=bool(o["nullable"]), unicode=bool(o["unicode"]))["a"]
            d = c.dtype
            if isinstance(d, pd.CategoricalDtype):
                cl = d.categories.tolist()
                tn = "dict:" + ("i8" if d.categories.dtype == np.int64 else "text")
                cats = [pyval(x, k) for x in cl]
            elif d.kind in "Mm":
                tn = "ts" if d.kind == "M" else "dur"
            elif d.kind == "O" or d.kind in "SU":
                tn = "text"
            elif d.kind == "b":
                tn = "?"
            else:
                tn = (d.numpy_dtype if hasattr(d, "numpy_dtype") else d).str[1:]
            vals = c.tolist()
    except Exception as e:
        ev["obs"] = {"raised": 1, "why": str(e)[:100]}
        return [ev]
    vs = [pyval(x, k) for x in vals]
    s = sentinel(np.dtype(tn)) if tn in INTS else None
    obs = [NA if x is None or k == "cate" and x == "" and case["v"][i] == NA else EMPTY if x == "" else SENT if s is not None and x == s else p.index(x) + 1 if x in p else BAD for i, x in enumerate(vs)]
    if isinstance(ds["a"], rt.Categorical) and k == "cate":
        cats = []
    ev["obs"] = {"raised": 0, "t": tn, "v": obs, "cats": rk(cats, p), "frame": int(snap(ds["a"]) == before)}
    return [ev]


PA = {"i1": pa.int8(), "i2": pa.int16(), "i4": pa.int32(), "i8": pa.int64(), "u1": pa.uint8(), "u2": pa.uint16(), "u4": pa.uint32(), "u8": pa.uint64(), "f4": pa.float32(), "f8": pa.float64(), "?": pa.bool_()}
MUL = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9}


def bigpool(o):
    m = o["m"]
    return ["x%03d" % i for i in range(m)], [1, m, m - 1, m // 2, 2]


def tpool(t, o):
    """rank -> value given to the other library, rank -> value expected at home"""
    if t in INTS:
        p = XPOOL.get(t + "L", tcol.POOL[t]) + [sentinel(np.dtype(t))]
        return p, p
    if t in ("f4", "f8", "?"):
        return tcol.POOL[t], tcol.POOL[t]
    if t == "text":
        if o.get("sub") == "bytes":
            return [b"a", b"ab", b"b", b"zz"], ["a", "ab", "b", "zz"]
        p = ["a", "b", "cd", "z", "\u00e9x"]
        return p, p
    if t == "fsb":
        p = ["aa", "ab", "b", "zz", "zy"]
        return [x.encode().ljust(2, b"\0") for x in p], p
    if t == "date":
        return tcol.POOL["date"], tcol.POOL["date"]
    if t == "ts":
        return [x * MUL[o["unit"]] for x in SEC], [x * 10**9 for x in SEC]
    if t == "dur":
        return [x * MUL[o["unit"]] for x in DUR], [x * 1e9 for x in DUR]
    if t == "dict:i8":
        p = [-5, 0, 3, 77, 2**40]
        return p, p
    if o.get("sub") == "big":
        names, at = bigpool(o)
        p = [names[i - 1] for i in at]
        return p, p
    p = ["a", "b", "cd", "z", "\u00e9x" if o["u"] else "zz"]
    return p, p


def mkarrow(case):
    t, o = case["t"], case["o"]
    give, _ = tpool(t, o)
    out = []
    typ = None
    if t in PA:
        typ = PA[t]
    elif t == "text":
        typ = pa.large_string() if o["sub"] == "large" else pa.string()
    elif t == "fsb":
        typ = pa.binary(2)
    elif t == "date":
        typ = pa.date32() if o["aw"] == 0 and (len(case["chunks"]) + len(case["o"]["perm"])) % 4 != 2 else pa.date64()
    elif t == "ts":
        typ = pa.timestamp(o["unit"], None if o["tz"] == "naive" else o["tz"])
    elif t == "dur":
        typ = pa.duration(o["unit"])
    for c, perm in zip(case["chunks"], o["perm"]):
        if t.startswith("dict"):
            it = PA[o["it"]]
            if o.get("sub") == "big":
                dic, at = bigpool(o)
                ix = [None if x == NA else at[x - 1] - 1 for x in c["buf"]]
            else:
                dic = [give[i - 1] for i in perm]
                ix = [None if x == NA else perm.index(x) for x in c["buf"]]
            vt = pa.int64() if t == "dict:i8" else pa.large_string() if o.get("sub") == "large" else pa.string()
            a = pa.DictionaryArray.from_arrays(pa.array(ix, it), pa.array(dic, vt))
            typ = a.type
        else:
            v = [None if x == NA else "" if x == EMPTY else give[x - 1] for x in c["buf"]]
            if t == "date" and typ == pa.date64():
                v = [None if x is None else x * 86400000 for x in v]
            a = pa.array(v, typ)
        out.append(a.slice(c["off"], c["len"]))
    if t.startswith("dict") and typ is None:
        typ = pa.dictionary(PA[o["it"]], pa.int64() if t == "dict:i8" else pa.string())
    if len(out) == 1 and o["form"] == "from":
        return out[0]
    return pa.chunked_array(out, typ)


def mkpandas(case):
    t, o = case["t"], case["o"]
    give, _ = tpool(t, o)
    (c,) = case["chunks"]
    b = c["buf"]
    null = {"None": None, "nan": np.nan, "NA": pd.NA}.get(o.get("sub"), None)
    v = [null if x == NA else "" if x == EMPTY else give[x - 1] for x in b]
    if t in INTS:
        if o["sub"] == "ext":
            nm = ("Int" if t[0] == "i" else "UInt") + str(8 * int(t[1]))
            return pd.Series([pd.NA if x is None else x for x in v], dtype=nm)
        return pd.Series(np.array(v, dtype=t))
    if t in ("f4", "f8"):
        if o["sub"] == "ext":
            return pd.Series([pd.NA if x is None else x for x in v], dtype="Float32" if t == "f4" else "Float64")
        return pd.Series(np.array([np.nan if x is None else x for x in v], dtype=t))
    if t == "?":
        return pd.Series(v, dtype="boolean" if o["sub"] == "ext" else bool)
    if t == "text":
        return pd.Series(v, dtype="string" if o["sub"] == "string" else object)
    if t == "ts":
        s = pd.Series(np.array(["NaT" if x is None else x for x in v], dtype="M8[%s]" % o["unit"]) if v else np.array([], dtype="M8[%s]" % o["unit"]))
        return s.dt.tz_localize("UTC").dt.tz_convert(o["tz"]) if o["tz"] else s
    if t == "dur":
        return pd.Series(np.array(["NaT" if x is None else x for x in v], dtype="m8[%s]" % o["unit"]) if v else np.array([], dtype="m8[%s]" % o["unit"]))
    if o.get("sub") == "big":
        dic, at = bigpool(o)
        return pd.Series(pd.Categorical.from_codes([-1 if x == NA else at[x - 1] - 1 for x in b], categories=dic))
    perm = o["perm"][0]
    return pd.Series(pd.Categorical.from_codes([-1 if x == NA else perm.index(x) for x in b], categories=[give[i - 1] for i in perm], ordered=o["it"] in ("i1", "u2")))


def run_in(case):
    t, o = case["t"], dict(case["o"])
    _, exp = tpool(t, o)
    perm = o.pop("perm")
    ev = {"op": "in", "t": t, "chunks": case["chunks"], "o": {k: o[k] for k in ("lib", "zc", "aw", "wr", "tz", "u")}, "names": ["a"], "idx": [], "d": {k: o.get(k, "") for k in ("form", "sub", "unit", "it", "m", "pi", "index", "naivetz")}}
    n = sum(c["len"] for c in case["chunks"])
    if t.startswith("dict") and o["u"] == 1 and not case["chunks"]:
        ev["o"]["u"] = 0
    if o["lib"] == "arrow":
        a = mkarrow(case)
        before = a.to_pylist() if t not in ("ts", "dur") else a.cast(pa.int64()).to_pylist()
        kw = dict(zero_copy_only=bool(o["zc"]), writable=bool(o["wr"]), auto_widen=bool(o["aw"]))
        try:
            if o["form"] == "table":
                x = rt.Dataset.from_arrow(pa.table({"a": a}), **kw)["a"]
            else:
                x = rt.FastArray.from_arrow(a, **kw)
        except Exception as e:
            ev["obs"] = {"raised": 1, "why": str(e)[:100]}
            return [ev]
        k, v, _ = read(x)
        wr = int(x.flags.writeable)
        if wr and o["wr"] and n and t in PA:
            x._np[:] = x._np[::-1].copy()
            x._np[0] = 1
        after = a.to_pylist() if t not in ("ts", "dur") else a.cast(pa.int64()).to_pylist()
        ev["obs"] = {"raised": 0, "names": ["a"], "k": k, "v": rk(v, exp), "idx": [], "wr": wr, "frame": int(repr(after) == repr(before))}
        return [ev]
    s = mkpandas(case)
    if o["index"] == "perm":
        s.index = list(range(n))[::-1]
    elif o["index"] == "named":
        s.index = pd.RangeIndex(n, name="who")
    elif o["index"] == "text":
        s.index = ["r%d" % i for i in range(n)]
    df = pd.DataFrame({"a": s})
    before = (df.copy(deep=True), list(df.index))
    keep = o["pi"] == "yes" or o["pi"] == "auto" and o["index"] != "def" and not (o["index"] == "perm" and n == 0 and False)
    if o["tz"] == "" and t == "ts":
        ev["o"]["tz"] = o["naivetz"]
    nm = "who" if o["index"] == "named" else "index"
    try:
        if o["form"] == "dict":
            ds = rt.Dataset({"a": s})
        elif o["form"] == "df":
            ds = rt.Dataset(df)
        else:
            kw = {"tz": o["naivetz"]} if o.get("naivetz") else {}
            ds = rt.Dataset.from_pandas(df, preserve_index={"no": False, "yes": True, "auto": None}[o["pi"]], **kw)
    except Exception as e:
        ev["obs"] = {"raised": 1, "why": str(e)[:100]}
        return [ev]
    if keep:
        ev["names"] = [nm, "a"]
        ev["idx"] = list(range(1, n + 1))
    idx = []
    if nm in ds.keys():
        want = [txt(x) for x in before[1]]
        got = [txt(x) for x in ds[nm]._np.tolist()]
        idx = [i + 1 if i < len(want) and got[i] == want[i] else BAD for i in range(len(got))]
    k, v, _ = read(ds["a"])
    ev["obs"] = {"raised": 0, "names": list(ds.keys()), "k": k, "v": rk(v, exp), "idx": idx, "wr": 1, "frame": int(df.equals(before[0]) and list(df.index) == before[1])}
    return [ev]


def execute(case):
    return {"route": run_route, "out": run_out, "in": run_in}[case["op"]](case)
