"""C14: membership, distinct values and duplicates."""
import itertools

import numpy as np
import riptable as rt
import tcol
from proj import NA, BAD, same

FN = ["member", "isin", "assoc", "unique", "n", "dup", "drop"]
NF = {k: 1 for k in tcol.KINDS}
NF.update({"f4": 0, "f8": 0, "u1": 0, "u2": 0, "u4": 0, "u8": 0, "tsp": 0})
NEVER = ("f4", "f8", "tsp", "cat", "catu", "cati")
INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]


def nm1(k, fn):
    if k in NEVER:
        return 0
    if fn == "isin" and k in ("date", "dtn", "cate"):
        return 2
    return 1


def gcol(rng, k, n, lim=None, na=None):
    return tcol.gen(rng, k, n, 0.15 if na is None else na, lim)


def size(rng, large=False):
    if large:
        return rng.choice([130, 260, 300])
    return rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 12])


def mk_member(rng, kinds=None, fn="member", large=False):
    kinds = kinds or [rng.choice(tcol.KINDS) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    n, m = size(rng, large), size(rng, large)
    lim = rng.choice([2, 3, 5])
    c = {"fn": fn, "kinds": kinds, "A": [gcol(rng, k, n, lim) for k in kinds], "B": [gcol(rng, k, m, lim) for k in kinds],
         "form": rng.choice(["fa", "np", "list"]) if len(kinds) == 1 else rng.choice(["list", "tuple"]), "bi": 0, "kb": None}
    if fn == "member" and len(kinds) == 1 and not kinds[0].startswith("cat") and rng.random() < 0.2:
        c["bi"] = 1
    if fn == "assoc":
        c["vk"] = rng.choice([k for k in tcol.KINDS if k != "?"])
        c["vals"] = gcol(rng, c["vk"], m, None, 0.1)
        c["ds"] = int(rng.random() < 0.3)
    if len(kinds) == 1 and fn in ("member", "isin"):
        if kinds[0] in INTS and rng.random() < 0.4:
            # the same integers held in another integer type (values in range of both)
            c["kb"] = rng.choice([x for x in INTS if x[0] == kinds[0][0] and x[1] != "8"] if kinds[0][1] != "8" else [kinds[0]])
            c["A"] = [[1 if x == NA else x for x in c["A"][0]]]
            c["B"] = [[1 if x == NA else x for x in c["B"][0]]]
        elif kinds[0] in ("S", "Us", "cat") and rng.random() < 0.4:
            c["kb"] = rng.choice(["S", "Us", "cat"])
            if "cat" in (kinds[0], c["kb"]):
                c["A"] = [[1 if x == NA else min(x, 3) for x in c["A"][0]]]
                c["B"] = [[1 if x == NA else min(x, 3) for x in c["B"][0]]]
        elif kinds[0] == "cati" and rng.random() < 0.4:
            c["kb"] = "i8"
            c["A"] = [[1 if x == NA else x for x in c["A"][0]]]
            c["B"] = [[1 if x == NA else min(x, 4) for x in c["B"][0]]]
    if c["kb"] and "cat" in c["kb"]:
        c["bi"] = 0
    return c


NUMS = [-3, 0, 1, 3, 100, 127, 200, 40000, 2**31 + 5, 2**53, 2**53 + 1, 1.5, 2**40 + 1]
NDT = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"]


def fits(v, dt):
    d = np.dtype(dt)
    if d.kind == "f":
        return d.type(v) == v and float(d.type(v)) == v and int(float(d.type(v))) == int(v)
    if v == 1.5:
        return False
    i = np.iinfo(d)
    return (i.min < v <= i.max) if d.kind == "i" else (0 <= v < i.max)


def mk_num(rng):
    """the same numbers held in two different numeric types"""
    w = rng.choice([1, 1, 1, 2])
    da, db = [rng.choice(NDT) for _ in range(w)], [rng.choice(NDT) for _ in range(w)]
    n, m = rng.randint(1, 8), rng.randint(1, 8)
    lim = rng.choice([6, 8, 11, 13])
    g = lambda dt, n: [rng.choice([i + 1 for i, v in enumerate(NUMS[:lim]) if fits(v, dt)]) for _ in range(n)]
    return {"fn": "num", "kinds": da, "kb": db, "A": [g(d, n) for d in da], "B": [g(d, m) for d in db], "form": rng.choice(["fa", "np", "isin", "isinl"]) if w == 1 else "fa"}


def ex_num(c):
    arr = lambda dt, r: rt.FA(np.array([NUMS[x - 1] for x in r], dtype=dt))
    A, B = [arr(d, r) for d, r in zip(c["kinds"], c["A"])], [arr(d, r) for d, r in zip(c["kb"], c["B"])]
    sa = snap(A + B)
    ev = {"fn": "member", "err": "", "nm": [1] * len(A), "A": rows(c["A"]), "B": rows(c["B"]), "mask": [], "pos": []}
    # types with no common exact type may be refused
    lossy = any(a != b and (np.result_type(a, b).kind == "f") and set(c["A"][i] + c["B"][i]) & {10, 11} for i, (a, b) in enumerate(zip(c["kinds"], c["kb"])))
    if lossy and c["form"].startswith("isin"):
        return []
    try:
        a, b = (A[0], B[0]) if len(A) == 1 else (A, B)
        if c["form"] == "np":
            a, b = a._np, b._np
        if c["form"].startswith("isin"):
            ev["fn"] = "isin"
            m = a.isin(b if c["form"] == "isin" else b._np.tolist())
        else:
            m, p = rt.ismember(a, b)
            ev["pos"] = pos1(np.asarray(p), len(c["B"][0]))
        ev["mask"] = [int(x) for x in np.asarray(m).tolist()]
    except Exception as e:
        if lossy:
            return []
        ev["err"] = type(e).__name__
    ev["frame"] = frame(A + B, sa)
    return [ev]


def mk_isin(rng, k=None, large=False):
    k = k or rng.choice(tcol.KINDS)
    c = mk_member(rng, [k], "isin", large)
    c["form"] = rng.choice(["fa", "fa", "list", "set", "scalar", "cols"])
    if c["form"] == "cols":
        c["kb"] = None
    if c["form"] in ("list", "set", "scalar"):
        c["kb"] = None
        c["B"] = [[x for x in c["B"][0] if x != NA]]
        if c["form"] == "scalar":
            c["B"] = [c["B"][0][:1]]
    return c


def mk_unique(rng, kinds=None, large=False):
    kinds = kinds or [rng.choice(tcol.KINDS) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    n = size(rng, large)
    if n == 0 and len(kinds) > 1:
        n = 1
    c = {"fn": "unique", "kinds": kinds, "K": [gcol(rng, k, n, rng.choice([2, 3, 5])) for k in kinds], "F": [1] * n, "flt": 0,
         "mode": rng.choice(["sorted", "sorted", "lex", "first"]), "want": [rng.randint(0, 1) for _ in range(3)], "form": rng.choice(["fn", "meth"]) if len(kinds) == 1 else "fn"}
    if rng.random() < 0.35:
        c["flt"], c["F"] = 1, [int(rng.random() < 0.6) for _ in range(n)]
    return c


def mk_n(rng, k=None, large=False):
    k = k or rng.choice(tcol.KINDS)
    n = size(rng, large)
    return {"fn": "n", "kinds": [k], "K": [gcol(rng, k, n, rng.choice([1, 2, 3, 5]), rng.choice([0, 0.2, 0.6]))]}


def mk_dup(rng, kinds=None, fn=None, large=False):
    fn = fn or rng.choice(["dup", "drop"])
    kinds = kinds or [rng.choice(tcol.KINDS) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    n = size(rng, large)
    keep = rng.choice([0, 1, 2])
    form = "ds" if fn == "drop" or len(kinds) > 1 or rng.random() < 0.5 else rng.choice(["fa", "hu"])
    return {"fn": fn, "kinds": kinds, "K": [gcol(rng, k, n, rng.choice([1, 2, 3, 5])) for k in kinds], "keep": keep, "form": form,
            "sub": rng.choice(["str", "list"]) if len(kinds) == 1 else rng.choice(["list", "none"]) if fn == "dup" else rng.choice(["list", "list", "none"]), "inp": int(fn == "drop" and rng.random() < 0.3)}


MK = {"member": mk_member, "isin": mk_isin, "unique": mk_unique, "n": mk_n, "dup": mk_dup}


def nolay(c):
    return c["fn"] == "unique" and any(k.startswith("cat") for k in c["kinds"])


def cases(tier, rng):
    big = tier == "thorough"
    for k in tcol.KINDS:
        for _ in range(6 if big else 3):
            for keep in (0, 1, 2):
                for fn in ("dup", "drop"):
                    c = mk_dup(rng, [k], fn)
                    c["keep"] = keep
                    yield c
            for mode in ("sorted", "lex", "first"):
                for flt in (0, 1):
                    c = mk_unique(rng, [k])
                    c["mode"], c["want"] = mode, [1, 1, 1]
                    n = len(c["K"][0])
                    c["flt"], c["F"] = flt, [int(rng.random() < 0.6) for _ in range(n)] if flt else [1] * n
                    yield c
            for _ in range(6):
                yield mk_member(rng, [k])
                yield mk_isin(rng, k)
            yield mk_n(rng, k)
            yield mk_member(rng, [k], "assoc")
        yield mk_dup(rng, [k], large=True)
        yield mk_unique(rng, [k], True)
        yield mk_member(rng, [k], large=True)
        yield mk_n(rng, k, True)
    for k, j in itertools.product(tcol.KINDS, repeat=2):
        if not big and rng.random() < 0.5:
            continue
        yield mk_dup(rng, [k, j])
        yield mk_unique(rng, [k, j])
        yield mk_member(rng, [k, j], rng.choice(["member", "member", "assoc"]))
    # exhaustive tiny columns
    for k in ("i4", "f8", "S", "cat"):
        for n in (1, 2, 3, 4):
            for ks in itertools.product([1, 2, NA], repeat=n):
                if n == 4 and not big and rng.random() < 0.6:
                    continue
                for keep in (0, 1, 2):
                    yield {"fn": "dup", "kinds": [k], "K": [list(ks)], "keep": keep, "form": "ds", "sub": "str", "inp": 0}
                yield {"fn": "drop", "kinds": [k], "K": [list(ks)], "keep": rng.choice([0, 1, 2]), "form": "ds", "sub": "str", "inp": 0}
                yield {"fn": "unique", "kinds": [k], "K": [list(ks)], "F": [1] * n, "flt": 0, "mode": rng.choice(["sorted", "lex", "first"]), "want": [1, 1, 1], "form": "fn"}
    for _ in range(3000 if big else 1200):
        yield mk_num(rng)
    for _ in range(12000 if big else 4000):
        fn = rng.choice(["member", "member", "isin", "assoc", "unique", "unique", "n", "dup", "dup"])
        yield mk_member(rng, None, "assoc") if fn == "assoc" else MK[fn](rng)


def rows(cols):
    return [list(t) for t in zip(*cols)]


def frame(objs, befores):
    for a, b in zip(objs, befores):
        x = a._np if hasattr(a, "_np") else np.asarray(a)
        if not same(x, b):
            return 0
    return 1


def snap(objs):
    return [np.array(a._np if hasattr(a, "_np") else np.asarray(a), copy=True) for a in objs]


def asform(a, form):
    if form == "np" and type(a) is rt.FastArray:
        return a._np
    if form == "list" and type(a) is rt.FastArray and len(a) and a.dtype.kind in "if" and a.dtype.itemsize == 8:
        return a._np.tolist()
    return a


def pos1(p, n):
    """first-match positions -> 1-based (0 = none)"""
    out = []
    for x in p.tolist():
        out.append(0 if x == int(np.iinfo(p.dtype).min) else x + 1 if 0 <= x < n else BAD)
    return out


def unsupported(c):
    if c["fn"] in ("member", "assoc"):
        ks = c["kinds"]
        if "?" in ks:  # bool keys are refused by ismember
            return True
    return False


def execute(c):
    fn = c["fn"]
    if fn == "num":
        return ex_num(c)
    if unsupported(c):
        return []
    ev = {"fn": fn, "err": "", "frame": 1}
    if fn in ("member", "isin", "assoc"):
        kinds = c["kinds"]
        kb = [c["kb"]] if c["kb"] else kinds
        A = [tcol.mk(k, r) for k, r in zip(kinds, c["A"])]
        B = [tcol.mk(k, r) for k, r in zip(kb, c["B"])]
        sa, sb = snap(A), snap(B)
        ev.update(nm=[nm1(k, fn) if len(kinds) == 1 else 1 for k in kinds], A=rows(c["A"]), B=rows(c["B"]), mask=[], pos=[], res=[], vals=[])
        if c["kb"] and "cat" in (kinds[0], c["kb"]):
            ev["nm"] = [0]
        try:
            if fn == "isin":
                if c["form"] in ("fa", "cols"):
                    b = B[0]
                else:
                    b = [tcol.POOL[kb[0]][x - 1] for x in c["B"][0]]
                    if c["form"] == "scalar":
                        if not b:
                            return []
                        b = b[0]
                    else:
                        if kinds[0] == "cate" and not b:
                            return []
                        b = set(b) if c["form"] == "set" else b
                if c["form"] == "cols":
                    d = rt.Dataset({"x": A[0], "y": A[0]})
                    r = d.isin(b)
                    m = r.y
                else:
                    m = A[0].isin(b)
                ev["mask"] = [int(x) for x in np.asarray(m).tolist()]
            else:
                if len(kinds) == 1:
                    a, b = asform(A[0], c["form"]), asform(B[0], c["form"])
                else:
                    a, b = (list(A), list(B)) if c["form"] == "list" else (tuple(A), tuple(B))
                if fn == "assoc":
                    v = tcol.mk(c["vk"], c["vals"])
                    ev["vals"] = c["vals"]
                    if c["ds"]:
                        r = rt.assoc_copy(a, b, rt.Dataset({"v": v})).v
                    else:
                        if type(v) is not rt.FastArray:
                            return []
                        r = rt.assoc_copy(a, b, v)
                    ev["res"] = tcol.rd(r, c["vk"])
                elif c["bi"]:
                    m, p = rt.ismember(a, b, base_index=1)
                    ev["pos"] = [x if 0 <= x <= len(c["B"][0]) else BAD for x in np.asarray(p).tolist()]
                    ev["mask"] = [int(x > 0) for x in ev["pos"]]
                else:
                    m, p = rt.ismember(a, b)
                    ev["mask"] = [int(x) for x in np.asarray(m).tolist()]
                    ev["pos"] = pos1(np.asarray(p), len(c["B"][0]))
        except Exception as e:
            ev["err"] = type(e).__name__
        ev["frame"] = frame(A + B, sa + sb)
        return [ev]
    kinds = c["kinds"]
    K = [tcol.mk(k, r) for k, r in zip(kinds, c["K"])]
    n = len(c["K"][0])
    sk = snap(K)
    ev["K"] = rows(c["K"])
    if fn == "unique":
        F = rt.FA(np.array([f == 1 for f in c["F"]], dtype=bool))
        kw = {"sorted": c["mode"] != "first", "lex": c["mode"] == "lex"}
        if c["flt"]:
            kw["filter"] = F
        w = c["want"]
        kw.update(return_index=bool(w[0]), return_inverse=bool(w[1]), return_counts=bool(w[2]))
        ev.update(F=c["F"], nf=[NF[k] for k in kinds], mode=c["mode"], want=w, un=[], idx=[], inv=[], cnt=[], cats=[])
        single = len(kinds) == 1
        if not single and c["mode"] == "lex" and sum(k.itemsize for k in K) % 2:
            return []  # the engine ignores trailing bytes of rows of odd size (see DESIGN)
        if single and kinds[0].startswith("cat"):
            if c["mode"] != "sorted":
                return []
            if kinds[0] == "cate":
                ev["mode"] = "first"
            if kinds[0] != "cate":
                # the stored categories in their own order; with a filter those that are left
                if not c["flt"]:
                    ev["cats"] = [[i + 1] for i in range(5)]
                ev["F"] = [int(f == 1 and k != NA) for f, k in zip(c["F"], c["K"][0])]
        try:
            a = K[0] if single else list(K)
            r = a.unique(**kw) if c["form"] == "meth" and not kinds[0].startswith("cat") else rt.unique(a, **kw)
            r = r if isinstance(r, tuple) else (r,)
            if len(r) != 1 + sum(w):
                raise AssertionError("returns")
            u = r[0]
            u = [u] if isinstance(u, np.ndarray) else u
            ev["un"] = rows([rdu(x, k) for x, k in zip(u, kinds)])
            if len(u) != len(kinds):
                ev["un"] = [[BAD]]
            j = 1
            if w[0]:
                ev["idx"] = [x + 1 if 0 <= x < n else NA if x < 0 else BAD for x in np.asarray(r[j]).tolist()]
                j += 1
            if w[1]:
                ev["inv"] = [x + 1 if x >= -1 else BAD for x in np.asarray(r[j]).tolist()]
                j += 1
            if w[2]:
                ev["cnt"] = [int(x) for x in np.asarray(r[j]).tolist()]
        except Exception as e:
            ev["err"] = type(e).__name__
    elif fn == "n":
        ev.update(cntna=int(kinds[0] == "cate"), n=-1)
        try:
            ev["n"] = int(K[0].nunique())
        except Exception as e:
            ev["err"] = type(e).__name__
    elif fn == "dup":
        ev.update(keep=c["keep"], mask=[])
        keep = [False, "first", "last"][c["keep"]]
        try:
            if c["form"] == "ds":
                d = {"k%d" % i: a for i, a in enumerate(K)}
                if c["sub"] != "none":
                    d["v"] = rt.FA(np.arange(n))
                ds = rt.Dataset(d)
                r = ds.duplicated(keep=keep) if c["sub"] == "none" else ds.duplicated("k0" if c["sub"] == "str" else ["k%d" % i for i in range(len(K))], keep)
            else:
                r = K[0].duplicated(keep, high_unique=c["form"] == "hu")
            ev["mask"] = [int(x) for x in np.asarray(r).tolist()]
        except Exception as e:
            ev["err"] = type(e).__name__
    else:
        ev.update(keep=c["keep"], rows=[], okeys=[], names=[], cols=[])
        keep = [False, "first", "last"][c["keep"]]
        try:
            d = {"k%d" % i: a for i, a in enumerate(K)}
            if c["sub"] != "none":
                d["v"] = rt.FA(np.arange(1, n + 1, dtype=np.int64))
                d["s"] = rt.FA(np.array(["r%d" % (i + 1) for i in range(n)], dtype="S6"))
            ds = rt.Dataset(d)
            ev["cols"] = list(ds.keys())
            sub = None if c["sub"] == "none" else "k0" if c["sub"] == "str" else ["k%d" % i for i in range(len(K))]
            r = ds.drop_duplicates(sub, keep=keep, inplace=bool(c["inp"]))
            if c["inp"]:
                r = ds
            ev["names"] = list(r.keys())
            ev["okeys"] = rows([tcol.rd(r["k%d" % i], k) for i, k in enumerate(kinds)])
            if c["sub"] == "none":
                ev["rows"] = [-1]
            else:
                ev["rows"] = [int(x) for x in r.v._np.tolist()]
                if [b.decode() for b in r.s._np.tolist()] != ["r%d" % x for x in ev["rows"]]:
                    ev["rows"] = [BAD]
        except Exception as e:
            ev["err"] = type(e).__name__
    ev["frame"] = frame(K, sk)
    return [ev]


def rdu(x, k):
    """unique values of a column, which may come back as the plain values of a Categorical"""
    if k.startswith("cat"):
        p = tcol.POOL[k]
        out = []
        if isinstance(x, rt.Categorical):
            return tcol.rd(x, k)
        for v in x.tolist():
            v = v.decode() if isinstance(v, bytes) else v
            out.append(p.index(v) + 1 if v in p else NA if v in ("", "Filtered", "!<-2147483648>") or v == -(2**63) else BAD)
        return out
    return tcol.rd(x, k)
