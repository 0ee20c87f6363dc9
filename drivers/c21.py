"""C21: cross-tabulation (Accum2)."""
import itertools

import numpy as np
import riptable as rt
import lay
from rgrp import *  # noqa
from proj import NA, BAD, col, same

OPS = ["sum", "nansum", "mean", "nanmean", "min", "nanmin", "max", "nanmax", "var", "nanvar", "std", "nanstd", "median", "nanmedian", "quantile", "nanquantile",
       "first", "last", "count", "reduce", "mode"]
VD = ["f8", "f8", "f4", "i8", "i4", "i2", "i1", "u1", "u4", "?"]
KR = ["i1", "i4", "i8", "u2", "f8", "S", "U", "date", "?"]
KC = ["i1", "i4", "i8", "u1", "f8", "S", "U", "date", "?"]
FORMS = ["arr", "cat", "cat", "unord", "sgb", "codes", "codes", "multi", "b0", "enum"]
SQ = ("var", "nanvar", "std", "nanstd")


def axis(rng, n, kds, form=None):
    form = form or rng.choice(FORMS)
    d = rng.choice(kds)
    a = {"form": form, "kd": [d], "F": [1] * n, "perm": []}
    if form == "multi":
        a["kd"] = [rng.choice(["i4", "S"]), rng.choice(["i4", "S"])]
    if form == "enum":
        a["kd"] = ["S"]
    if form == "codes":
        a["kd"] = [rng.choice(["i4", "S", "U"])]
    pools = []
    for d in a["kd"]:
        m = len(POOL[d])
        p = list(range(1, m + 1))
        if d in ("S", "U"):
            p = p[1:]  # an empty label gets a made-up column name
        if d in ("i1", "i4", "i8", "u1", "u2"):
            p = [x for x in p if x not in ((m,) if d[0] == "u" else (1,))]
        if d == "f8":
            p = [2, 3, 4]
        pools.append(rng.sample(p, rng.randint(1, len(p))))
    if form in ("codes", "enum"):
        a["perm"] = pools[0]
        a["cdt"] = rng.choice(["i1", "i2", "i4", "i8"])
    a["K"] = [[rng.choice(p) for p in pools] for _ in range(n)]
    if form not in ("arr", "b0", "enum") and rng.random() < 0.5:
        a["F"] = [int(rng.random() < 0.75) for _ in range(n)]
        if form != "codes" and not any(a["F"]):
            a["F"][0] = 1
    return a


def mkcase(rng, op=None, vdt=None, n=None, rf=None, cf=None):
    op = op or rng.choice(OPS)
    vdt = vdt or rng.choice(VD)
    n = n or rng.choice([1, 2, 4, 6, 9, 14])
    c = {"op": op, "vdt": vdt, "R": axis(rng, n, KR, rf), "C": axis(rng, n, KC, cf), "p": [0, 1], "how": "arr", "sf": 0, "sfwhere": "", "F": [1] * n, "fwhere": "", "tot": 1,
         "badr": [], "badc": [], "tr": 0}
    c["vals"] = gen_vals(rng, n, vdt, 0 if rng.random() < 0.4 else 0.2)
    if op == "mode":
        c["vdt"] = rng.choice(["f8", "i8", "i4", "i1", "u4"])
        c["vals"] = gen_vals(rng, n, c["vdt"], 0)
    if op == "reduce":
        c["vdt"] = rng.choice(["f8", "i8", "i4"])
        c["vals"] = gen_vals(rng, n, c["vdt"], 0)
    if "quantile" in op:
        c["p"] = rng.choice([[0, 1], [1, 4], [1, 2], [3, 4], [1, 1]])
    if rng.random() < 0.4:
        c["F"] = [int(rng.random() < 0.7) for _ in range(n)]
        c["fwhere"] = rng.choice(["ctor", "op", "both"])
    if rng.random() < 0.35:
        c["sf"], c["sfwhere"] = 1, rng.choice(["ctor", "op"])
    r = rng.random()
    if r < 0.08:
        c["tot"] = 0
    elif r < 0.25 and op not in ("count", "first", "last") and not c["sf"]:
        c["bad"] = [rng.choice(["", "num", "lab"]), rng.choice(["", "num", "lab"]), rng.random(), rng.random()]
    elif r < 0.35 and op != "count" and not c["sf"]:
        c["tr"] = 1
    c["how"] = rng.choice(["arr", "arr", "dict", "ds", "two", "accum2"])
    if c["tr"]:
        c["how"] = "arr"
    if c["how"] == "accum2" and (c["R"]["form"] not in ("arr", "multi") or c["C"]["form"] not in ("arr", "multi") or 0 in c["R"]["F"] + c["C"]["F"]):
        c["how"] = "arr"
    if rng.random() < 0.3:
        c["pre"] = [rng.choice(["sum", "mean", "median", "count", "first"]), rng.randint(0, 1)]
    return c


def ok_case(c):
    if c["vdt"] == "?" and (c["op"] in ("median", "nanmedian", "quantile", "nanquantile", "reduce") or c.get("bad")):
        return False
    if c["op"] == "reduce" and (NA in c["vals"] or c["vdt"] not in ("f8", "i8", "i4")):
        return False
    return True


def cases(tier, rng):
    big = tier == "thorough"
    for op in OPS:
        for vdt in sorted(set(VD)):
            for k in range(6 if big else 2):
                c = mkcase(rng, op, vdt)
                if ok_case(c):
                    yield c
    # many cells (narrow codes would wrap)
    for t in range(40 if big else 8):
        c = mkcase(rng, rng.choice(["sum", "nanmax", "mean", "count", "median"]), rng.choice(["f8", "i4"]), n=150)
        for ax in "RC":
            m = rng.choice([10, 12, 16, 20])
            c[ax] = {"form": rng.choice(["arr", "unord", "sgb"]), "kd": [rng.choice(["iL", "SL"])], "K": [[rng.randint(30, 30 + m)] for _ in range(150)], "F": [1] * 150, "perm": []}
        if c["how"] == "accum2":
            c["how"] = "arr"
        c["tr"] = 0
        yield c
    # small worlds
    for ks in itertools.product([0, 1, 2], repeat=2 if not big else 3):
        for cs in itertools.product([0, 1, 2], repeat=len(ks)):
            for op in ("sum", "mean", "nanmin", "max", "count"):
                if not big and (sum(ks) + 2 * sum(cs) + len(op)) % 2:
                    continue
                n = len(ks)
                yield {"op": op, "vdt": "f8", "p": [0, 1], "how": "arr", "sf": (sum(ks) + sum(cs)) % 2, "sfwhere": "op", "F": [1] * n, "fwhere": "", "tot": 1, "badr": [], "badc": [], "tr": 0,
                       "vals": [1, 4, 9][:n], "R": {"form": "codes", "kd": ["S"], "K": [[max(k, 1) + 1] for k in ks], "F": [int(k > 0) for k in ks], "perm": [2, 3], "cdt": "i1"},
                       "C": {"form": "codes", "kd": ["i4"], "K": [[max(k, 1) + 1] for k in cs], "F": [int(k > 0) for k in cs], "perm": [3, 2], "cdt": "i1"}}
    N = 9000 if big else 1900
    k = 0
    while k < N:
        c = mkcase(rng)
        if ok_case(c):
            k += 1
            yield c


def mkaxis(a):
    """-> (what is given to Accum2, mode, given)"""
    cols = [mkcol([k[j] for k in a["K"]], d) for j, d in enumerate(a["kd"])]
    f = lay.fa(np.array([x == 1 for x in a["F"]], dtype=bool))
    kw = {"filter": f} if 0 in a["F"] else {}
    form = a["form"]
    if form == "arr":
        return cols[0], "lex", []
    if form == "cat":
        return rt.Cat(cols[0], **kw), "lex", []
    if form == "unord":
        return rt.Cat(cols[0], ordered=False, **kw), "first", []
    if form == "sgb":
        return rt.Cat(cols[0], ordered=False, sort_gb=True, **kw), "lex", []
    if form == "b0":
        return rt.Cat(cols[0], base_index=0), "lex", []
    if form == "multi":
        return rt.Cat(cols, **kw), "first", []
    perm = a["perm"]
    if form == "enum":
        m = {10 * (j + 1): POOL["S"][p - 1] for j, p in enumerate(perm)}
        inv = {v: k for k, v in m.items()}
        return rt.Cat(lay.fa(np.array([inv[POOL["S"][k[0] - 1]] for k in a["K"]], dtype=np.int32)), m), "given", [[p] for p in perm]
    codes = np.array([(perm.index(k[0]) + 1 if x else 0) for k, x in zip(a["K"], a["F"])], dtype=a["cdt"])
    return rt.Cat(lay.fa(codes), mkcol(perm, a["kd"][0])), "given", [[p] for p in perm]


def names_of(kd):
    """printed form of every possible column key -> ranks"""
    out = {}
    if len(kd) == 1:
        c = mkcol(list(range(1, len(POOL[kd[0]]) + 1)), kd[0])
        for i in range(len(c)):
            x = c[i]
            s = x.decode("latin-1") if isinstance(x, bytes) else str(x)
            out[s.lower() if kd[0] == "?" else s] = [i + 1]
        return out
    for r in itertools.product(*[range(1, len(POOL[d]) + 1) for d in kd]):
        out[str(tuple(POOL[d][j - 1] for j, d in zip(r, kd)))] = list(r)
    return out


def bad_nums(case, nr, nc):
    b = case.get("bad")
    if not b:
        return [], []
    out = []
    for how, u, m in ((b[0], b[2], nr), (b[1], b[3], nc)):
        out.append([] if not how or m < 2 else [1 + int(u * m)])
    return out


def execute(case):
    n = len(case["vals"])
    op = case["op"]
    ra, rmode, rgiven = mkaxis(case["R"])
    ca, cmode, cgiven = mkaxis(case["C"])
    v = mkvals(case["vals"], case["vdt"])
    vb = v.copy()
    kb = [np.array(x._fa if isinstance(x, rt.Categorical) else x) for x in (ra, ca)]
    F = case["F"]
    F1 = F2 = F
    if case["fwhere"] == "both":
        F1 = [f or i % 2 for i, f in enumerate(F)]
        F2 = [f or (i + 1) % 2 for i, f in enumerate(F)]
    arr = lambda f: lay.fa(np.array([x == 1 for x in f], dtype=bool))  # noqa
    ck, ok = {}, {}
    flts = []
    if case["fwhere"] in ("ctor", "both"):
        ck["filter"] = arr(F1)
        flts.append((ck["filter"], ck["filter"].copy()))
    if case["fwhere"] in ("op", "both"):
        ok["filter"] = arr(F2)
        flts.append((ok["filter"], ok["filter"].copy()))
    if case["sf"]:
        (ck if case["sfwhere"] == "ctor" else ok)["showfilter"] = True
    if not case["tot"]:
        ck["totals"] = False
    if case["how"] == "accum2":
        ds = rt.Dataset({"v": v})
        rk, cc = [], []
        for nm, a, L in (("r", case["R"], rk), ("c", case["C"], cc)):
            for j, d in enumerate(a["kd"]):
                ds["%s%d" % (nm, j)] = mkcol([k[j] for k in a["K"]], d)
                L.append("%s%d" % (nm, j))
        ac = ds.accum2(rk if len(rk) > 1 else rk[0], cc if len(cc) > 1 else cc[0], **ck)
    else:
        ac = rt.Accum2(ra, ca, **ck)
    if case.get("pre"):
        o1, f1 = case["pre"]
        kw = {"filter": arr([i % 2 for i in range(n)])} if f1 else {}
        ac.count(**kw) if o1 == "count" else getattr(ac, o1)(rt.FA(np.arange(n, dtype=np.float64)), **kw)
    nr, nc = ac._cat_rows.unique_count, ac._cat_cols.unique_count
    badr, badc = bad_nums(case, nr, nc)
    if case["C"]["form"] == "multi":
        badc = []  # not supported
    if case["R"]["form"] == "sgb" or case["C"]["form"] == "sgb":
        badr, badc = [], []  # numbers of rows are ambiguous when the display order differs
    for nm, b, how, ax, cat in (("badrows", badr, 0, "R", ac._cat_rows), ("badcols", badc, 1, "C", ac._cat_cols)):
        if b:
            lab = case["bad"][how] == "lab" and case[ax]["kd"] in (["S"], ["U"]) and case[ax]["form"] != "multi"
            ok[nm] = [str(cat.category_array.astype("U")[x - 1]) for x in b] if lab else [x - 1 for x in b]
    if case["tr"]:
        ok["transform"] = True
    if "quantile" in op:
        ok["q"] = [case["p"][0] / case["p"][1]]
    ev = {"t": "trans" if case["tr"] else "acc", "op": op, "p": case["p"], "vals": case["vals"], "F": F, "F0": F1 if case["fwhere"] in ("ctor", "both") else [1] * n, "sf": case["sf"], "tot": case["tot"], "badr": badr, "badc": badc,
          "vb": int(case["vdt"] == "?"), "RK": case["R"]["K"], "RF": case["R"]["F"], "rmode": rmode, "rgiven": rgiven, "CK": case["C"]["K"], "CF": case["C"]["F"], "cmode": cmode, "cgiven": cgiven}
    if case["vdt"] == "f4" and op == "nansum" and n <= (nr + 1) * (nc + 1):
        return []  # riptide_cpp: float32 nansum of an empty group is uninitialised when there are fewer rows than bins
    w = rt.FA(np.arange(n, dtype=np.float64) + 100)
    try:
        if op == "count":
            r = ac.count(**ok)
        elif op == "reduce":
            r = ac.apply_reduce(usersum, v, **ok)
        elif case["how"] == "accum2":
            r = getattr(ac, op)(ds[["v"]] if n % 2 else v, **ok)
        elif case["how"] in ("dict", "ds", "two"):
            d = {"v": v, "w": w} if case["how"] == "two" else {"v": v}
            r = getattr(ac, op)(rt.Dataset(d) if case["how"] == "ds" or n % 2 else d, **ok)
        else:
            r = getattr(ac, op)(v, **ok)
    except (ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError) as e:
        ev["obs"] = {"raised": 1, "what": repr(e)[:120], "frame": 1}
        return [ev]
    frame = int(same(vb, v) and all(same(a, b) for a, b in flts) and all(same(k, np.asarray(x._fa if isinstance(x, rt.Categorical) else x)) for k, x in zip(kb, (ra, ca))))
    sq = op in ("std", "nanstd")
    if case["tr"]:
        ev["obs"] = {"raised": 0, "res": ratcol(r[0] if not isinstance(r, rt.Dataset) else r[list(r.keys())[0]], sq), "frame": frame}
        return [ev]
    if isinstance(r, rt.Multiset):
        ev["obs"] = observe(r["v"], case, sq, frame)
        e2 = dict(ev, vals=[100 + i for i in range(n)], vb=0)
        e2["obs"] = observe(r["w"], case, sq, frame)
        return [ev, e2]
    ev["obs"] = observe(r, case, sq, frame)
    return [ev]


def usersum(x):
    return x.sum()


def observe(r, case, sq, frame):
    labs = list(r.label_get_names())
    kd = case["R"]["kd"]
    assert len(labs) == len(kd), labs
    names = [x for x in r.keys() if x not in labs]
    tot = list(r.summary_get_names())
    foot = r.footer_get_dict()
    o = {"raised": 0, "tot": int(bool(tot)), "rtot": [], "ctot": [], "grand": [NA, 1], "frame": frame, "filtcol": 0, "filtrow": 0}
    if tot:
        assert len(tot) == 1 and names[-1] == tot[0]
        names = names[:-1]
        o["rtot"] = ratcol(r[tot[0]], sq)
        (fname, fd), = foot.items()
        one = lambda x: ratcol(np.asarray([x]), sq)[0]  # noqa
        o["ctot"] = [one(fd[k]) if k in fd else [BAD, 1] for k in names]
        o["grand"] = one(fd[tot[0]])
    o["cells"] = [ratcol(r[k], sq) for k in names]
    if names and names[0] == "Filtered":
        o["filtcol"] = 1
        names = names[1:]
    m = names_of(case["C"]["kd"])
    o["colnames"] = [m.get(k, [BAD]) for k in names]
    gc = []
    for k, d in zip(labs, kd):
        a = r[k]
        s = np.asarray(a.expand_array if isinstance(a, rt.Categorical) else a)
        first = s[0] if len(s) else None
        first = first.decode() if isinstance(first, bytes) else first
        if case["sf"]:
            o["filtrow"] = int(first == "Filtered" if isinstance(first, str) else isinstance(first, (bool, np.bool_)) or ratcol(s[:1])[0][0] == NA or d == "date" and first == 0)
            a = a[1:]
        gc.append(ranks(a, d) if case["sf"] == 0 or np.asarray(s).dtype.kind == mkcol([1], d).dtype.kind else strip(a, d))
    o["rows"] = [list(t) for t in zip(*gc)]
    return o


def strip(a, d):
    """key column that was turned into text to make room for the 'Filtered' label"""
    ref = [str(x) if not isinstance(x, bytes) else x.decode("latin-1") for x in mkcol(list(range(1, len(POOL[d]) + 1)), d).astype("U").tolist()]
    out = []
    for x in np.asarray(a).tolist():
        x = x.decode("latin-1") if isinstance(x, bytes) else x
        out.append(ref.index(x) + 1 if x in ref else BAD)
    return out
