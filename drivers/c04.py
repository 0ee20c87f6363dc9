"""C04: sorting - table histories and array functions."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import riptable as rt
import tcol
from proj import NA, BAD, same

LOWNA = {k: (1, 0) for k in tcol.KINDS}
for _k in ("u1", "u2", "u4", "u8"):
    LOWNA[_k] = (0, 1)
for _k in ("f4", "f8", "tsp"):
    LOWNA[_k] = (0, 0)
LOWNA["v"] = (1, 0)
LOWNA["i4u"] = (0, 1)


def size(rng, large=False):
    return rng.choice([40, 130, 300]) if large else rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 8])


def asc_for(rng, by):
    r = rng.random()
    if r < 0.3:
        return [1]
    if r < 0.5:
        return [0]
    return [rng.randint(0, 1) for _ in by]


def hist(rng, kinds=None, large=False, steps=None):
    kinds = kinds or [rng.choice(tcol.KINDS) for _ in range(rng.choice([1, 2, 2, 3]))]
    n = size(rng, large)
    lim = rng.choice([2, 3, 5])
    cols = {"k%d" % i: {"kind": k, "v": tcol.gen(rng, k, n, 0.15, lim)} for i, k in enumerate(kinds)}
    cols["v"] = {"kind": "v", "v": list(range(1, n + 1))}
    c = {"fn": "hist", "cols": [[m, d["kind"], d["v"]] for m, d in cols.items()], "ops": []}
    cur = {m: d["kind"] for m, d in cols.items()}
    cont = {m: list(d["v"]) for m, d in cols.items()}
    nrows, used = n, 0
    viewed = []
    for _ in range(steps if steps is not None else rng.choice([1, 2, 3, 4, 5, 6])):
        ks = [m for m in cur if m != "v"]
        o = rng.choice(["inplace", "copy", "view", "view", "view", "off", "on", "cell", "cell", "repl", "dscopy", "cols", "rows", "drop", "rename", "save", "reint"])
        if o in ("inplace", "copy", "view"):
            by = rng.sample(ks, rng.randint(1, len(ks))) if ks else ["v"]
            if rng.random() < 0.15:
                by = by + ["v"] if "v" not in by else by
            if o == "view" and viewed and rng.random() < 0.5 and all(b in cur for b in viewed):
                by = list(viewed)
            op = {"o": o, "by": by, "asc": asc_for(rng, by)}
            if o == "view":
                viewed = by
            if o != "view":
                for m in cont:
                    cont[m] = None
        elif o in ("off", "on", "dscopy"):
            op = {"o": o}
        elif o == "save":
            if rng.random() < 0.6 or nrows == 0:
                continue
            op = {"o": o}
        elif o == "cell":
            if nrows == 0 or not ks:
                continue
            m = rng.choice(ks)
            k = cur[m]
            if k == "i4u":
                continue
            if k in ("S", "U"):
                if cont[m] is None:
                    continue
                x = rng.choice(cont[m])
            else:
                x = tcol.gen(rng, k, 1, 0.15)[0]
            i = rng.randint(1, nrows)
            op = {"o": o, "c": m, "i": i, "x": x}
            if cont[m] is not None:
                cont[m][i - 1] = x
        elif o == "repl":
            if not ks:
                continue
            m = rng.choice(ks)
            k = rng.choice(tcol.KINDS) if rng.random() < 0.5 or cur[m] == "i4u" else cur[m]
            v = tcol.gen(rng, k, nrows, 0.15)
            op = {"o": o, "c": m, "kind": k, "v": v, "na": list(LOWNA[k])}
            cur[m], cont[m] = k, list(v)
        elif o == "reint":
            ms = [m for m in ks if cur[m] == "i4"]
            if not ms:
                continue
            m = rng.choice(ms)
            op = {"o": o, "c": m}
            cur[m], cont[m] = "i4u", None
        elif o == "cols":
            keep = [m for m in cur if m == "v" or rng.random() < 0.7]
            op = {"o": o, "keep": keep}
            cur = {m: cur[m] for m in keep}
            cont = {m: cont[m] for m in keep}
        elif o == "rows":
            if nrows == 0:
                continue
            idx = sorted(rng.sample(range(1, nrows + 1), rng.randint(0, nrows))) if rng.random() < 0.5 else [rng.randint(1, nrows) for _ in range(rng.randint(0, nrows))]
            how = rng.choice(["fancy", "bool"])
            if how == "bool":
                idx = sorted(set(idx))
            op = {"o": o, "idx": idx, "how": how}
            nrows = len(idx)
            for m in cont:
                cont[m] = None
        elif o == "drop":
            if len(ks) < 2:
                continue
            m = rng.choice(ks)
            op = {"o": o, "c": m}
            del cur[m], cont[m]
        else:
            if not ks:
                continue
            m = rng.choice(ks)
            used += 1
            t = "r%d" % used
            op = {"o": o, "c": m, "to": t}
            cur = {(t if x == m else x): y for x, y in cur.items()}
            cont = {(t if x == m else x): y for x, y in cont.items()}
            viewed = [t if x == m else x for x in viewed]
        c["ops"].append(op)
    return c


def arr(rng, fn=None, kind=None, large=False):
    fn = fn or rng.choice(["lexsort", "lexsort", "argsort", "sort", "issorted", "search"])
    n = size(rng, large)
    if fn == "lexsort":
        n = max(n, 1)
        kinds = [kind or rng.choice(tcol.KINDS)] + [rng.choice(tcol.KINDS) for _ in range(rng.choice([0, 1, 1, 2]))]
        rng.shuffle(kinds)
        asc = [1] * len(kinds) if rng.random() < 0.4 else [rng.randint(0, 1)] * len(kinds) if rng.random() < 0.4 else [rng.randint(0, 1) for _ in kinds]
        return {"fn": fn, "kinds": kinds, "V": [tcol.gen(rng, k, n, 0.15, rng.choice([2, 3, 5])) for k in kinds], "asc": asc, "form": rng.choice(["list", "arr", "fa"])}
    kind = kind or rng.choice(tcol.KINDS)
    if fn == "search":
        kind = kind if kind in tcol.POOL and kind not in ("?", "cate", "cat", "catu", "cati", "date", "dtn", "tsp", "dspan") else rng.choice(["i1", "i4", "i8", "u1", "u4", "u8", "f4", "f8", "S", "U"])
        v = sorted(tcol.gen(rng, kind, max(n, 1), 0))
        return {"fn": fn, "kinds": [kind], "V": [v], "x": tcol.gen(rng, kind, rng.randint(1, 6), 0), "right": rng.randint(0, 1), "asc": [1], "form": rng.choice(["fn", "meth", "scalar"])}
    v = tcol.gen(rng, kind, n, 0.15, rng.choice([2, 3, 5]))
    if fn == "issorted":
        n = max(n, 1)
        v = v or [1]
        if rng.random() < 0.7:
            na = LOWNA[kind][0]
            v = sorted(v, key=lambda x: (-1 if na else NA) if x == NA else x)
            if len(v) > 1 and rng.random() < 0.4:
                i = rng.randrange(len(v) - 1)
                v[i], v[i + 1] = v[i + 1], v[i]
    return {"fn": fn, "kinds": [kind], "V": [v], "asc": [1], "form": rng.choice(["fn", "meth"])}


def cases(tier, rng):
    big = tier == "thorough"
    for k in tcol.KINDS:
        for fn in ("lexsort", "argsort", "sort", "issorted", "search"):
            for _ in range(8 if big else 4):
                yield arr(rng, fn, k)
            yield arr(rng, fn, k, True)
        for _ in range(10 if big else 4):
            yield hist(rng, [k])
            yield hist(rng, [k, rng.choice(tcol.KINDS)])
        yield hist(rng, [k], True, 2)
    # every 3-row two-key table, each direction
    for a in itertools.product([1, 2, NA], repeat=3):
        for b in itertools.product([1, 2], repeat=3):
            if not big and rng.random() < 0.5:
                continue
            asc = [rng.randint(0, 1), rng.randint(0, 1)]
            k = [rng.choice(tcol.PLAIN[:10]), rng.choice(tcol.KINDS)]
            yield {"fn": "hist", "cols": [["k0", k[0], list(a)], ["k1", k[1], list(b)], ["v", "v", [1, 2, 3]]],
                   "ops": [{"o": "view", "by": ["k0", "k1"], "asc": asc}, {"o": "dscopy"}, {"o": "copy", "by": ["k1", "k0"], "asc": asc[::-1]}, {"o": "inplace", "by": ["k0"], "asc": [asc[0]]}]}
    # the same bits seen as another type, sorted before and after
    for _ in range(120 if big else 40):
        n = rng.randint(2, 6)
        asc = [rng.randint(0, 1)]
        vw = {"o": "view", "by": ["k0"], "asc": asc}
        yield {"fn": "hist", "cols": [["k0", "i4", tcol.gen(rng, "i4", n, 0.15)], ["v", "v", list(range(1, n + 1))]],
               "ops": [vw, {"o": "reint", "c": "k0"}, dict(vw), {"o": "rename", "c": "k0", "to": "r1"}]}
    for _ in range(9000 if big else 2200):
        yield hist(rng)
    for _ in range(4000 if big else 1200):
        yield arr(rng)


def mkc(kind, v):
    return rt.FA(np.array(v, dtype=np.int64)) if kind == "v" else tcol.mk(kind, v)




def rdc(a, kind):
    if kind == "v":
        return [int(x) for x in a._np.tolist()] if type(a) is rt.FastArray else [BAD] * len(a)
    if kind == "i4u":
        if a.dtype != np.uint32:
            return [BAD] * len(a)
        return [U2[x] if x in U2 else BAD for x in a._np.tolist()]
    return tcol.rd(a, kind)


# i4 pool -5,0,3,77,100 and sentinel -2**31 seen as uint32, in ascending order
_u = sorted([x % 2**32 for x in tcol.POOL["i4"]] + [2**31])
U2 = {x: i + 1 for i, x in enumerate(_u)}


def shown(ds, n, vpos):
    """1-based row numbers as displayed"""
    if n == 0:
        return []
    if n > 12:
        m = {v: i + 1 for i, v in enumerate(ds["v"]._np.tolist())}
        if len(m) != n:
            return None
        if ds._sort_display:
            return [m.get(x, BAD) for x in np.asarray(ds.get_sorted_col_data("v")).tolist()]
        return list(range(1, n + 1))
    lines = str(ds).split("\n")
    i = next(j for j, t in enumerate(lines) if t.lstrip().startswith("-"))
    out = []
    for t in lines[i + 1 :]:
        w = t.split()
        if not w or not w[0].isdigit():
            break
        out.append(int(w[0]) + 1)
    return out


def ex_hist(c):
    kinds = {m: k for m, k, _ in c["cols"]}
    ds = rt.Dataset({m: mkc(k, v) for m, k, v in c["cols"]})
    out = []
    callers = []
    init = [{"n": m, "v": v, "na": list(LOWNA[k])} for m, k, v in c["cols"]]

    def obs(ev, d):
        n = d.get_nrows()
        ev["names"] = list(d.keys())
        ev["vals"] = [rdc(d[m], kinds[m]) for m in d.keys()]
        s = shown(d, n, None)
        if s is None:
            return None
        ev["shown"] = s
        return ev

    ev = obs({"fn": "hist", "init": init, "err": "", "frame": 1, "op": {"o": "none"}}, ds)
    out.append(ev)
    for op in c["ops"]:
        o = op["o"]
        spec = dict(op)
        ev = {"fn": "hist", "op": spec, "err": "", "frame": 1, "names": [], "vals": [], "shown": []}
        old = ds
        before = {m: np.array(old[m]._np, copy=True) for m in old.keys()}
        spec = {a: (list(b) if isinstance(b, list) else b) for a, b in spec.items()}
        ev["op"] = spec
        sb = shown(old, old.get_nrows(), None)
        newobj = False
        tmp = None
        try:
            if o in ("inplace", "copy", "view"):
                by = list(op["by"]) if len(op["by"]) > 1 or len(op["asc"]) > 1 else op["by"][0]
                asc = [bool(x) for x in op["asc"]]
                if len(asc) == 1:
                    asc = asc[0]
                elif c.get("fa", 0):
                    asc = np.array(asc)
                given = list(by) if isinstance(by, list) else by
                callers.append((by, given))
                r = {"inplace": ds.sort_inplace, "copy": ds.sort_copy, "view": ds.sort_view}[o](by, ascending=asc)
                if o == "copy":
                    newobj = True
                    ds = r
            elif o == "off":
                ds.sorts_off()
            elif o == "on":
                ds.sorts_on()
            elif o == "cell":
                m = op["c"]
                ds[m]._np[op["i"] - 1 : op["i"]] = tcol.mk(kinds[m], [op["x"]])._np
            elif o == "repl":
                ds[op["c"]] = tcol.mk(op["kind"], op["v"])
                kinds[op["c"]] = op["kind"]
                spec.pop("kind")
            elif o == "reint":
                m = op["c"]
                ds[m] = rt.FA(ds[m]._np.copy().view(np.uint32))
                kinds[m] = "i4u"
                spec.update(o="repl", v=[U2[x] for x in ds[m]._np.tolist()], na=[0, 1])
            elif o == "dscopy":
                newobj = True
                ds = ds.copy()
            elif o == "save":
                newobj = True
                tmp = tempfile.mkdtemp()
                ds.save(os.path.join(tmp, "t.sds"))
                ds = rt.load_sds(os.path.join(tmp, "t.sds"))
            elif o == "cols":
                newobj = True
                ds = ds[op["keep"]]
            elif o == "rows":
                newobj = True
                idx = [i - 1 for i in op["idx"]]
                n = ds.get_nrows()
                how = op["how"]
                spec.pop("how")
                if how == "bool":
                    mk = np.zeros(n, dtype=bool)
                    mk[idx] = True
                    spec["idx"] = [i + 1 for i in range(n) if mk[i]]
                    ds = ds[rt.FA(mk), :]
                else:
                    ds = ds[rt.FA(np.array(idx, dtype=np.int32)), :]
            elif o == "drop":
                ds.col_remove(op["c"])
            elif o == "rename":
                ds.col_rename(op["c"], op["to"])
                kinds[op["to"]] = kinds.pop(op["c"])
        except Exception as e:
            ev["err"] = type(e).__name__
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
        if not ev["err"]:
            if obs(ev, ds) is None:
                return out
            if newobj:
                ok = all(same(old[m]._np, b) for m, b in before.items()) and list(old.keys()) == list(before) and shown(old, old.get_nrows(), None) == sb
                ev["frame"] = int(ok and old is not ds)
            if any(x != y for x, y in callers):
                ev["frame"] = 0
        out.append(ev)
        if ev["err"]:
            break
    return out


def execute(c):
    if c["fn"] == "hist":
        return ex_hist(c)
    fn = c["fn"]
    A = [tcol.mk(k, v) for k, v in zip(c["kinds"], c["V"])]
    sn = [np.array(a._np, copy=True) for a in A]
    n = len(c["V"][0])
    ev = {"fn": fn, "err": "", "frame": 1, "keys": [{"v": v, "na": list(LOWNA[k]), "asc": a} for k, v, a in zip(c["kinds"], c["V"], c["asc"])], "idx": [], "res": [], "ans": -1, "x": c.get("x", []), "right": c.get("right", 0)}
    mutates = False
    try:
        if fn == "lexsort":
            asc = [bool(x) for x in c["asc"]][::-1]
            kw = {}
            if len(set(asc)) == 1 and c["form"] != "arr":
                kw = {} if asc[0] else {"ascending": False}
            else:
                kw = {"ascending": {"list": asc, "arr": np.array(asc), "fa": rt.FA(asc)}[c["form"]]}
            ev["idx"] = [x + 1 for x in np.asarray(rt.lexsort(A[::-1], **kw)).tolist()]
        elif fn == "argsort":
            ev["idx"] = [x + 1 for x in np.asarray(rt.argsort(A[0]) if c["form"] == "fn" else A[0].argsort()).tolist()]
        elif fn == "sort":
            if c["form"] == "fn" and type(A[0]) is rt.FastArray:
                ev["res"] = tcol.rd(rt.sort(A[0]), c["kinds"][0])
            else:
                mutates = True
                A[0].sort()
                ev["res"] = tcol.rd(A[0], c["kinds"][0])
        elif fn == "issorted":
            ev["ans"] = int(bool(rt.issorted(A[0]) if c["form"] == "fn" else A[0].issorted()))
        elif fn == "search":
            x = tcol.mk(c["kinds"][0], c["x"])
            side = "right" if c["right"] else "left"
            if c["form"] == "fn":
                r = rt.searchsorted(A[0], x, side=side)
            elif c["form"] == "meth":
                r = A[0].searchsorted(x, side=side)
            else:
                r = [rt.searchsorted(A[0], x[i], side=side) for i in range(len(x))]
            ev["res"] = [int(q) for q in np.asarray(r).tolist()]
    except Exception as e:
        ev["err"] = type(e).__name__
    if not mutates:
        ev["frame"] = int(all(same(a._np, b) for a, b in zip(A, sn)))
    return [ev]
