"""SDS persistence: histories of save / save-into / append / concat / load / stack on real files in a scratch directory."""
import os
import shutil
import tempfile
import numpy as np
import riptable as rt
import tcol
from proj import NA, BAD

KINDS = tcol.KINDS + ["catm", "cat0", "cato", "catx", "i4d2", "f8d2", "c16", "tz", "dtnL", "obj1"][:9]
STACKK = tcol.KINDS + ["catm", "cato", "tz"]
_P2 = [("a", 1), ("a", 2), ("b", 1), ("b", 2), ("c", 9)]


def gen(rng, kind, n):
    if kind == "catm" and n:  # at least one category: the engine cannot stack a multi-key Categorical with rows but no categories
        return [rng.randint(1, 5)] + [NA if rng.random() < 0.15 else rng.randint(1, 5) for _ in range(n - 1)]
    if kind in ("catm", "i4d2", "f8d2", "c16", "tz", "dtnL", "catx"):
        return [NA if kind in ("catm", "tz", "dtnL", "catx") and rng.random() < 0.15 else rng.randint(1, 5) for _ in range(n)]
    if kind == "cat0":
        return [rng.randint(1, 5) for _ in range(n)]
    if kind == "cato":
        return tcol.gen(rng, "cat", n)
    return tcol.gen(rng, kind, n)


def mk(kind, r):
    n = len(r)
    if kind == "catm":
        if n == 0:
            return rt.Categorical([rt.FA(["a"]), rt.FA([1])])[:0]
        f = rt.FA([x != NA for x in r])
        a = rt.FA([_P2[x - 1][0] if x != NA else "z" for x in r])
        b = rt.FA(np.array([_P2[x - 1][1] if x != NA else 0 for x in r], dtype=np.int32))
        return rt.Categorical([a, b], filter=f)
    if kind == "cat0":
        return rt.Categorical(np.array([x - 1 for x in r], dtype=np.int8), tcol.POOL["cat"], base_index=0)
    if kind == "cato":  # unordered categories, in non-alphabetical order, some unused
        codes = np.array([0 if x == NA else 6 - x for x in r], dtype=np.int8)
        return rt.Categorical(codes, list(reversed(tcol.POOL["cat"])), ordered=False)
    if kind == "catx":  # float categories
        cats = np.array([1.5, 2.5, 3.5, 4.5, 5.5])
        codes = np.array([0 if x == NA else x for x in r], dtype=np.int8)
        return rt.Categorical(codes, cats)
    if kind == "i4d2":
        return rt.FA(np.array([[x, 10 * x] for x in r], dtype=np.int32).reshape(n, 2))
    if kind == "f8d2":
        return rt.FA(np.array([[x + 0.5] * 3 for x in r], dtype=np.float64).reshape(n, 3))
    if kind == "c16":
        return rt.FA(np.array([x + 2j for x in r], dtype=np.complex128))
    if kind == "tz":
        p = tcol.POOL["dtn"]
        return rt.DateTimeNano(np.array([0 if x == NA else p[x - 1] for x in r], dtype=np.int64), from_tz="GMT", to_tz="DUBLIN")
    if kind == "dtnL":
        p = tcol.POOL["dtn"]
        return rt.DateTimeNano(np.array([0 if x == NA else p[x - 1] for x in r], dtype=np.int64), from_tz="GMT", to_tz="UTC")
    return tcol.mk(kind, r)


def val(a, kind):
    n = len(a)
    bad = [BAD] * n
    if kind == "catm":
        if not isinstance(a, rt.Categorical) or not a.ismultikey:
            return bad
        g = [np.asarray(x).tolist() for x in a.category_dict.values()]
        lab = [(x.decode() if isinstance(x, bytes) else x, y) for x, y in zip(*g)]
        return [NA if c == 0 else (_P2.index(lab[c - 1]) + 1 if 0 < c <= len(lab) and lab[c - 1] in _P2 else BAD) for c in a._np.tolist()]
    if kind in ("cat0", "cato"):
        return tcol.rd(a, "cat", strict=False)
    if kind == "catx":
        if not isinstance(a, rt.Categorical) or a.category_array.dtype.kind != "f":
            return bad
        lab = a.category_array.tolist()
        return [NA if c == 0 else (int(lab[c - 1] - 0.5) if 0 < c <= len(lab) and lab[c - 1] in (1.5, 2.5, 3.5, 4.5, 5.5) else BAD) for c in a._np.tolist()]
    if kind in ("i4d2", "f8d2"):
        x = np.asarray(a)
        if x.ndim != 2:
            return bad
        e = [[r, 10 * r] for r in x[:, 0]] if kind == "i4d2" else [[r] * 3 for r in x[:, 0]]
        return [int(x[i, 0]) if list(x[i]) == e[i] else BAD for i in range(n)]
    if kind == "c16":
        return [int(x.real) if isinstance(x, complex) and x.imag == 2 else BAD for x in np.asarray(a).tolist()]
    if kind in ("tz", "dtnL"):
        if type(a) is not rt.DateTimeNano:
            return bad
        p = tcol.POOL["dtn"]
        return [NA if x in (0, -(2**63)) else p.index(x) + 1 if x in p else BAD for x in a._np.tolist()]
    return tcol.rd(a, kind)


def cats(a):
    """category labels as small integers (position in a fixed dictionary of known labels)"""
    try:
        if a.isenum:
            return sorted(int(k) if not isinstance(k, (str, bytes)) else int(v) for k, v in a.category_mapping.items())
        ls = [np.asarray(x).tolist() for x in a.category_dict.values()]
    except Exception:
        return [BAD]
    out = []
    for l in ls:
        out.append(len(l))
        for x in l:
            x = x.decode("latin-1") if isinstance(x, bytes) else x
            out.append(ord(x[0]) + 1000 * len(x) if isinstance(x, str) and x else int(x * 2) if not isinstance(x, str) else -1)
    return out


def attrs(a):
    if isinstance(a, rt.Categorical):
        g = a.grouping
        return "cat %s base=%s ord=%s sort=%s %s" % (a.category_mode.name, a.base_index, a.ordered, g.isdisplaysorted, a._np.dtype)
    s = str(a.dtype) + " nd%d" % a.ndim
    if isinstance(a, rt.DateTimeNano):
        s += " %s>%s" % (a._timezone._from_tz, a._timezone._to_tz)
    return s


def kindof(n):
    return n.split("_", 1)[1] if "_" in n else None


def desc(x, path=()):
    """object -> preorder list of nodes"""
    if isinstance(x, rt.Struct):
        cls = "Dataset" if isinstance(x, rt.Dataset) else type(x).__name__
        lab = ",".join(x.label_get_names()) if isinstance(x, rt.Dataset) else ""
        out = [{"p": list(path), "c": cls, "a": lab, "v": [], "g": []}]
        for k, v in x.items():
            out += desc(v, path + (k,))
        return out
    if isinstance(x, np.ndarray) and x.ndim > 0:
        k = kindof(path[-1]) if path else ROOTK[0]
        c = type(x).__name__
        if c == "FastArray":
            c += ":" + x.dtype.kind
        return [{"p": list(path), "c": c, "a": attrs(x), "v": val(x, k) if k else [int(y) for y in x.tolist()], "g": cats(x) if isinstance(x, rt.Categorical) else []}]
    # scalars
    if isinstance(x, (bool, np.bool_)):
        return [{"p": list(path), "c": "scalar:bool", "a": "", "v": [int(x)], "g": []}]
    if isinstance(x, (int, np.integer)):
        return [{"p": list(path), "c": "scalar:int", "a": "", "v": [int(x)], "g": []}]
    if isinstance(x, (float, np.floating)):
        return [{"p": list(path), "c": "scalar:float", "a": "", "v": [int(x * 4)], "g": []}]
    if isinstance(x, (str, bytes)):
        return [{"p": list(path), "c": "scalar:" + ("str" if isinstance(x, str) else "bytes"), "a": x.decode("latin-1") if isinstance(x, bytes) else str(x), "v": [], "g": []}]
    return [{"p": list(path), "c": "other:" + type(x).__name__, "a": "", "v": [BAD], "g": []}]


ROOTK = [None]


# ---------------------------------------------------------------- generation
def gds(rng, n=None, nc=None, kinds=KINDS, names=None):
    n = rng.choice([0, 1, 2, 3, 5, 8]) if n is None else n
    if names:
        cols = rng.sample(names, rng.randint(1, len(names)))
    else:
        cols = ["c%d_%s" % (i, rng.choice(kinds)) for i in range(rng.randint(1, 4) if nc is None else nc)]
    return {"ds": [[c, gen(rng, kindof(c), n)] for c in cols], "lab": cols[0] if rng.random() < 0.15 and kindof(cols[0]) not in ("i4d2", "f8d2") else "",
            "sort": int(rng.random() < 0.1)}


def gst(rng, depth):
    items = []
    for i in range(rng.randint(1, 4)):
        q = rng.random()
        if q < 0.4:
            items.append(["d%d" % i, gds(rng, nc=rng.randint(1, 3))])
        elif q < 0.55 and depth > 0:
            items.append(["s%d" % i, gst(rng, depth - 1)])
        elif q < 0.75:
            k = rng.choice(KINDS)
            items.append(["a%d_%s" % (i, k), {"arr": gen(rng, k, rng.choice([0, 1, 4]))}])
        else:
            items.append(["x%d" % i, {"sc": rng.choice([["int", rng.choice([0, -3, 1000000])], ["float", rng.choice([0.25, -1.5])], ["bool", 1], ["str", rng.choice(["abc", "", "\u00e9"])], ["bytes", "ab"]])}])
    return {"st": items}


def build(o, name=""):
    if "ds" in o:
        d = rt.Dataset({c: mk(kindof(c), r) for c, r in o["ds"]})
        if o["lab"]:
            d.label_set_names([o["lab"]])
        if o["sort"]:
            k = [c for c, r in o["ds"] if kindof(c) in ("i4", "S", "f8", "date")]
            if k and len(o["ds"][0][1]):
                d.sort_view(k[0])
        return d
    if "st" in o:
        return rt.Struct({n: build(x, n) for n, x in o["st"]})
    if "arr" in o:
        return mk(kindof(name) or o["kind"], o["arr"])
    t, v = o["sc"]
    return {"int": int, "float": float, "bool": bool, "str": str, "bytes": lambda s: s.encode()}[t](v)


def has_nested(o):
    return "st" in o and any("st" in x or "ds" in x for _, x in o["st"])


def gcase(rng):
    ops = []
    files, dirs, secs, cats_ = {}, {}, {}, {}
    names = ["c%d_%s" % (i, k) for i, k in enumerate(rng.sample(STACKK, 4))]
    opt = lambda: {"compress": rng.choice([1, 1, 0]), "form": rng.choice(["fn", "meth"]), "lvl": rng.choice([None, None, 1, 9])}
    for _ in range(rng.randint(4, 9)):
        q = rng.random()
        if q < 0.35 or not (files or dirs):
            n = rng.choice(["f1", "f2", "f3"])
            w = rng.random()
            if w < 0.7:
                o = gds(rng, names=names) if rng.random() < 0.8 else gds(rng)
                if rng.random() < 0.15:
                    o = {"ds": [[c, [1 + (i * 7) % 3 for i in range(200)]] for c in ["c0_i4", "c1_cat"]], "lab": "", "sort": 0}
                files[n] = o
            elif w < 0.8:
                k = rng.choice(KINDS)
                o = {"arr": gen(rng, k, rng.choice([0, 1, 4])), "kind": k}
                files[n] = o
            else:
                o = gst(rng, 2)
                if has_nested(o):
                    n = rng.choice(["n1", "n2"])
                    if n in dirs:
                        continue
                    if rng.random() < 0.4:
                        n = "o" + n  # one file
                        files[n] = o
                    else:
                        dirs[n] = o
                else:
                    files[n] = o
            ops.append(dict(t="save", n=n, o=o, one=int(n[0] == "o"), **opt()))
        elif q < 0.43 and dirs:
            n = rng.choice(sorted(dirs))
            top = [k for k, x in dirs[n]["st"] if "ds" in x]
            item = rng.choice(top + ["z9", "z8"])
            o = gds(rng)
            dirs[n] = {"st": [x for x in dirs[n]["st"] if x[0] != item] + [[item, o]]}
            ops.append(dict(t="savein", n=n, item=item, o=o, how=rng.choice(["name", "path"]), **opt()))
        elif q < 0.5:
            n = "sec1"
            have = secs.setdefault(n, [])
            lens = [0, 1, 2, 3, 5, 8]
            lens = [x for x in lens if x not in [y for _, y in have]]
            s = "s%d" % (len(have) + 1)
            m = rng.choice(lens)
            have.append((s, m))
            ops.append(dict(t="append", n=n, s=s, o=gds(rng, n=m, names=names), **opt()))
            if len(have) > 4:
                secs.pop(n)
        elif q < 0.56 and sum("ds" in x for x in files.values()) > 1:
            ns = [x for x in sorted(files) if "ds" in files[x] and stackable(files[x], names)]
            if ns:
                ns = [rng.choice(ns) for _ in range(rng.randint(1, 3))]
                ops.append(dict(t="concat", n="k1", ns=ns))
                cats_["k1"] = ns
        else:
            w = rng.random()
            if w < 0.12:
                ops.append(dict(t="load", n="nope", inc=["*"], m=[-1]))
            elif w < 0.55:
                n = rng.choice(sorted(files) + sorted(dirs) + sorted(secs))
                inc, m = ["*"], [-1]
                if n in files and "ds" in files[n]:
                    cs = [c for c, _ in files[n]["ds"]]
                    if rng.random() < 0.3:
                        inc = rng.sample(cs, rng.randint(1, len(cs))) + (["zz"] if rng.random() < 0.3 else [])
                    if rng.random() < 0.35:
                        m = gmask(rng, len(files[n]["ds"][0][1]))
                ops.append(dict(t="load", n=n, inc=inc, m=m, thr=rng.choice([None, None, 1, 3]), ext=int(rng.random() < 0.4), fancy=int(rng.random() < 0.3)))
            elif w < 0.63 and dirs:
                n = rng.choice(sorted(dirs))
                ps = dspaths(dirs[n])
                if ps:
                    ops.append(dict(t="loadname", n=n, path=rng.choice(ps), sep=rng.choice("!/")))
            elif w < 0.7:
                ns = [rng.choice(sorted(files)) for _ in range(rng.randint(1, 3))] if files else []
                ns = [x for x in ns if "arr" not in files[x] and x[0] != "o"]
                if ns:
                    ops.append(dict(t="list", ns=ns, inc=["*"], m=[-1]))
            elif w < 0.77:
                ns = [x for x in sorted(files) if "ds" in files[x]]
                if ns:
                    ops.append(dict(t="dir", n=rng.choice(ns)))
            else:
                ns = [x for x in sorted(files) if "ds" in files[x] and stackable(files[x], names)] + sorted(secs) + sorted(cats_)
                if ns:
                    ns = [rng.choice(ns) for _ in range(rng.randint(1, 4))]
                    inc, m = ["*"], [-1]
                    cs = sorted({c for x in ns for c in allcols(x, files, secs, cats_, names)})
                    if rng.random() < 0.25:
                        inc = rng.sample(cs, rng.randint(1, len(cs)))
                    if rng.random() < 0.3 and all(x in files for x in ns):
                        m = gmask(rng, sum(len(files[x]["ds"][0][1]) for x in ns))
                    ops.append(dict(t="stack", ns=ns, inc=inc, m=m, thr=rng.choice([None, 2])))
    return {"ops": ops}


def stackable(o, names):
    return all(c in names for c, _ in o["ds"])


def allcols(x, files, secs, cats_, names):
    return [c for c, _ in files[x]["ds"]] if x in files else names


def gmask(rng, n):
    m = [rng.randint(0, 1) for _ in range(n)]
    if rng.random() < 0.2 and n:
        m = m[: rng.randint(1, n)]
    return m if m else [-1]


def dspaths(o, path=()):
    out = []
    for n, x in o["st"]:
        if "ds" in x:
            out.append(list(path) + [n])
        elif "st" in x:
            out += dspaths(x, path + (n,))
    return out


def cases(tier, rng):
    big = tier == "thorough"
    # every kind alone: dataset, array, struct member; plain, filtered, stacked
    for k in KINDS:
        for n in (0, 1, 4):
            c = "c0_" + k
            r = gen(rng, k, n)
            o = {"ds": [[c, r]], "lab": "", "sort": 0}
            ops = [dict(t="save", n="f1", o=o, one=0, compress=1, form="fn", lvl=None), dict(t="load", n="f1", inc=["*"], m=[-1], thr=None, ext=0, fancy=0)]
            ops += [dict(t="load", n="f1", inc=["*"], m=[i % 2 for i in range(n)] or [-1], thr=None, ext=1, fancy=0)]
            if n:
                ops += [dict(t="load", n="f1", inc=["*"], m=[0] * n, thr=None, ext=1, fancy=f) for f in (0, 1)]
            if k in STACKK:
                ops += [dict(t="stack", ns=["f1", "f1"], inc=["*"], m=[-1], thr=None)]
            ops += [dict(t="save", n="f2", o={"arr": r, "kind": k}, one=0, compress=0, form="fn", lvl=None), dict(t="load", n="f2", inc=["*"], m=[-1], thr=None, ext=0, fancy=0)]
            ops += [dict(t="save", n="f3", o={"st": [["x_" + k, {"arr": r}], ["y", {"sc": ["int", 3]}]]}, one=0, compress=1, form="meth", lvl=None), dict(t="load", n="f3", inc=["*"], m=[-1], thr=None, ext=0, fancy=0)]
            st = {"st": [["d1", o], ["q", {"st": [["x_" + k, {"arr": r}], ["d2", o]]}]]}
            ops += [dict(t="save", n="n1", o=st, one=0, compress=1, form="fn", lvl=None), dict(t="load", n="n1", inc=["*"], m=[-1], thr=None, ext=0, fancy=0),
                    dict(t="save", n="on1", o=st, one=1, compress=1, form="fn", lvl=None), dict(t="load", n="on1", inc=["*"], m=[-1], thr=None, ext=0, fancy=0)]
            yield {"ops": ops}
    # stacking two files of the same kind with different contents
    for k in STACKK:
        for _ in range(6 if big else 2):
            c = "c0_" + k
            mkf = lambda n: {"ds": [[c, gen(rng, k, n)]] + ([["c1_i4", gen(rng, "i4", n)]] if rng.random() < 0.5 else []), "lab": "", "sort": 0}
            ops = [dict(t="save", n="f%d" % i, o=mkf(rng.choice([0, 1, 3, 6])), one=0, compress=1, form="fn", lvl=None) for i in (1, 2, 3)]
            ops += [dict(t="stack", ns=["f1", "f2", "f3"], inc=["*"], m=[-1], thr=None), dict(t="concat", n="k1", ns=["f1", "f2"]), dict(t="stack", ns=["k1"], inc=["*"], m=[-1], thr=None),
                    dict(t="list", ns=["f1", "f2"], inc=["*"], m=[-1])]
            yield {"ops": ops}
    for _ in range(6000 if big else 1200):
        yield gcase(rng)


# ---------------------------------------------------------------- execution
def execute(c):
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    try:
        return [step(op, d) for op in c["ops"]]
    finally:
        shutil.rmtree(d, ignore_errors=True)


KIND_OF = {}
rt.rt_sds.SDSRebuildRoot = True  # items saved into a folder are added to its root file


def step(op, d):
    t = op["t"]
    ev = {"t": t}
    p = lambda n: os.path.join(d, n)
    if t in ("save", "savein", "append"):
        o = op["o"]
        if "arr" in o:
            ROOTK[0] = o["kind"]
            KIND_OF[p(op["n"])] = o["kind"]
        x = build(o)
        tree = desc(x)
        ev.update(n=op["n"], tree=tree)
        kw = {"compress": bool(op["compress"])}
        if op["lvl"] is not None:
            kw["complevel"] = op["lvl"]
        try:
            if t == "save":
                if op["one"]:
                    kw["onefile"] = True
                if op["form"] == "meth" and hasattr(x, "save") and not isinstance(x, np.ndarray):
                    kw.pop("complevel", None)
                    x.save(p(op["n"]), **kw)
                else:
                    rt.save_sds(p(op["n"]), x, **kw)
            elif t == "savein":
                ev["item"] = op["item"]
                if op["how"] == "name":
                    rt.save_sds(p(op["n"]), x, name=op["item"], **kw)
                else:
                    rt.save_sds(os.path.join(p(op["n"]), op["item"]), x, **kw)
            else:
                ev["s"] = op["s"]
                rt.save_sds(p(op["n"]), x, append=op["s"], **kw)
            r = 0
        except Exception:
            r = 1
            if os.environ.get("VERIF_DEBUG"):
                import traceback

                traceback.print_exc()
        ev["obs"] = {"raised": r, "frame": int(desc(x) == tree)}
        return ev
    if t == "concat":
        try:
            rt.sds_concat([p(n) + ".sds" for n in op["ns"]], output=p(op["n"]) + ".sds")
            r = 0
        except Exception:
            r = 1
        ev.update(n=op["n"], ns=op["ns"], obs={"raised": r})
        return ev
    if t == "dir":
        try:
            names = [x.decode() if isinstance(x, bytes) else str(x) for x in rt.rt_sds.sds_dir(p(op["n"]))]
            ev.update(n=op["n"], obs={"raised": 0, "names": names})
        except Exception:
            ev.update(n=op["n"], obs={"raised": 1, "names": []})
        return ev
    kw = {}
    if op.get("inc", ["*"]) != ["*"]:
        kw["include"] = op["inc"]
    if op.get("m", [-1]) != [-1]:
        m = op["m"]
        kw["filter"] = rt.FA(np.array([i for i, b in enumerate(m) if b], dtype=np.int32)) if op.get("fancy") and (any(m) or t == "load") else rt.FA(np.array(m, dtype=bool))
    if op.get("thr"):
        kw["threads"] = op["thr"]
    try:
        if t == "load":
            ev.update(n=op["n"], inc=op["inc"], m=op["m"])
            ROOTK[0] = KIND_OF.get(p(op["n"]))
            ext = op.get("ext") and os.path.isfile(p(op["n"]) + ".sds")
            ev["obs"] = {"raised": 0, "tree": desc(rt.load_sds(p(op["n"]) + (".sds" if ext else ""), **kw))}
        elif t == "loadname":
            ev.update(n=op["n"], path=op["path"])
            ev["obs"] = {"raised": 0, "tree": desc(rt.load_sds(p(op["n"]), name=op["sep"].join(op["path"])))}
        elif t == "list":
            ev.update(ns=op["ns"], inc=op["inc"], m=op["m"])
            ev["obs"] = {"raised": 0, "trees": [desc(x) for x in rt.load_sds([p(n) for n in op["ns"]], **kw)]}
        elif t == "stack":
            ev.update(ns=op["ns"], inc=op["inc"], m=op["m"])
            ev["obs"] = {"raised": 0, "tree": desc(rt.load_sds([p(n) for n in op["ns"]], stack=True, **kw))}
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            import traceback

            traceback.print_exc()
        ev["obs"] = {"raised": 1, "tree": [], "trees": []}
    return ev
