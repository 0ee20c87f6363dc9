"""C01: histories of column operations on Dataset and Struct."""
import numpy as np
import re
import riptable as rt

NAMES = ["a", "b", "ab", "ba", "xa", "c"]
EXTRA = ["z", "zz", "keys", "copy", "shape", "for"]


# values: ints; a "column kind" decides the dtype of the concrete array
def mk(val, form, ck):
    if form == "scalar":
        v = val[0]
        return {"i": int(v), "f": float(v), "s": "s%d" % v}[ck]
    if form == "list":
        return [{"i": int(v), "f": float(v), "s": "s%d" % v}[ck] for v in val]
    if ck == "i":
        return rt.FastArray(np.array(val, dtype=np.int32))
    if ck == "f":
        return np.array(val, dtype=np.float64)
    if ck == "s":
        return rt.FastArray(np.array(["s%d" % v for v in val], dtype="S6") if len(val) else np.array([], dtype="S6"))
    if ck == "c":
        return rt.Categorical(["s%d" % v for v in val]) if len(val) else rt.FastArray(np.array([], dtype="S6"))
    raise ValueError(ck)


def val(x):
    if isinstance(x, rt.Categorical):
        x = x.expand_array
    if isinstance(x, (list, tuple)):
        x = np.array(x)
    if not isinstance(x, np.ndarray):
        x = np.array([x])
    out = []
    for v in x.tolist():
        if isinstance(v, bytes):
            v = v.decode()
        if isinstance(v, str):
            out.append(int(v[1:]) if re.fullmatch(r"s\d+", v) else 1999999999)
        else:
            out.append(int(v))
    return out


def cont(c):
    return [str(k) for k in c], [val(v) for v in c.values()]


def observe(c, kind):
    names = list(c.keys())
    vals = [val(c[n]) for n in names]
    api = True
    api &= list(c) == names and len(list(c.values())) == len(names)
    api &= all(a == n for (a, _), n in zip(c.items(), names)) and len(list(c.items())) == len(names)
    api &= [val(v) for v in c.values()] == vals
    api &= all(n in c for n in names) and "nosuch" not in c
    api &= all(val(getattr(c, n)) == v for n, v in zip(names, vals))
    api &= all(val(c[i]) == v for i, v in enumerate(vals)) if kind == "D" else True
    api &= [n for n in reversed(list(c.keys()))] == names[::-1]
    api &= c.get_ncols() == len(names) and all(c.col_get_value(n) is not None for n in names) if hasattr(c, "col_get_value") else True
    sh = c.shape
    return {
        "names": names, "vals": vals, "labels": list(c.label_get_names() or []),
        "locked": int(c.is_locked()), "ncols": int(sh[1]) if kind == "D" else int(c.get_ncols()),
        "nrows": int(c.get_nrows() or 0) if kind == "D" else 0,
        "len": len(c), "api": int(api),
    }


def rx(r):
    if r["t"] == "none":
        return None
    return {"in": "%s", "pre": "^%s", "suf": "%s$"}[r["t"]] % r["s"]


def kw(op):
    d = {"items": op["items"] or None}
    if op["like"]:
        d["like"] = op["like"]
    if op["regex"]["t"] != "none":
        d["regex"] = rx(op["regex"])
    d["on_missing"] = op["miss"]
    return d


def do(c, op, ck):
    o = op["op"]
    if o == "set":
        v = mk(op["val"], op["form"], ck)
        if op.get("via") == "attr":
            setattr(c, op["name"], v)
        else:
            c[op["name"]] = v
    elif o == "del":
        if op.get("via") == "attr":
            delattr(c, op["name"])
        else:
            del c[op["name"]]
    elif o == "rename":
        c.col_rename(op["old"], op["new"])
    elif o == "map":
        c.col_map({a: b for a, b in op["pairs"]})
    elif o == "prefix":
        c.col_add_prefix(op["s"])
    elif o == "suffix":
        c.col_add_suffix(op["s"])
    elif o == "strrep":
        c.col_str_replace(op["old"], op["new"], max=op["max"])
    elif o == "front":
        c.col_move_to_front(op["cols"])
    elif o == "back":
        c.col_move_to_back(op["cols"])
    elif o == "move":
        c.col_move(op["cols"], op["cols2"])
    elif o == "swap":
        c.col_swap(op["cols"], op["cols2"])
    elif o == "remove":
        c.col_remove(**kw(op))
    elif o == "pop":
        if len(op["items"]) == 1 and op.get("via") == "str":
            return {op["items"][0]: c.col_pop(op["items"][0])}
        return c.col_pop(list(op["items"]))
    elif o == "filter":
        return c.col_filter(**kw(op))
    elif o == "select":
        return c[list(op["items"])]
    elif o == "selpos":
        return c[list(op["pos"])]
    elif o == "labels":
        c.label_set_names(list(op["cols"]))
    elif o == "nolabels":
        c.label_remove()
    elif o == "lock":
        c._lock()
    elif o == "unlock":
        c._unlock()
    elif o == "copy":
        return c.copy()
    elif o == "asdict":
        return c.asdict(list(op["items"]))
    return None


def execute(case):
    kind = case["kind"]
    ck = case.get("ck", "i")
    d = {n: mk(v, "arr", ck) for n, v in zip(case["names"], case["vals"])}
    c = rt.Dataset(d) if kind == "D" else rt.Struct(d)
    ev = [{"t": "init", "kind": kind, "names": case["names"], "vals": case["vals"]}]
    for op in case["ops"]:
        ok, ret = 1, None
        ck1 = op.get("ck", ck)
        if op["op"] == "set" and op["form"] == "list" and ck1 == "c":
            ck1 = "s"
        if op["op"] == "set" and op["form"] == "scalar" and ck1 == "c":
            ck1 = "s"
        try:
            ret = do(c, op, ck1)
        except (ValueError, KeyError, IndexError, AttributeError, TypeError, NotImplementedError) as e:
            ok = 0
        o = observe(c, kind)
        o["ok"] = ok
        o["ret"] = {"names": [], "vals": []}
        if ret is not None:
            n, v = cont(ret if not isinstance(ret, dict) else ret)
            o["ret"] = {"names": n, "vals": v}
        ev.append({"t": "op", "op": op, "obs": o})
    return ev


NORX = {"t": "none", "s": ""}


def rand_op(rng, nrow, pool, kind):
    def nm(miss=0.15):
        return rng.choice(EXTRA if rng.random() < miss else pool)

    def some(k=3, miss=0.15):
        return [nm(miss) for _ in range(rng.randint(0, k))]

    o = rng.choice(["set"] * 5 + ["del"] * 2 + ["rename"] * 2 + ["map", "prefix", "suffix", "strrep", "front", "back", "move", "swap",
                   "remove", "remove", "pop", "pop", "filter", "select", "selpos", "labels", "labels", "nolabels", "copy", "asdict", "lock", "unlock", "unlock"])
    if o == "selpos" and kind != "D":
        o = "copy"
    op = {"op": o}
    if o == "set":
        op["form"] = rng.choice(["list", "arr", "scalar"])
        ln = nrow if rng.random() < 0.8 else rng.choice([0, 1, 2, 3, 4])
        if nrow == 0 and ln == 1 or op["form"] == "arr" and ln == 1 != nrow:
            ln = 2
        op["val"] = [rng.randint(1, 99)] if op["form"] == "scalar" else [rng.randint(1, 99) for _ in range(ln)]
        if not op["val"] and op["form"] == "list":
            op["form"] = "arr"
        op["name"] = nm(0.1)
        op["via"] = rng.choice(["attr", "item"]) if op["name"] not in ("shape", "for") else "item"
        op["ck"] = rng.choice("iifsc")
    elif o == "del":
        op["name"] = nm(); op["via"] = rng.choice(["attr", "item"])
    elif o == "rename":
        op["old"] = nm(); op["new"] = nm(0.5)
    elif o == "map":
        k = rng.randint(1, 3)
        olds = rng.sample(pool, k)
        op["pairs"] = [[x, nm(0.3)] for x in olds]
        if rng.random() < .3 and k > 1:
            op["pairs"] = [[olds[i], olds[(i + 1) % k]] for i in range(k)]
    elif o in ("prefix", "suffix"):
        op["s"] = rng.choice(["p", "a", "q1"])
    elif o == "strrep":
        op["old"] = rng.choice(["a", "b", "ab", "z"]); op["new"] = rng.choice(["q", "b", "aa"]); op["max"] = rng.choice([-1, 1, 2])
        if rng.random() < .25:
            op["old"], op["new"] = "x", ""
    elif o in ("front", "back", "labels"):
        op["cols"] = some()
        if o == "labels":
            op["cols"] = list(dict.fromkeys(op["cols"]))
    elif o == "move":
        op["cols"] = some(2); op["cols2"] = some(2)
    elif o == "swap":
        cs = [x for x in dict.fromkeys(nm(0.05) for _ in range(rng.randint(1, 3))) if x not in EXTRA[2:]] or ["z"]
        c2 = cs[:]
        rng.shuffle(c2)
        op["cols"] = cs; op["cols2"] = c2
    elif o in ("remove", "filter"):
        op["items"] = some(3); op["like"] = rng.choice(["", "", "a", "b", "ab"]); op["regex"] = rng.choice([NORX, NORX, {"t": "pre", "s": "a"}, {"t": "suf", "s": "b"}, {"t": "in", "s": "ba"}])
        op["miss"] = rng.choice(["raise", "ignore"])
    elif o in ("pop", "select"):
        op["items"] = [x for x in dict.fromkeys(some(3)) if x not in EXTRA[2:]] or ["z"]
        op["via"] = rng.choice(["str", "list"])
    elif o == "selpos":
        op["pos"] = rng.sample(range(-2, 5), rng.randint(1, 3))
        if kind != "D":
            op["pos"] = op["pos"]
    elif o == "asdict":
        op["items"] = [x for x in dict.fromkeys(some(3)) if x not in EXTRA[2:]] or ["z"]
    return op


def cases(tier, rng):
    n = 700 if tier == "quick" else 8000
    L = 12 if tier == "quick" else 25
    for i in range(n):
        kind = rng.choice("DDS")
        nrow = rng.choice([0, 1, 2, 3])
        k = rng.randint(0, 5)
        names = rng.sample(NAMES, k)
        yield {"kind": kind, "names": names, "vals": [[rng.randint(1, 99) for _ in range(nrow)] for _ in names], "ck": rng.choice("ifs"),
               "ops": [rand_op(rng, nrow, NAMES, kind) for _ in range(L)]}
