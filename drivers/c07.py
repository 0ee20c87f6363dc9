"""C07: histories of edits of Categoricals."""
import numpy as np
import riptable as rt
from catlib import *  # noqa

OPS = ["add", "add", "rem", "rem", "rep", "rep", "set", "set", "set", "setl", "setc", "setk", "lock", "unlock", "unlock", "auto", "noauto", "copy", "copy", "take", "valid", "shrink", "shrinki",
       "shiftc", "inval", "align", "stack", "new"]
MOPS = ["madd", "mrem", "mrep", "mnew", "mset", "mset", "msetc", "lock", "unlock", "unlock", "copy", "copy", "take", "new"]
E0 = dict(op="", t=1, vals=[], cats=[], flt=[], srt=1, lex=0, base=1, ordered=2, sgb=2, dt="", how="", chow="fa", form="", mk="", idx=[], jdx=[], a=0, c=0, raised=0, frame=1)


class Sim:
    """rough shadow (lengths only) so that generated arguments are applicable"""

    def __init__(self):
        self.n = [0, 0]


def ghist(rng, kind, steps, mapm, base=1):
    ev = []
    n = [0, 0]
    m = len(POOL[kind])
    for t in (1, 2):
        form = "map" if mapm else rng.choice(["vals", "given", "codes"] if kind in STR else ["vals", "codes"])
        e = gnew(rng, kind, form, n=rng.randint(1, 6), t=t)
        while e.get("mat") or e["base"] != base or any(v < 0 for v in e["vals"]) and not mapm or form == "given" and any(v not in e["cats"] for v in e["vals"]) or form == "codes" and any(v - e["base"] >= len(e["cats"]) for v in e["vals"]):
            e = gnew(rng, kind, form, n=rng.randint(1, 6), t=t)
            if base == 0 and form == "vals":
                e["base"], e["flt"] = 0, []
        if base == 0:
            e["flt"] = []
        n[t - 1] = len(e["vals"])
        ev.append(e)
    sub = rng.sample(range(1, m + 1), min(m, 5)) if m < 50 else [rng.randint(1, m) for _ in range(8)]
    for _ in range(steps):
        op = rng.choice(MOPS if mapm else OPS)
        t = rng.randint(1, 2)
        e = dict(E0, op=op, t=t)
        k = n[t - 1]
        if op == "new":
            continue
        e["a"], e["c"] = rng.choice(sub), rng.choice(sub)
        if base == 0 and op in ("rem", "valid", "shrink", "shrinki", "shiftc", "inval"):
            continue
        if kind == "f8" and op in ("add", "rem", "rep"):
            continue  # numeric category lists cannot be edited
        if op in ("set", "setc", "mset", "msetc", "setk"):
            e["how"] = rng.choice(["int", "list", "mask", "slice", "neg", "fa", "all"])
            if e["how"] in ("int", "neg"):
                e["idx"] = [rng.randint(1, k)]
            elif e["how"] == "slice":
                a = rng.randint(1, k)
                e["idx"] = list(range(a, rng.randint(a, k) + 1))
            elif e["how"] == "all":
                e["idx"] = list(range(1, k + 1))
            elif e["how"] == "mask":
                e["idx"] = [i for i in range(1, k + 1) if rng.random() < 0.5]
            else:
                e["idx"] = [rng.randint(1, k) for _ in range(rng.randint(1, 3))]
            e["vk"] = rng.choice(["py", "py", "bytes", "np"]) if kind in STR and kind not in ("U", "UL") and op != "mset" else "py"
            if op == "setk":
                j = n[2 - t]
                if e["how"] in ("int", "neg"):
                    e["how"] = "list"
                e["jdx"] = [rng.randint(1, j) for _ in e["idx"]]
                if not e["idx"]:
                    continue
            if op in ("setc",):
                e["a"] = rng.choice([0, 1, 1, 2, 2, 3, 4, 9, -1])
        if op in ("madd", "mrem", "mrep", "msetc"):
            e["a"] = rng.choice([0, 1, 2, 3, 7, 10, 20, 30, 77, 100, 11, 12, 13])
        if op in ("madd", "mrep", "mnew"):
            e["fresh"] = 1
        if op == "take":
            e["how"] = rng.choice(["list", "mask", "slice", "fa"])
            if e["how"] == "slice":
                a = rng.randint(1, k)
                e["idx"] = list(range(a, rng.randint(a, k) + 1))
            elif e["how"] == "mask":
                e["idx"] = [i for i in range(1, k + 1) if rng.random() < 0.6] or [1]
            else:
                e["idx"] = [rng.randint(1, k) for _ in range(rng.randint(1, 7))]
            n[2 - t] = len(e["idx"])
        elif op == "valid":
            e["flt"] = gflt(rng, k)
            if not any(e["flt"]):
                e["flt"][0] = 1
            e["nof"] = int(rng.random() < 0.25)
            if e["nof"]:
                e["flt"] = []
            n[2 - t] = k
        elif op in ("shrink", "shrinki"):
            e["cats"] = rng.sample(sub, rng.randint(1, min(3, len(sub)))) if m < 50 else list(dict.fromkeys(sub))[:4]
            e["c"] = rng.choice([0, 0, rng.choice(sub)])
            if e["c"] in e["cats"]:
                e["c"] = 0
            if op == "shrink":
                n[2 - t] = k
        elif op == "shiftc":
            e["a"] = rng.choice([-2, -1, 1, 2, 9])
            n[2 - t] = k
        elif op in ("copy", "inval"):
            n[2 - t] = k
            e["how"] = rng.choice(["copy", "cat", "fancy"]) if op == "copy" else rng.choice(["ci", "fi"])
        elif op == "stack":
            n[2 - t] = k + n[2 - t]
            e["how"] = rng.choice(["rt", "cls"])
            if n[2 - t] > 60:
                n[2 - t] = k
                e = dict(E0, op="copy", t=t, how="copy")
        elif op == "mnew":
            e["cats"] = [[c, l] for c, l in zip(rng.sample([0, 1, 2, 3, 7, 10, 20, 30, 77, 100], 4), rng.sample(range(1, m + 1), 4))]
            e["mk"] = rng.choice(["s2i", "i2s", "enum"])
        ev.append(e)
    return ev


BIG = 2**31 - 1


def cases(tier, rng):
    q = tier == "quick"
    for i in range(700 if q else 4000):
        mapm = i % 5 == 4
        kind = rng.choice(["S", "Ua"]) if mapm else rng.choice(["S", "S", "S", "U", "Ua", "f8"])
        yield {"kind": kind, "ev": ghist(rng, kind, rng.randint(4, 14) if q else rng.randint(4, 30), int(mapm), base=0 if i % 10 == 3 else 1)}
    for i in range(24 if q else 160):
        # near the limit of the code dtype
        m = rng.choice([125, 126, 127, 128])
        ids = rng.sample(range(1, 390), m)
        ev = [dict(DEF, t=1, vals=ids, ordered=0, srt=0), dict(DEF, t=2, vals=ids[:3])]
        if i % 2:
            b = rng.randint(0, 1)
            ev[0] = dict(DEF, t=1, form="codes", base=b, cats=ids, vals=[rng.choice([b, m - 1, rng.randint(0, m - 1)]) for _ in range(5)], dt="i1", how="fa", chow="fa")
            m = 5
        rest = [x for x in range(1, 400) if x not in ids]
        for j in range(6):
            op = rng.choice(["add", "set", "rem", "rep", "add", "set"])
            if op == "set":
                ev.append(dict(E0, op="auto", t=1))
            ev.append(dict(E0, op=op, t=1, a=rng.choice(rest if op in ("add", "set") else ids), c=rng.choice(rest), idx=[rng.randint(1, m)], how="int", vk="py"))
        yield {"kind": "SL", "ev": ev}


def ix(e, n):
    i0 = [i - 1 for i in e["idx"]]
    h = e["how"]
    if h == "int":
        return i0[0]
    if h == "neg":
        return i0[0] - n
    if h == "slice":
        return slice(i0[0], i0[-1] + 1)
    if h == "all":
        return slice(None)
    if h == "mask":
        m = np.zeros(n, dtype=bool)
        m[i0] = True
        return rt.FA(m)
    if h == "list":
        return i0
    return rt.FA(np.array(i0, dtype=np.int32))


def v(kind, i, vk="py"):
    x = POOL[kind][i - 1]
    if vk == "bytes":
        return x.encode()
    if vk == "np":
        return np.str_(x)
    return x


def apply(st, e, kind):
    t = e["t"] - 1
    u = 1 - t
    c, op = st[t], e["op"]
    if op == "new":
        st[t], e["frame"] = build(e, [kind])
        if e.get("frz"):
            pass
        return
    vk = e.get("vk", "py")
    if op == "add":
        c.category_add(v(kind, e["a"]))
    elif op == "rem":
        c.category_remove(v(kind, e["a"]))
    elif op == "rep":
        c.category_replace(v(kind, e["a"]), v(kind, e["c"]))
    elif op in ("set", "mset"):
        c[ix(e, len(c))] = v(kind, e["a"], vk)
    elif op == "setl":
        c[v(kind, e["a"])] = v(kind, e["c"])
    elif op in ("setc", "msetc"):
        c[ix(e, len(c))] = e["a"]
    elif op == "setk":
        c[ix(e, len(c))] = st[u][[j - 1 for j in e["jdx"]]]
    elif op == "lock":
        c.lock()
    elif op == "unlock":
        c.unlock()
    elif op == "auto":
        c.auto_add_on()
    elif op == "noauto":
        c.auto_add_off()
    elif op == "copy":
        st[u] = c.copy() if e["how"] == "copy" else rt.Categorical(c.copy()) if e["how"] == "cat" else c[rt.arange(len(c))]
    elif op == "take":
        st[u] = c[ix(e, len(c))] if e["how"] != "slice" else c[ix(e, len(c))].copy()
    elif op == "valid":
        st[u] = c.set_valid() if not len(e["flt"]) else c.set_valid(rt.FA(np.array(e["flt"], dtype=bool)))
    elif op == "shrink":
        st[u] = c.shrink(arr(kind, e["cats"]), **({"misc": v(kind, e["c"])} if e["c"] else {}))
    elif op == "shrinki":
        c.shrink(arr(kind, e["cats"]), inplace=True, **({"misc": v(kind, e["c"])} if e["c"] else {}))
    elif op == "shiftc":
        st[u] = c.shift_cat(e["a"])
    elif op == "inval":
        st[u] = c.copy_invalid() if e["how"] == "ci" else c.fill_invalid(inplace=False)
    elif op == "align":
        st[t], st[u] = rt.Categorical.align([st[t], st[u]])
    elif op == "stack":
        st[u] = rt.hstack([st[t], st[u]]) if e["how"] == "rt" else rt.Categorical.hstack([st[t], st[u]])
    elif op == "madd":
        c.mapping_add(e["a"], v(kind, e["c"]))
    elif op == "mrem":
        c.mapping_remove(e["a"])
    elif op == "mrep":
        c.mapping_replace(e["a"], v(kind, e["c"]))
    elif op == "mnew":
        p = POOL[kind]
        d = {p[l - 1]: k for k, l in e["cats"]} if e["mk"] == "s2i" else {k: p[l - 1] for k, l in e["cats"]} if e["mk"] == "i2s" else enum_of(e["cats"], kind)
        c.mapping_new(d)
    else:
        raise AssertionError(op)


def execute(case):
    kind = case["kind"]
    st = [None, None]
    out = []
    for k, e in enumerate(case["ev"]):
        e = dict(e, k=k)
        if e.get("fresh"):
            # a mapping keeps its labels distinct
            have = [v_ for v_ in st[e["t"] - 1].category_mapping.values()] if st[e["t"] - 1] is not None else []
            if e["op"] in ("madd", "mrep") and POOL[kind][e["c"] - 1] in [str(h) if not isinstance(h, bytes) else h.decode() for h in have]:
                continue
        if kind == "U" and e["op"] in ("add", "rep", "set", "setl", "rem", "shrink", "shrinki") and st[e["t"] - 1].category_array.dtype.char == "S" and max([e["a"], e["c"]] + e["cats"]) >= 7:
            continue  # a non-ASCII label cannot become one of bytes categories
        if e["op"] == "mrem" and len(st[e["t"] - 1].category_mapping) < 2:
            continue  # a mapping without any code has no defined behaviour
        if e["op"] != "new":
            n, m = len(st[e["t"] - 1]), len(st[2 - e["t"]])
            if max([0] + e["idx"]) > n or max([0] + e["jdx"]) > m or len(e["flt"]) not in (0, n):
                continue  # the arguments were generated for a step that did not happen
        e["room"] = BIG
        if e["op"] in ("add", "set", "setl"):
            e["room"] = min(BIG, int(np.iinfo(st[e["t"] - 1].dtype).max))
        try:
            apply(st, e, kind)
        except Exception as x:
            if isinstance(x, AssertionError):
                raise
            e["raised"] = 1
        e["obs"] = [obs(c, [kind]) for c in st]
        out.append(e)
    for k, e in enumerate(out):
        e["k"] = k
    return out
