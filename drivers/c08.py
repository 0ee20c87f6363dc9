"""C08: what Categoricals answer."""
import warnings

import numpy as np
import riptable as rt
from catlib import *  # noqa
from c07 import E0, v

CMP = ["eq", "ne", "lt", "le", "gt", "ge"]
Q0 = dict(E0, op="q", q="", res=[], to=[])


def gq(rng, kind, mapm, n, m, cats1, srt=1):
    pool = len(POOL[kind])
    a = rng.choice(cats1) if cats1 and rng.random() < 0.7 else rng.randint(1, pool)
    sub = [rng.randint(1, pool) for _ in range(rng.randint(1, 4))]
    r = rng.random()
    if mapm:
        q = rng.choice(CMP + ["where", "isin", "isin", "bin", "cat", "ceq", "cne", "nuniq", "filtered"])
    else:
        q = rng.choice(CMP + CMP + ["where", "isin", "isin", "isin", "member", "bin", "cat", "nuniq", "filtered", "hot", "map", "mapa", "single", "cats", "count", "cisin"] + (["ceq", "cne", "clt", "cle", "cgt", "cge"] if n == m else []))
    if q in CMP[2:] and not srt and not mapm and a not in cats1:
        return None  # where an unknown label lies among unsorted categories is not specified
    e = dict(Q0, q=q, t=1, a=a)
    e["vk"] = rng.choice(["py", "py", "bytes", "np"]) if kind in ("S", "Ua", "SL") and not mapm else "py"
    if q in ("ceq", "cne", "clt") and n != m:
        return None
    if q in ("isin", "member"):
        e["cats"] = sub
        e["how"] = rng.choice(["fa", "list", "set"] if q == "isin" else ["fa"])
        if q == "member":
            e["cats"] = list(dict.fromkeys(sub)) if rng.random() < 0.5 else sub
    elif q == "bin":
        e["a"] = rng.choice([0, 1, 1, 2, 2, 3, 4, 7, 10, 20, 50]) if mapm else rng.randint(0, 6)
    elif q in ("map", "mapa"):
        k = list(dict.fromkeys(sub + cats1))
        rng.shuffle(k)
        if q == "map":
            e["cats"] = k[: rng.randint(1, len(k))]
            e["to"] = [rng.randint(1, 50) for _ in e["cats"]]
        else:
            e["cats"] = cats1
            e["to"] = [rng.randint(1, 50) for _ in cats1]
        e["how"] = rng.choice(["i4", "f8", "S"])
        e["a"] = rng.choice([77, 0] if e["how"] == "S" else [77, 0, 99])  # 0: missing, 99: the value 0
        if e["how"] == "S" and e["a"] == 0:
            e["a"] = 77
    return e


def cases(tier, rng):
    q = tier == "quick"
    for i in range(1500 if q else 9000):
        mapm = i % 6 == 5
        kind = rng.choice(["S", "Ua"]) if mapm else rng.choice(["S", "S", "U", "Ua", "f8", "i4", "i8", "u1", "date", "f4"])
        n = rng.randint(1, 8)
        form = "map" if mapm else rng.choice(["vals", "vals", "given", "codes"] if kind in STR else ["vals"])
        e1 = gnew(rng, kind, form, n=n, t=1)
        form2 = "map" if mapm else rng.choice(["vals", "given", "codes"] if kind in STR else ["vals"])
        m = n if rng.random() < 0.7 else rng.randint(1, 8)
        e2 = gnew(rng, kind, form2, n=m, t=2)
        if mapm:
            e2["cats"], e2["mk"] = e1["cats"], e1["mk"]
            cs = [x[0] for x in e1["cats"]]
            e2["vals"] = [rng.choice(cs) for _ in range(m)]
        if rng.random() < 0.25 and not mapm:
            e2 = dict(e2, form="codes", cats=sorted(set(e1["vals"]) | {1}) if form == "vals" else list(e1["cats"]), base=e1["base"], flt=[], ordered=2, sgb=2, dt="i4", how="fa", chow="fa", lex=0)
            e2["vals"] = [rng.randint(0, len(e2["cats"]) - 1 + e2["base"]) for _ in range(m)]
        if e1.get("mat") or e2.get("mat"):
            continue
        cats1 = [x[1] for x in e1["cats"]] if mapm else e1["cats"] or sorted(set(x for i_, x in enumerate(e1["vals"]) if not e1["flt"] or e1["flt"][i_]))
        ev = [e1, e2]
        for _ in range(rng.randint(4, 9)):
            x = gq(rng, kind, mapm, n, m, cats1, int(form == "vals" and e1["srt"]))
            if x:
                ev.append(x)
        yield {"kd": [kind], "ev": ev}
    for i in range(200 if q else 1500):
        # two keys
        kd = [rng.choice(["S", "i4", "f8", "Ua"]), rng.choice(["S", "i4", "U"])]
        e1 = gnew(rng, kd[0], rng.choice(["pairs", "dict"]), n=rng.randint(1, 8), kd=kd)
        ev = [e1]
        have = sorted(set(x for i_, x in enumerate(e1["vals"]) if not e1["flt"] or e1["flt"][i_]))
        for _ in range(rng.randint(3, 7)):
            qn = rng.choice(["eq", "ne", "where", "filtered", "nuniq", "single", "cats", "count", "bin", "cat"])
            a = rng.choice(have) if rng.random() < 0.8 or qn == "cat" else rng.randint(1, 9) * MUL + rng.randint(1, 9)
            ev.append(dict(Q0, q=qn, a=a if qn != "bin" else rng.randint(0, 5), vk="py"))
        yield {"kd": kd, "ev": ev}
    for i in range(8 if q else 40):
        kind = rng.choice(["SL", "iL"])
        e1 = gnew(rng, kind, "vals", large=True)
        ev = [e1]
        for _ in range(6):
            x = gq(rng, kind, 0, len(e1["vals"]), 0, sorted(set(x for i_, x in enumerate(e1["vals"]) if not e1["flt"] or e1["flt"][i_]))[:300], e1["srt"])
            if x and x["q"] not in ("hot", "cisin", "ceq", "cne", "clt", "cle", "cgt", "cge", "bin"):
                ev.append(x)
        yield {"kd": [kind], "ev": ev}


def scal(kd, a, vk):
    if len(kd) == 2:
        x = (POOL[kd[0]][a // MUL - 1], POOL[kd[1]][a % MUL - 1])
        return x
    if kd[0] in STR:
        return v(kd[0], a, vk)
    return POOL[kd[0]][a - 1]


def ask(st, e, kd):
    c, d = st
    q = e["q"]
    kind = kd[0]
    B = lambda x: [int(y) for y in np.asarray(x).tolist()]
    import operator as O
    if kind == "U" and c.category_array.dtype.char == "S" and max([e["a"]] + e["cats"]) > 6:
        return None  # bytes categories are not compared with non-ASCII labels
    if q in CMP:
        x = scal(kd, e["a"], e["vk"])
        if kind == "date":
            x = rt.Date(np.array([x], dtype=np.int32))[0]
        return B(getattr(O, q)(c, x))
    if q == "where":
        if len(kd) == 1 and kind not in STR:
            return None
        return B(c[scal(kd, e["a"], e["vk"])]) if len(kd) == 1 else B(c == scal(kd, e["a"], "py"))
    if q[0] == "c" and q[1:] in CMP:
        return B(getattr(O, q[1:])(c, d))
    if q == "isin":
        if e["how"] == "fa":
            return B(c.isin(arr(kind, e["cats"])))
        if kind == "date":
            return None
        x = [scal(kd, y, "py") for y in e["cats"]]
        return B(c.isin(x if e["how"] == "list" else set(x)))
    if q == "cisin":
        return B(c.isin(d))
    if q == "member":
        f, w = rt.ismember(c, arr(kind, e["cats"]))
        w = [NA if y < 0 else y for y in np.asarray(w).tolist()]
        return w if B(f) == [int(y != NA) for y in w] else [BAD]
    if q == "filtered":
        return B(c.isfiltered())
    if q == "bin":
        x = c.from_bin(e["a"])
        if len(kd) == 2:
            return pairs(kd, [[x[0]], [x[1]]])
        return [lab(kind, x)]
    if q == "cat":
        x = scal(kd, e["a"], e["vk"])
        if kind == "date":
            return None
        return [int(c.from_category(x))]
    if q == "nuniq":
        return [int(c.nunique())]
    if q == "hot":
        cs, hot = c.one_hot_encode()
        if labs(kind, cs) != obs(c, kd)["cats"]:
            if [x for x in strs(kind, cs)] != obs(c, kd)["cats"]:
                return [BAD]
        return [y for h in hot for y in B(h)]
    if q in ("map", "mapa"):
        to = {"i4": lambda x: x, "f8": lambda x: x + 0.5, "S": lambda x: "t%02d" % x}[e["how"]]
        fro = {"i4": lambda x: 0 if x == -2**31 or x == -2**63 else int(x) or 99, "f8": lambda x: 0 if x != x else 99 if x == 0 else int(x - 0.5) if x != 77 else 77,
               "S": lambda x: int((x.decode() if isinstance(x, bytes) else x)[1:]) if len(x) == 3 else 0}[e["how"]]
        kw = {} if e["a"] == 0 else {"invalid": to(77) if e["a"] == 77 else 0}
        if q == "map":
            r = c.map({scal(kd, k, "py"): to(t) for k, t in zip(e["cats"], e["to"])}, **kw)
        else:
            if obs(c, kd)["cats"] != e["cats"]:
                return None
            r = c.map(rt.FA([to(t) for t in e["to"]]), **kw)
        return [fro(x) for x in np.asarray(r).tolist()]
    if q == "single":
        s = c.as_singlekey()
        return obs(c, kd)["st"] if len(kd) == 1 else None
    if q == "cats":
        return obs(c, kd)["cats"]
    if q == "count":
        g = c.count()
        w = np.asarray(g[[n_ for n_ in g.keys() if n_.lower() == "count"][0]]).tolist()
        ks = [g[k] for k in g.label_get_names()]
        lb = labs(kind, ks[0]) if len(kd) == 1 else pairs(kd, ks)
        if len(lb) != len(w) or len(set(lb)) != len(lb):
            return [BAD]
        t = dict(zip(lb, w))
        cs = obs(c, kd)["cats"]
        if sorted(cs) != sorted(lb):
            return [BAD]
        return [int(t[x]) for x in cs]
    raise AssertionError(q)


def fp(c, kd):
    return obs(c, kd)


def execute(case):
    kd = case["kd"]
    st = [None, None]
    out = []
    for e in case["ev"]:
        e = dict(e)
        if e["op"] == "new":
            try:
                st[e["t"] - 1], e["frame"] = build(e, kd)
            except Exception as x:
                if isinstance(x, AssertionError):
                    raise
                return []
            e["obs"] = [obs(c, kd) for c in st]
        else:
            if e["q"] == "bin" and st[0].isenum is False and e["a"] == 0 and st[0].base_index == 1:
                continue
            b = [obs(c, kd) for c in st]
            try:
                r = ask(st, e, kd)
                if r is None:
                    continue
                e["res"] = r
            except Exception as x:
                if isinstance(x, AssertionError):
                    raise
                e["raised"] = 1
                e["err"] = repr(x)[:150]
            e["frame"] = int([obs(c, kd) for c in st] == b)
        out.append(e)
    for k, e in enumerate(out):
        e["k"] = k
    return out
