"""C20: string columns."""
import re
import warnings

import lay
import numpy as np
import riptable as rt
from proj import BAD, NA

ASCII = "aabbcABz _9"
OPS = ["upper", "lower", "reverse", "rmtrail", "strlen", "index", "anyof", "contains", "starts", "ends", "replace", "substr", "char", "charstop", "rematch", "resub", "extract"]
CATOPS = [o for o in OPS if o != "charstop"]
FILT = [-1]


def codes(s):
    return [ord(ch) for ch in s]


def word(rng, uni, lo, hi, extra=""):
    n = rng.randint(lo, hi)
    return "".join(rng.choice(ASCII + ("é\u4e2d" if uni else "") + extra) for _ in range(n))


def atom(rng):
    k = rng.choice(["c", "c", "c", "any", "cls"])
    return {"k": k, "c": [ord(rng.choice("abABc_"))] if k == "c" else [] if k == "any" else codes("".join(rng.sample("abcAB_9", rng.randint(1, 3)))), "q": rng.choice(["1", "1", "1", "*", "+", "?"])}


def atext(a):
    return ("." if a["k"] == "any" else chr(a["c"][0]) if a["k"] == "c" else "[" + "".join(map(chr, a["c"])) + "]") + (a["q"] if a["q"] != "1" else "")


def regex(rng, groups):
    while True:
        A = [atom(rng) for _ in range(rng.randint(1, 4))]
        if any(a["q"] in "1+" for a in A):
            break  # a pattern that matches nothing is not driven
    r = {"a": A, "bol": int(rng.random() < 0.2), "eol": int(rng.random() < 0.2), "g": []}
    if groups:
        cut = sorted(rng.sample(range(len(A) + 1), min(len(A) + 1, rng.choice([2, 2, 4]))))
        for i in range(0, len(cut) - 1, 2):
            a, b = cut[i] + 1, cut[i + 1]
            r["g"].append([a, b, int(a == b and A[a - 1]["q"] == "?" and rng.random() < 0.6)])
        if rng.random() < 0.25:
            r["g"] = []
    return r


def rtext(r, names=None):
    out = "^" if r["bol"] else ""
    for i, a in enumerate(r["a"]):
        for k, g in enumerate(r["g"]):
            if g[0] == i + 1:
                out += "(" + ("?P<%s>" % names[k] if names else "")
        t = atext(a)
        for g in r["g"]:
            if g[1] == i + 1:
                t = t[:-1] + ")?" if g[2] else t + ")"
        out += t
    return out + ("$" if r["eol"] else "")


def mkcase(rng, op=None, src=None):
    src = src or rng.choice(["S", "S", "U", "Us", "cS", "cU", "big"])
    op = op or rng.choice(OPS if src[0] != "c" else CATOPS)
    uni = src in ("U", "cU")
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8])
    if src in ("cS", "cU", "big"):
        n = max(n, 2)
    hi = rng.choice([1, 3, 5, 8])
    pool = [word(rng, uni, 0, hi) for _ in range(max(1, n))]
    x = [rng.choice(pool) if rng.random() < 0.3 else w for w in pool][:n]
    if op in ("upper", "lower") or rng.random() < 0.1:
        x = ["".join(rng.choice("azAZ@[`{mM") if rng.random() < 0.5 else ch for ch in w) for w in x]
    if src != "big" and x and op not in ("rematch", "resub", "extract") and rng.random() < 0.04:
        i = rng.randrange(len(x))
        x[i] = x[i] + rng.choice("ab_") * rng.choice([125, 127, 128, 254, 256]) + word(rng, uni, 0, 3)
    c = {"t": op, "src": src, "x": x, "pad": rng.choice([0, 0, 1, 3])}
    if src[0] == "c":
        c["f"] = [int(rng.random() < 0.15) for _ in x]
        c["x"] = x = [w or "q" for w in x]
        if all(c["f"]):
            c["f"][0] = 0
        c["xc"] = [word(rng, uni, 1, hi) for _ in range(rng.choice([0, 0, 1, 3]))]  # categories no row may have
        c["ord"] = rng.randint(0, 1)
    part = lambda: (lambda w: w[(i := rng.randint(0, len(w))) : i + rng.randint(1, 3)])(rng.choice(x)) if x and rng.random() < 0.7 else word(rng, uni, 1, 3)
    if op in ("index", "anyof", "contains", "starts", "ends", "charstop"):
        c["s2"] = part() or ("" if op not in ("charstop",) else "_")
        if op in ("starts", "ends") and x and rng.random() < 0.4:
            w = rng.choice(x)
            k = rng.randint(0, len(w))
            c["s2"] = w[:k] if op == "starts" else w[k:]
        if rng.random() < 0.1:
            c["s2"] = word(rng, uni, 6, 10)
        c["af"] = rng.choice(["s", "s", "list", "b", "old"] * 4 + ["two"])
        c["incl"] = rng.randint(0, 1)
    elif op == "replace":
        c["s2"], c["s3"] = part(), rng.choice(["", word(rng, uni, 0, 1), word(rng, uni, 1, 4)])
    elif op == "rmtrail":
        c["ch"] = rng.choice([None, " ", "a", "b", "B"])
        if x and rng.random() < 0.6:
            c["x"] = x = [w + (c["ch"] or " ") * rng.randint(0, 2) for w in x]
    elif op == "substr" and any(len(w) > 100 for w in x) and src[0] != "c":
        c["form"] = rng.choice(["stop", "call", "slice", "from", "neg"])
        c["p"], c["p2"] = [rng.choice([-130, -3, 2, 127, 255])], [rng.choice([126, 128, 255, 257, -2])]
    elif op == "substr":
        b = lambda: rng.choice([[rng.randint(-4, 6)], [rng.randint(0, 3)], [rng.randint(-4, 6) for _ in range(n)] if src[0] != "c" and n > 1 and src != "big" else [rng.randint(-2, 4)]])
        c["form"] = rng.choice(["stop", "call", "slice", "slice", "from", "from", "neg"])
        c["p"], c["p2"] = b(), b()
    elif op == "char":
        c["sc"] = int(rng.random() < 0.6 or src[0] == "c" or src == "big" or n < 2)
        c["p"] = [rng.choice([0, 0, 1, 2, -1, -2])] if c["sc"] else [rng.choice([0, 0, 1, -1]) for _ in range(n + (rng.random() < 0.1))]
        if c["sc"] and rng.random() < 0.5:
            c["x"] = x = [w + "ab" for w in x]
        if c["sc"] and x and rng.random() < 0.06:
            c["x"] = x = [w + "b" * rng.choice([0, 130, 300]) + "c" for w in x]
            c["p"] = [rng.choice([126, 128, 129, 254, 256, 257, 298, len(x[0]) - 1])]
        c["form"] = rng.choice(["char", "get"])
    elif op in ("rematch", "resub", "extract"):
        c["re"] = regex(rng, op == "extract")
        c["s3"] = rng.choice(["", "X", "long text"]) if op == "resub" else rng.choice(["", "", "none"]) if op == "extract" else ""
        c["uq"] = rng.choice([None, True, False])
        c["nm"] = rng.choice(["no", "no", "in", "arg"])
        c["exp"] = rng.choice([None, None, True, False])
        c["rb"] = rng.randint(0, 1)
    return c


def cases(tier, rng):
    big = tier == "thorough"
    for op in OPS:
        for src in ("S", "U", "Us", "cS", "cU", "big"):
            if src[0] == "c" and op not in CATOPS:
                continue
            for _ in range((100 if big else 25) if src != "big" else (8 if big else 3)):
                yield mkcase(rng, op, src)
    for _ in range(12000 if big else 2500):
        c = mkcase(rng)
        if c["src"] != "big":
            yield c


def nolay(c):
    return c["src"] == "big"


def shard(c):
    return c["t"]


def column(c, x):
    w = max([len(s) for s in x] + [1]) + c["pad"]
    if c["src"] in ("S", "cS", "big"):
        return lay.view(rt.FastArray(np.array([s.encode() for s in x], dtype="S%d" % w)))
    a = np.array(x, dtype="U%d" % w)
    return lay.view(rt.FastArray(a, unicode=True))


def txt(v):
    return codes(v.decode("latin-1") if isinstance(v, bytes) else str(v))


def rows(r):
    """a result column -> list of texts or numbers"""
    if isinstance(r, rt.Categorical):
        e = r.expand_array
        f = r.isfiltered()
        return [FILT if k else txt(v) for v, k in zip(e.tolist(), f.tolist())]
    if not isinstance(r, np.ndarray) or r.ndim != 1:
        return [BAD]
    if r.dtype.kind in "SU":
        return [txt(v) for v in np.asarray(r).tolist()]
    if r.dtype.kind == "b":
        return [int(v) for v in np.asarray(r).tolist()]
    if r.dtype.kind in "iu":
        return [NA if v == -(2**31) else int(v) for v in np.asarray(r).tolist()]
    return [BAD] * len(r)


def execute(c):
    t, src = c["t"], c["src"]
    x = list(c["x"])
    rep = 1
    if src == "big":
        rep = 10200 // max(1, len(x)) + 1 if t in ("substr", "char") else 10200 // max(1, len(x) * 3) + 1
    ev = {"t": t, "x": [codes(s) for s in x], "s2": codes(c.get("s2", "")), "s3": codes(c.get("s3") or ""), "p": c.get("p", [0]), "p2": c.get("p2", []), "w": 0, "two": 0, "sc": c.get("sc", 1), "re": c.get("re", {"a": [], "bol": 0, "eol": 0, "g": []})}
    o = {"raised": 0, "frame": 1, "names": 1, "rep": 1, "out": []}
    ev["obs"] = o
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if src[0] == "c":
            cats = list(dict.fromkeys(c["xc"] + x))
            if not c["ord"]:
                cats.sort()
            a = column(c, cats)
            ix = [0 if f else cats.index(s) + 1 for s, f in zip(x, c["f"])]
            a = rt.Categorical(lay.fa(np.array(ix, dtype=np.int8)), a)
            ev["x"] = [FILT if f else v for v, f in zip(ev["x"], c["f"])]
            ev["w"] = a.category_array.itemsize // (4 if a.category_array.dtype.kind == "U" else 1)
            if t == "char" and any((len(s) + c["p"][0] if c["p"][0] < 0 else c["p"][0]) < 0 for s in cats):
                return []
            if t == "char":  # refused for a category no row has, too
                ev["x"] = [v for v in ev["x"]]
                if any(CharBad(s, c["p"][0], ev["w"]) for s in cats):
                    return []
            keep = (a._fa._np.copy(), a.category_array._np.copy())
        else:
            a = column(c, x * rep)
            ev["w"] = a.itemsize // (4 if a.dtype.kind == "U" else 1)
            keep = (np.array(a._np),)
        try:
            r = run(c, t, ev, a, o)
        except (ValueError, TypeError) as e:
            if t not in ("char", "replace") and not ev["two"]:
                raise
            o["raised"] = 1
            r = None
        if r is not None:
            if t == "extract":
                outs = [rows(v) for v in r]
                out = [list(z) for z in zip(*outs)]
            else:
                out = rows(r)
            if rep > 1:
                if any(out[i] != out[i % len(x)] for i in range(len(out))) or len(out) != rep * len(x):
                    o["rep"] = 0
                out = out[: len(x)]
            o["out"] = out
    now = (a._fa._np, a.category_array._np) if src[0] == "c" else (np.array(a._np),)
    if any(p.tobytes() != q.tobytes() for p, q in zip(keep, now)):
        o["frame"] = 0
    return ev


def CharBad(s, p, w):
    q = len(s) + p if p < 0 else p
    return q < 0 or q >= w


def run(c, t, ev, a, o):
    s = a.str
    if t in ("upper", "lower", "reverse", "strlen"):
        return getattr(s, t)
    if t == "rmtrail":
        ev["p"] = [ord(c["ch"] or " ")]
        return s.removetrailing() if c["ch"] is None else s.removetrailing(ord(c["ch"]))
    if t in ("index", "anyof", "contains", "starts", "ends"):
        f = {"index": "index", "anyof": "index_any_of", "contains": "contains", "starts": "startswith", "ends": "endswith"}[t]
        if c["af"] == "old":
            f = {"index": "strstr", "index_any_of": "strpbrk", "contains": "strstrb"}.get(f, f)
        arg = c["s2"]
        if c["af"] == "list" and arg:
            arg = [arg]
        elif c["af"] == "two" and arg:
            ev["two"] = 1
            arg = [arg, arg]
        elif c["af"] == "b" and arg and all(ord(ch) < 128 for ch in arg):
            arg = arg.encode()
        if isinstance(arg, str) and c["src"] in ("S", "cS", "big") and any(ord(ch) > 127 for ch in arg):
            return None
        return getattr(s, f)(arg)
    if t == "charstop":
        ev["p"] = [c["incl"]]
        return s.substr_char_stop(c["s2"], inclusive=bool(c["incl"])) if c["incl"] else s.substr_char_stop(c["s2"])
    if t == "replace":
        return s.replace(c["s2"], c["s3"])
    if t == "substr":
        v = lambda p: p[0] if len(p) == 1 else p if c["pad"] else np.array(p)
        if c["form"] == "stop":
            ev["p"], ev["p2"] = [0], c["p2"]
            return s.substr(v(c["p2"]))
        if c["form"] == "call":
            return s.substr(v(c["p"]), v(c["p2"]))
        if c["form"] == "slice":
            return s.substr[v(c["p"]) : v(c["p2"])]
        if c["form"] == "from":
            ev["p2"] = []
            return s.substr[v(c["p"]) :]
        ev["p"] = [0]
        return s.substr[: v(c["p2"])]
    if t == "char":
        p = c["p"][0] if c["sc"] else c["p"]
        return s.char(p) if c["form"] == "char" else s.substr[p]
    kw = {} if c["uq"] is None or c["src"][0] == "c" and t == "extract" else {"apply_unique": c["uq"]}
    if c["src"][0] == "c":
        kw.pop("apply_unique", None)
    r = c["re"]
    if t == "rematch":
        e = rtext(r)
        return s.regex_match(e.encode() if c["rb"] and c["src"] in ("S", "cS") else e, **kw)
    if t == "resub":
        return s.regex_replace(rtext(r), c["s3"], **kw)
    names = None
    ng = len(r["g"])
    if ng and c["nm"] != "no":
        names = ["n%d" % i for i in range(ng)]
    e = rtext(r, names if c["nm"] == "in" else None)
    if c["nm"] == "arg" and names:
        kw["names"] = names
    if c["s3"]:
        kw["fillna"] = c["s3"]
    if c["exp"] is not None and not (c["exp"] is False and ng > 1):
        kw["expand"] = c["exp"]
    if not ng:  # the whole match is the group
        ev["re"] = dict(r, g=[[1, len(r["a"]), 0]])
        ng = 1
    d = s.extract(e, **kw)
    table = kw.get("expand")
    if table is None:
        table = ng > 1 or names is not None
    if isinstance(d, rt.Dataset) != bool(table):
        o["names"] = 0
    if isinstance(d, rt.Dataset):
        if list(d.keys()) != (names or ["group_%d" % i for i in range(ng)]):
            o["names"] = 0
        return [d[k] for k in d.keys()]
    return [d]
