"""C06: constructing a Categorical keeps every row's label."""
import numpy as np
import riptable as rt
from catlib import *  # noqa

FORMS = ["vals", "given", "codes", "pd", "full", "map", "pairs", "dict", "zero", "dup"]
KIN = {"vals": ["S", "U", "Ua", "i4", "i8", "u1", "f8", "f4", "date", "dtn"], "given": ["S", "U", "Ua", "f8"], "codes": ["S", "U", "i4", "f8", "i8"], "pd": ["S", "U", "i8", "f8"],
       "full": ["S", "i8", "f8"], "map": ["S", "Ua"], "zero": ["S", "i8"], "dup": ["S", "i4"]}
PK = ["S", "U", "i4", "f8", "date", "u1"]


def cases(tier, rng):
    n = 2500 if tier == "quick" else 12000
    import itertools
    # exhaustive: every 3-row value pattern x filter x order option
    for ids in itertools.product([2, 5, 8], repeat=3):
        for F in [[]] + [list(f) for f in itertools.product([0, 1], repeat=3) if any(f)]:
            for ordd, srt, lex in ((2, 1, 0), (0, 0, 0), (1, 1, 0), (2, 1, 1)):
                kind = rng.choice(["S", "i4", "f8", "U", "date"])
                yield {"kd": [kind], "e": dict(DEF, vals=list(ids), flt=F, ordered=ordd, srt=srt, lex=lex)}
    for i in range(n):
        form = FORMS[i % len(FORMS)] if i % 3 else rng.choice(["vals", "given", "codes"])
        kd = [rng.choice(PK), rng.choice(PK)] if form in ("pairs", "dict", "codes2") else [rng.choice(KIN[form])]
        yield {"kd": kd, "e": gnew(rng, kd[0], form, kd=kd)}
    for i in range(24 if tier == "quick" else 120):
        kind = rng.choice(["SL", "iL", "UL"])
        yield {"kd": [kind], "e": gnew(rng, kind, rng.choice(["vals", "given"] if kind != "iL" else ["vals"]), large=True)}


    # codes and pandas codes around the limits of the code types
    for i in range(200 if tier == "quick" else 1000):
        kind = rng.choice(["SL", "iL", "UL"])
        m = rng.choice([126, 127, 128, 129, 254, 255, 256, 257])
        form = rng.choice(["codes", "codes", "pd", "zero"])
        cs = rng.sample(range(1, 301), m)
        e = dict(DEF, form=form, cats=cs)
        if form == "codes":
            e["base"] = rng.randint(0, 1)
            top = m - 1 + e["base"]
            e["vals"] = [0, top] + [rng.choice([0, 1, top, top - 1, rng.randint(0, top)]) for _ in range(rng.randint(0, 5))]
            e["dt"] = rng.choice([d for d in ("i1", "u1", "i2", "u2", "i4", "i8") if top <= np.iinfo(d).max][:2])
            e["how"] = rng.choice(["np", "fa"])
            e["chow"] = "fa"
        elif form == "pd":
            if kind == "UL":
                kind = "SL"
            e["vals"] = [m - 1, 0, -1][: rng.randint(1, 3)] + [rng.randint(-1, m - 1) for _ in range(3)]
            e["ordered"] = rng.randint(0, 1)
        else:
            e.update(cats=[], vals=cs, base=0, srt=rng.randint(0, 1), how="fa")
        yield {"kd": [kind], "e": e}


def execute(c):
    e = dict(c["e"], k=0)
    kd = c["kd"]
    cat = None
    try:
        cat, e["frame"] = build(e, kd)
    except Exception:
        e["raised"] = 1
    e["obs"] = [obs(cat, kd), obs(None, kd)]
    return [e]
