"""Executes a driver's cases against the code in /repo (run with the repo's venv)."""
import argparse
import importlib
import json
import os
import random
import sys
import traceback
import warnings

warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("driver")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--worker", type=int)
    ap.add_argument("--of", type=int)
    ap.add_argument("--skip", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--cases")
    a = ap.parse_args()
    repo = os.environ.get("VERIF_REPO", "/repo")
    import riptable

    assert os.path.dirname(os.path.abspath(riptable.__file__)) == os.path.join(repo, "riptable"), riptable.__file__
    import lay

    drv = importlib.import_module(a.driver)
    cl = json.load(open(a.cases)) if a.cases else None
    if isinstance(cl, list):
        cases = cl
    else:
        cases = list(drv.cases(a.tier, random.Random(a.seed)))
        if cl:
            cases = cases + cl["append"]
    out = open(a.out, "w")
    cur = open(a.out + ".cur", "w")
    if hasattr(drv, "shard"):
        # cases that share compiled code go to the same worker
        keys, mine = {}, []
        for i, c in enumerate(cases):
            s = drv.shard(c)
            w = i if s is None else keys.setdefault(s, len(keys))
            if w % a.of == a.worker:
                mine.append(i)
    else:
        mine = range(a.worker, len(cases), a.of)
    for pos, i in enumerate(mine):
        if pos < a.skip:
            continue
        case = cases[i]
        cur.seek(0)
        cur.truncate()
        json.dump({"id": i, "pos": pos, "case": case}, cur)
        cur.flush()
        rec = {"id": i, "case": case}
        lay.choose(case, drv)
        try:
            ev = drv.execute(case)
            rec["events"] = ev if isinstance(ev, list) else [ev]
        except BaseException as e:  # an observation that cannot even be projected
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            rec["err"] = "unprojectable:" + type(e).__name__
            if os.environ.get("VERIF_DEBUG"):
                sys.stdout.write(json.dumps(case)[:300] + "\n" + traceback.format_exc() + "\n")
        out.write(json.dumps(rec) + "\n")
        out.flush()
    out.close()


main()
