#!/usr/bin/env python3
"""Orchestrator: one property check = model checking of the specification
+ conformance of the implementation (traces recorded from /repo's code are
validated, event by event, by TLC against the same specification).

    check.py <property> [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the machinery itself failed.
"""
import argparse
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import PROPS  # noqa: E402


class Machinery(Exception):
    pass


# ---------------------------------------------------------------- TLC
def metadir_tmp(md):
    d = os.path.join(md, "jtmp")
    os.makedirs(d, exist_ok=True)
    return d


def tlc_cmd(module, cfg, metadir, extra=(), heap="1500m"):
    return [
        "java", f"-Djava.io.tmpdir={metadir_tmp(metadir)}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{heap}",
        "-cp", TLA_CP, "tlc2.TLC",
        "-metadir", metadir, "-noGenerateSpecTE",
        "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla"),
    ]


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def parse_states(out):
    gen = dist = 0
    for m in RE_STATES.finditer(out):
        gen, dist = int(m.group(1)), int(m.group(2))
    return gen, dist


def run_tlc_mc(module, cfg, work, workers=4, timeout=600, heap="3g", env=None):
    md = tempfile.mkdtemp(dir=work)
    cmd = tlc_cmd(module, cfg, md, ["-workers", str(workers), "-deadlock"], heap)
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=md, timeout=timeout, env=e)
    return p.returncode, p.stdout + p.stderr


def start_tlc_trace(module, cfg, trace, work):
    md = tempfile.mkdtemp(dir=work)
    env = dict(os.environ)
    env["TRACE"] = trace
    out = open(os.path.join(md, "out.txt"), "w+")
    p = subprocess.Popen(
        tlc_cmd(module, cfg, md, ["-workers", "1", "-deadlock"]), stdout=out, stderr=subprocess.STDOUT, cwd=md, env=env
    )
    return p, out


RE_REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*"([^"]*)",\s*(\d+)\s*>>')


def validate(events, module, cfg, work, nshards, timeout):
    """TLC-validate events (list of lists: traces; a trace is never split)."""
    shards = [[] for _ in range(nshards)]
    sizes = [0] * nshards
    for tr in sorted(events, key=lambda t: -sum(len(x) for x in t)):
        k = sizes.index(min(sizes))
        shards[k].append(tr)
        sizes[k] += sum(len(x) for x in tr)
    procs = []
    for k, sh in enumerate(shards):
        if not sh:
            continue
        path = os.path.join(work, f"trace_{module}_{k}.ndjson")
        with open(path, "w") as f:
            for tr in sh:
                for line in tr:
                    f.write(line)
                    f.write("\n")
        procs.append((start_tlc_trace(module, cfg, path, work), path, sum(len(t) for t in sh)))
    rejects, gen, dist = [], 0, 0
    end = time.time() + timeout
    for (p, out), path, n in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Machinery(f"TLC timed out on {path} ({module})")
        out.seek(0)
        text = out.read()
        out.close()
        for m in RE_REJ.finditer(text):
            rejects.append((int(m.group(1)), m.group(2), int(m.group(3) or 0)))
        g, d = parse_states(text)
        gen += g
        dist += d
        if "TRACE-COMPLETE" not in text:
            m = re.search(r"/\\ l = (\d+)(?![\s\S]*/\\ l = )", text)
            if m and re.search(r"(Attempted|evaluat|TLC threw|The error occurred|not a (record|function|tuple))", text) \
               and "OutOfMemory" not in text and "StackOverflow" not in text:
                # the observation has a shape the specification cannot even evaluate
                line = open(path).read().split("\n")[int(m.group(1)) - 1]
                e = json.loads(line)
                rejects.append((e["id"], "unspecifiable-observation", e["k"]))
                sys.stderr.write("TLC evaluation error:\n" + "\n".join(l for l in text.split("\n") if "rror" in l or "ttempt" in l)[:1500] + text[-900:] + "\n")
            else:
                raise Machinery(f"TLC failed on {path} ({module}):\n{text[-4000:]}")
    return rejects, gen, dist


# ---------------------------------------------------------------- drivers
def run_driver(driver, tier, seed, work, args=(), workers=NCPU, timeout=800, cases_file=None):
    """Run the driver's cases against the real code in worker processes."""
    env = dict(os.environ)
    env.update(
        PYTHONPATH=REPO + ":" + os.path.join(VERIF, "lib") + ":" + os.path.join(VERIF, "drivers"),
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        NUMBA_CACHE_DIR=os.path.join(work, "numba"), HOME=work, VERIF_REPO=REPO,
        VERIF_SCRATCH=work, PYTHONWARNINGS="ignore",
    )
    procs = []

    def start(w, skip):
        outp = os.path.join(work, f"{driver}_{w}_{skip}.ndjson")
        cmd = [PY, os.path.join(VERIF, "lib", "worker.py"), driver, "--tier", tier, "--seed", str(seed),
               "--worker", str(w), "--of", str(workers), "--skip", str(skip), "--out", outp]
        if cases_file:
            cmd += ["--cases", cases_file]
        errp = open(outp + ".err", "w+")
        return [w, skip, subprocess.Popen(cmd, env=env, stdout=errp, stderr=subprocess.STDOUT, cwd=work), outp, errp]

    files = []
    live = [start(w, 0) for w in range(workers)]
    restarts = 0
    end = time.time() + timeout
    crashes = []
    while live:
        nxt = []
        for rec in live:
            w, skip, p, outp, errp = rec
            rc = p.poll()
            hung = False
            if rc is None:
                cur = outp + ".cur"
                try:
                    age = time.time() - os.stat(cur).st_mtime
                except OSError:
                    age = 0
                if age > 240:
                    p.kill()
                    p.wait()
                    hung = True
                elif time.time() > end:
                    p.kill()
                    p.wait()
                    raise Machinery(f"driver {driver} exceeded its time budget")
                else:
                    nxt.append(rec)
                    continue
            files.append(outp)
            if rc == 0 and not hung:
                continue
            # died: which case was it executing?
            errp.seek(0)
            tail = errp.read()[-3000:]
            try:
                cur = json.load(open(outp + ".cur"))
            except Exception:
                raise Machinery(f"driver {driver} worker {w} failed rc={rc}\n{tail}")
            if rc is not None and rc > 0 and not hung:
                raise Machinery(f"driver {driver} worker {w} failed rc={rc}\n{tail}")
            crashes.append((cur["id"], cur["case"], "hang" if hung else f"crash-signal{-rc}"))
            restarts += 1
            if restarts <= 6:
                nxt.append(start(w, cur["pos"] + 1))
        live = nxt
        if live:
            time.sleep(0.05)
    traces, cases, direct = {}, {}, []
    for fn in files:
        if not os.path.exists(fn):
            continue
        for line in open(fn):
            if not line.endswith("\n"):
                continue  # cut short by a crash
            rec = json.loads(line)
            i = rec["id"]
            cases[i] = rec["case"]
            if "err" in rec:
                direct.append((i, rec["err"]))
            elif rec["events"]:
                traces[i] = [json.dumps(dict(e, id=i, k=k)) for k, e in enumerate(rec["events"])]
    for i, c, why in crashes:
        cases[i] = c
        traces.pop(i, None)
        direct.append((i, why))
    return traces, cases, direct


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                known.append(json.loads(line))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-mc", action="store_true")
    ap.add_argument("--show", type=int, default=3)
    ap.add_argument("--width", type=int, default=300)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    prop = PROPS[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif_{a.prop}_")
    try:
        rc = check(a, prop, tier, seed, work, t0)
    except Machinery as e:
        print(f"MACHINERY-ERROR {a.prop}: {e}")
        rc = 2
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def case_text(c, n=600):
    s = json.dumps(c)
    return s if len(s) <= n else s[:n] + "..."


def check(a, prop, tier, seed, work, t0):
    pid = a.prop
    states = transitions = 0
    mc_info = []
    # 1. model checking of the specification itself
    gen_cases = {}
    mcs = [] if (a.replay or a.no_mc) else prop.get("mc", [])
    mc_procs = []
    for mc in mcs:
        if mc.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        if mc.get("only") and mc["only"] != tier:
            continue
        rc, out = run_tlc_mc(mc["module"], mc["cfg"], work, timeout=mc.get("timeout", 700), heap=mc.get("heap", "3g"),
                             workers=mc.get("workers", 1 if mc.get("behaviours") else NCPU),
                             env={"GEN": os.path.join(work, "gen.ndjson")})
        if rc != 0 or "No error has been found" not in out:
            raise Machinery(f"model checking {mc['cfg']} failed (the specification itself is inconsistent):\n{out[-4000:]}")
        g, d = parse_states(out)
        states += d
        transitions += g
        mc_info.append({"config": mc["cfg"], "distinct_states": d, "generated": g})
        if mc.get("behaviours"):
            gl = gen_cases.setdefault(mc["behaviours"], [])
            for m in re.finditer(r'^"?BEH (.*?)"?$', out, re.M):
                gl.append(json.loads(m.group(1).replace('\\"', '"')))
    # 2. drive the implementation, 3. validate the traces with TLC
    total_traces = total_events = 0
    bad = []
    badev = {}
    allcases = {}
    samples = []
    kinds = {}
    for dr in prop["drivers"]:
        name = dr["name"]
        cases_file = None
        if a.replay:
            rep = json.load(open(a.replay))
            if rep["driver"] != name:
                continue
            cases_file = os.path.join(work, "replay_cases.json")
            json.dump([rep["case"]], open(cases_file, "w"))
        elif name in gen_cases:
            cases_file = os.path.join(work, f"gen_{name}.json")
            json.dump({"append": gen_cases[name]}, open(cases_file, "w"))
        traces, cases, direct = run_driver(name, tier, seed, work, cases_file=cases_file,
                                           workers=1 if a.replay else dr.get("workers", NCPU))
        if os.environ.get("VERIF_TIME"):
            print(f"  [{time.time()-t0:.1f}s] {name}: {len(cases)} cases executed", flush=True)
        if not cases:
            raise Machinery(f"driver {name} produced no case")
        for i, why in direct:
            bad.append((name, i, why))
        nsh = 1 if len(traces) < 8 else dr.get("shards", NCPU)
        rej, g, d = validate([traces[i] for i in sorted(traces)], dr["module"], dr["module"] + ".cfg", work, nsh, dr.get("timeout", 700))
        if os.environ.get("VERIF_TIME"):
            print(f"  [{time.time()-t0:.1f}s] {name}: validated", flush=True)
        states += d
        transitions += g
        total_traces += len(traces)
        total_events += sum(len(t) for t in traces.values())
        seen = set()
        for i, clause, k in rej:
            if (i, clause) not in seen:
                seen.add((i, clause))
                bad.append((name, i, clause))
                badev[name, i, clause] = traces[i][k]
        allcases[name] = cases
        for i in sorted(cases)[:: max(1, len(cases) // 2)][:2]:
            samples.append({"driver": name, "case": json.loads(case_text(cases[i], 10**6)) if len(case_text(cases[i])) < 590 else case_text(cases[i])})
        for c in cases.values():
            k = name + ":" + str(c.get("op", c.get("kind", "case")) if isinstance(c, dict) else "case")
            kinds[k] = kinds.get(k, 0) + 1
    # 4. verdict
    known = [k for k in load_known() if k["property"] == pid]
    fresh, hit = [], {}
    for name, i, clause in bad:
        c = allcases[name][i]
        for k in known:
            if k.get("driver") == name and k.get("clause") == clause and match_known(k["match"], c):
                hit[k["what"]] = k
                break
        else:
            fresh.append((name, i, clause))
    for w in hit:
        print(f"KNOWN-FINDING: property={pid} {w}")
    os.makedirs(EVID, exist_ok=True)
    if a.replay is None:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": transitions,
                "traces_validated_against_impl": total_traces,
                "events_validated": total_events,
                "model_checking_runs": mc_info,
                "cases_by_kind": dict(sorted(kinds.items(), key=lambda x: -x[1])[:60]),
                "samples": samples[:6],
            },
            "assumptions": prop.get("assumptions", []) + [
                "the compiled riptide_cpp extension and NumPy are part of the trusted base (not in this repository)",
                "bounded exploration: the inputs enumerated/generated by the drivers, at the sizes listed in DESIGN.md",
            ],
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        }
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    if fresh:
        rp = os.path.join(EVID, f"{pid}.replay.json")
        name, i, clause = fresh[0]
        json.dump({"property": pid, "driver": name, "clause": clause, "case": allcases[name][i],
                   "all": [{"driver": n, "clause": cl, "case": allcases[n][j], "event": badev.get((n, j, cl))} for n, j, cl in fresh[:3000]]}, open(rp, "w"), indent=1)
        clauses = {}
        for n, j, cl in fresh:
            clauses.setdefault((n, cl), []).append(j)
        for (n, cl), js in sorted(clauses.items(), key=lambda x: -len(x[1])):
            print(f"  {n}: clause {cl}: {len(js)} traces; e.g.")
            for j in js[: a.show]:
                print("    CASE", case_text(allcases[n][j], a.width))
                if (n, j, cl) in badev:
                    print("      EVENT", badev[n, j, cl][: a.width])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} traces={total_traces} events={total_events} states={states} wall={time.time()-t0:.1f}s")
    return 0


def match_known(pat, case):
    """pat: dict path -> required value (subset match on the case)."""
    if isinstance(pat, dict):
        return isinstance(case, dict) and all(k in case and match_known(v, case[k]) for k, v in pat.items())
    return pat == case


if __name__ == "__main__":
    main()
