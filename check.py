#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: verify one property of /repo's working tree.

1. pyvc generates the obligations of the property's units from the current sources
   and discharges them (pyvc/unit.py);
2. a short concrete run of the real code under CPython cross-checks the models of
   the libraries (harness/), labelled bounded;
3. an undischarged obligation starts a search for a failing input in the real code.

exit 0: held; exit 1 with a VIOLATION line: broken."""

import argparse
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
SRC = "/repo/src"


def harness(prop, budget, seed, tier, hints=None):
    """start a concrete run"""
    cmd = [PY, "-B", os.path.join(HERE, "harness", "core.py"), prop, "--budget", str(budget), "--seed", str(seed), "--tier", tier]
    f = None
    if hints:
        f = tempfile.NamedTemporaryFile("w", suffix=".json", prefix="hints", delete=False)
        json.dump(hints, f)
        f.close()
        cmd += ["--hints", f.name]
    env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=HERE)
    p.hints = f.name if f else None
    p.limit = budget + 700
    return p


def harvest(p):
    try:
        out, err = p.communicate(timeout=p.limit)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
    if p.hints:
        os.unlink(p.hints)
    try:
        return json.loads(out[out.index("{"):])
    except ValueError:
        return {"evaluations": 0, "distinct": 0, "failures": [], "errors": [{"case": None, "trace": (err or out)[-2000:]}], "samples": [], "wall_s": 0}


def work(i, prop, tier, q):
    from pyvc import unit

    u = unit.UNITS[prop][i]
    if tier == "thorough":
        u.timeout *= 3
        u.budget *= 3
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        r = unit.run_unit(u, SRC)
    except BaseException as e:
        r = {"unit": u.name, "property": prop, "status": "unsupported", "obligations": [], "reason": "engine: %s: %s" % (type(e).__name__, e),
             "functions": [], "contracts": [], "stubs": [], "files": [], "solver": {"queries": {}, "time": {}}, "queries": 0, "paths": 0, "wall_s": 0}
    q.put((i, r))


def prove(prop, tier, jobs, limit):
    """results of all units of the property"""
    from pyvc import unit

    unit.load_all()
    us = unit.UNITS.get(prop, [])
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    todo = sorted(range(len(us)), key=lambda i: -us[i].weight)
    live, res = {}, {}
    t0 = time.time()

    def dead(i, why):
        res[i] = {"unit": us[i].name, "property": prop, "status": "unsupported", "obligations": [], "reason": why, "functions": [], "contracts": [],
                  "stubs": [], "files": [], "solver": {"queries": {}, "time": {}}, "queries": 0, "paths": 0, "wall_s": round(time.time() - t0, 1)}

    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            p = ctx.Process(target=work, args=(i, prop, tier, q), daemon=True)
            p.start()
            live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=1)
            res[i] = r
            live.pop(i)[0].join(5)
        except Exception:
            pass
        now = time.time()
        for i, (p, t) in list(live.items()):
            if now - t0 > limit or now - t > us[i].budget * (3 if tier == "thorough" else 1) + 60:
                p.kill()
                live.pop(i)
                dead(i, "verification time limit")
            elif not p.is_alive() and q.empty() and now - t > 2:
                time.sleep(0.5)
                if q.empty():
                    live.pop(i)
                    dead(i, "the verifier process ended (exit %s)" % p.exitcode)
    return [res[i] for i in sorted(res)]


def model_hints(units):
    out = {"ints": [], "strs": []}
    for r in units:
        for o in r["obligations"]:
            for n, v in o.get("values") or ():
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    out["ints"].append(v)
                elif isinstance(v, str):
                    out["strs"].append(v)
    return out


def known(prop):
    """findings recorded in known-findings.txt: (input or obligation, description)"""
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            if l.startswith("finding: property=%s " % prop):
                out.append(json.loads(l.split(" ", 2)[2]))
    except FileNotFoundError:
        pass
    return out


def fingerprint():
    """hash of the program text of the sources, without comments, docstrings and layout"""
    import ast
    import glob
    import hashlib

    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(SRC, "age", "**", "*.py"), recursive=True)):
        if f.endswith("_test.py") or f.endswith("_version.py"):
            continue
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except Exception as e:
            h.update(repr(e).encode())
            continue
        for n in ast.walk(tree):
            if hasattr(n, "body") and isinstance(n.body, list):
                n.body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] or [ast.Pass()]
        h.update((os.path.relpath(f, SRC) + "\0" + ast.dump(tree) + "\0").encode())
    return h.hexdigest()


def same_program():
    """is this the program the committed proofs were done for?  Only used to tell a
    solver that ran out of time from an obligation that a change made unprovable."""
    try:
        return json.load(open(os.path.join(HERE, "accepted.json")))["sources"] == fingerprint()
    except (OSError, ValueError, KeyError):
        return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    if a.replay:
        rec = json.load(open(a.replay))
        if "input" in rec:
            env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1")
            sys.exit(subprocess.call([PY, "-B", os.path.join(HERE, "harness", "core.py"), prop, "--replay", a.replay], env=env))
        print(json.dumps(rec, indent=1)[:4000])
        sys.exit(1)
    t0 = time.time()
    thorough = tier == "thorough"
    jobs = 7
    h = harness(prop, 120 if thorough else 8, seed, tier)
    units = prove(prop, tier, jobs, 640 if thorough else 400)
    conc = [harvest(h)]
    bad = [r for r in units if r["status"] != "proved"]
    fails = [f for c in conc for f in c["failures"]]
    errors = [e for c in conc for e in c["errors"]]
    if bad and not fails:
        # search for a failing input in the real code, with the models' values as hints
        left = max(20, 840 - (time.time() - t0))
        budget = min(60 if not thorough else 120, left / 3)
        ps = [harness(prop, budget, seed * 100 + k, "thorough", model_hints(units)) for k in range(4)]
        for p in ps:
            p.limit = max(30, 860 - (time.time() - t0))
        more = [harvest(p) for p in ps]
        conc += more
        fails = [f for c in more for f in c["failures"]]
        errors += [e for c in more for e in c["errors"]]
    listed = known(prop)
    new = []
    for f in fails:
        hit = [k for k in listed if k.get("input") == f["case"] or (k.get("failure") and k["failure"] == f["failure"])]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0].get("what", f["failure"])))
        else:
            new.append(f)
    obls = [dict(o, unit=r["unit"], dep=r.get("dep", False)) for r in units for o in r["obligations"]]
    undone = [o for o in obls if o["status"] != "unsat"]
    done = [o for o in obls if o["status"] == "unsat"]
    refuted = [o for o in undone if o["status"] == "sat" and o["exact"] and not o["dep"]]
    if not refuted and not same_program():
        # an obligation of a changed program that the verifier does not accept, in a unit it worked through to the end
        whole = {r["unit"] for r in units if r["status"] == "failed" and not r.get("dep") and not r.get("late")}
        refuted = [o for o in undone if o["unit"] in whole and not o["dep"]]
    replay = os.path.join(HERE, "evidence", prop + ".replay.json")
    if os.path.exists(replay):
        os.unlink(replay)
    failed = undone[0] if undone else None
    verdict, line = 0, None
    rec = {"property": prop, "obligation": failed and {k: failed[k] for k in ("unit", "name", "status", "goal", "values", "path", "output")},
           "verifier_output": (failed or {}).get("output"), "smt2": ((failed or {}).get("script") or "")[:20000],
           "units_not_proved": [(r["unit"], r["status"], r["reason"]) for r in bad]}
    if new:
        rec.update(input=new[0]["case"], failure=new[0]["failure"], seed=seed)
        verdict, line = 1, "VIOLATION property=%s replay=%s" % (prop, replay)
        print("%s: %s" % (prop, new[0]["failure"]))
    elif refuted:
        o = refuted[0]
        rec["obligation"] = {k: o[k] for k in ("unit", "name", "status", "goal", "values", "path", "output")}
        rec["verifier_output"], rec["smt2"] = o["output"], (o["script"] or "")[:20000]
        verdict, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
        print("%s: failed obligation: %s / %s" % (prop, o["unit"], o["name"]))
    if verdict:
        json.dump(rec, open(replay, "w"), indent=1, default=str)
    for r in bad:
        print("%s: not proved: %s: %s %s" % (prop, r["unit"], r["status"], r["reason"]))
    for o in undone[:10]:
        print("%s: undischarged (%s, %s): %s / %s" % (prop, o["status"], "exact" if o["exact"] else "inexact", o["unit"], o["name"]))
    for e in errors[:3]:
        print("%s: harness error: %s" % (prop, e["trace"]), file=sys.stderr)
    backends, stime = {}, {}
    for o in done:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    for r in units:
        for k, x in r["solver"]["time"].items():
            stime[k] = round(stime.get(k, 0) + x, 2)
    from pyvc import axioms, unit

    meta = unit.PROPS.get(prop, {})
    proved = bool(units) and not bad and bool(done)
    level = "proof" if proved and not meta.get("bounded") else "exploration"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": len(obls), "discharged": len(done), "checker_cmd": "python3-vt -m pyvc.unit " + prop,
            "trusted_base": ["pyvc (the obligation generator in /verif/pyvc)", "cvc5 1.1.2", "z3"] + sorted("library model: " + x for r in units for x in r["stubs"])[:0]
            + sorted({"library model: " + x for r in units for x in r["stubs"]}),
            "discharged_by": backends, "solver_seconds": stime, "solver_queries": sum(r["queries"] for r in units), "paths": sum(r["paths"] for r in units),
            "functions_under_contract": sorted({f for r in units for f in r["functions"]} | {f for r in units for f in r["contracts"]}),
            "functions_used_by_contract": sorted({f for r in units for f in r["contracts"]}),
            "source_files": sorted({f for r in units for f in r["files"]}),
            "units": [{"name": r["unit"], "of_another_property": r.get("dep", False), "status": r["status"], "reason": r["reason"], "obligations": len(r["obligations"]),
                       "discharged": sum(o["status"] == "unsat" for o in r["obligations"]), "paths": r["paths"], "wall_s": r["wall_s"]} for r in units],
            "obligation_names": sorted({"%s / %s" % (o["unit"], o["name"]) for o in obls})[:400],
            "undischarged": [{k: o[k] for k in ("unit", "name", "status", "exact")} for o in undone][:50],
            "bounded_part": meta.get("bounded", "none: the concrete run below only cross-checks the library models"),
            "evaluations": sum(c["evaluations"] for c in conc), "distinct_nontrivial": sum(c["distinct"] for c in conc),
            "rule": "concrete cases of harness/searches.py for this property run against the real code under CPython (bounded); distinct = distinct case descriptions",
            "samples": [s for c in conc for s in c["samples"]][:6] or ["none"],
        },
        "assumptions": sorted(axioms.TRUSTED.values()) + unit.ASSUME + list(meta.get("assume", ())),
        "wall_s": round(time.time() - t0, 2), "violations": len(new) + (1 if verdict and not new else 0),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %s, %d/%d obligations discharged in %d units, %d concrete cases, %.1f s" % (
        prop, level, len(done), len(obls), len(units), ev["coverage"]["evaluations"], ev["wall_s"]))
    if line:
        print(line)
    sys.stdout.flush()
    sys.exit(verdict)


if __name__ == "__main__":
    main()
