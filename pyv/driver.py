"""Runs the proof units of a property and the search for failing inputs, and reports."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

TRUSTED = [
    "the interpreter of Python in /verif/pyv (its reading of the language: evaluation order, exceptions, containers, closures)",
    "z3 5.3.2 (every obligation is an unsat answer; no proof object is checked)",
    "the models of builtins and of the standard library in /verif/pyv/models.py and in the property's specification",
    "integers are mathematical; no memory or recursion limits; no signals or KeyboardInterrupt",
]


def list_units(prop):
    from . import load
    prog = load.Program()
    mod = importlib.import_module("specs." + prop.lower())
    us = mod.units(prog)
    out = []
    for i, (spec, cs) in enumerate(us):
        for j, c in enumerate(cs):
            out.append((i, j, getattr(c, "key", getattr(c, "name", str(c)))))
    return mod, prog, us, out


def run_unit(prop, i, j, q, rlimit):
    try:
        t0 = time.time()
        from . import load
        from .models import Verifier
        mod, prog, us, _ = list_units(prop)
        spec, cs = us[i]
        c = cs[j]
        if rlimit:
            spec.rlimit = rlimit
        eng = Verifier(prog, spec)
        err = None
        n = None
        try:
            n = c.run(eng) if hasattr(c, "run") else eng.verify(c)
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
            if type(e).__name__ not in ("Unsupported", "Restart"):
                err += "\n" + traceback.format_exc()[-1500:]
        obl = eng.obligs
        if err:
            obl = [o for o in obl if not o["ok"]] + [dict(unit=str(c.key), name="verifiable", ok=False, result="error", detail=err, time=0.0, where="", trace=[])]
        q.put(dict(i=i, j=j, key=c.key, paths=n, obligs=obl, assumptions=sorted(eng.assumptions), used=sorted(eng.used_contracts),
                   inlined=sorted(str(x) for x in eng.inlined), solver=eng.solver_time, queries=eng.n_checks, backends=dict(eng.backends), wall=time.time() - t0,
                   loops=len(eng.loops), optional_missing=(n is None and err is None), bounded=getattr(c, "bounded", None)))
    except BaseException:
        q.put(dict(i=i, j=j, key="?", paths=None, obligs=[dict(unit="?", name="verifiable", ok=False, result="error", detail=traceback.format_exc()[-1500:], time=0.0, where="", trace=[])],
                   assumptions=[], used=[], inlined=[], solver=0.0, queries=0, backends={}, wall=0.0, loops=0, optional_missing=False, bounded=None))


def prove(prop, jobs, limit, rlimit):
    """Results of all units."""
    try:
        mod, prog, us, units = list_units(prop)
    except Exception:
        return None, [dict(i=0, j=0, key="specs." + prop, paths=None, obligs=[dict(unit="setup", name="verifiable", ok=False, result="error", detail=traceback.format_exc()[-2000:], time=0.0, where="", trace=[])],
                           assumptions=[], used=[], inlined=[], solver=0.0, queries=0, backends={}, wall=0.0, loops=0, optional_missing=False, bounded=None)]
    ctx = mp.get_context("fork")
    t0 = time.time()
    todo = list(units)
    slow = getattr(mod, "SLOW", ())
    todo.sort(key=lambda u: 0 if any(s in u[2] for s in slow) else 1)
    running = {}
    results = []
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_unit, args=(prop, u[0], u[1], q, rlimit))
            p.start()
            running[u] = (p, q)
        done = []
        for u, (p, q) in running.items():
            if not q.empty():
                results.append(q.get())
                done.append(u)
                p.join()
            elif not p.is_alive():
                if not q.empty():
                    results.append(q.get())
                else:
                    results.append(dead(u, "the verifier process ended with status %s" % p.exitcode))
                done.append(u)
        for u in done:
            del running[u]
        if time.time() - t0 > limit and (running or todo):
            for u, (p, q) in running.items():
                p.kill()
                p.join()
                results.append(dead(u, "not finished within %d s" % limit))
            for u in todo:
                results.append(dead(u, "not started within %d s" % limit))
            break
        if not done:
            time.sleep(0.02)
    results.sort(key=lambda r: (r["i"], r["j"]))
    return mod, results


def dead(u, why):
    return dict(i=u[0], j=u[1], key=u[2], paths=None, obligs=[dict(unit=u[2], name="finished", ok=False, result="timeout", detail=why, time=0.0, where="", trace=[])],
                assumptions=[], used=[], inlined=[], solver=0.0, queries=0, backends={}, wall=0.0, loops=0, optional_missing=False, bounded=None)


def known_findings(here, prop):
    out = []
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def main(here):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-witness", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    wout = os.path.join(here, "evidence", "%s.witness.%d.json" % (prop, os.getpid()))
    wp = None
    thorough = a.tier == "thorough"
    if not a.no_witness and os.path.exists(os.path.join(here, "witness", prop.lower() + ".py")):
        wp = subprocess.Popen(["python3", os.path.join(here, "witness", "run.py"), prop, "--tier", a.tier, "--seed", str(seed), "--out", wout,
                               "--jobs", "3", "--limit", "2400" if thorough else "240"], stdin=subprocess.DEVNULL,
                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    mod, results = (None, []) if a.no_proof else prove(prop, 6, 3000 if thorough else 560, 400000000 if thorough else None)
    obligs = [o for r in results for o in r["obligs"]]
    failed = [(r, o) for r in results for o in r["obligs"] if not o["ok"]]
    if not a.no_proof and not obligs:
        failed.append((dict(key="?", bounded=None), dict(unit="-", name="some-obligation", ok=False, result="none", detail="no obligation was generated", time=0.0, where="", trace=[])))
    witness = None
    if wp is not None:
        try:
            err = wp.communicate(timeout=2700 if thorough else 300)[1]
        except subprocess.TimeoutExpired:
            os.killpg(wp.pid, signal.SIGKILL)
            err = b"timeout"
        if os.path.exists(wout):
            witness = json.load(open(wout))
            os.remove(wout)
        else:
            witness = {"evaluations": 0, "distinct": 0, "bad": None, "harness": (err or b"").decode(errors="replace")[-2000:], "n_harness": 1, "samples": []}
    # report
    lines = []
    nviol = 0
    replay_dir = os.path.join(here, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for l in known_findings(here, prop):
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, l))
    fail_dump = [dict(function=r["key"], obligation=o["name"], result=o["result"], where=o["where"], verifier_output=o["detail"][:3000], path=o["trace"]) for r, o in failed[:20]]
    if witness and witness["bad"]:
        path = os.path.join(replay_dir, "%s.json" % prop)
        json.dump(dict(property=prop, case=witness["bad"]["case"], error=witness["bad"]["error"], run="python3 /verif/witness/run.py --replay %s" % path,
                       failed_obligations=fail_dump), open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        nviol += 1
    elif failed:
        path = os.path.join(replay_dir, "%s.json" % prop)
        json.dump(dict(property=prop, failed_obligations=fail_dump), open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        nviol += 1
    for r in results:
        bad = [o for o in r["obligs"] if not o["ok"]]
        print("%-70s obligations %4d failed %d  %.1fs" % (r["key"], len(r["obligs"]), len(bad), r["wall"]))
        seen = set()
        for o in bad:
            k = (o["name"], o["where"])
            if k in seen:
                continue
            seen.add(k)
            print("    FAILED %s (%s) at %s: %s" % (o["name"], o["result"], o["where"], o["detail"][:2000 if a.v else 160].replace("\n", " ")))
    if witness:
        print("real executions searched for a failing input: %d (%d distinct), harness errors %d" % (witness["evaluations"], witness["distinct"], witness["n_harness"]))
        if witness["harness"]:
            print("    harness: " + witness["harness"][-600:])
        if witness["bad"]:
            print("    FAILING INPUT: %s\n    %s" % (json.dumps(witness["bad"]["case"])[:1500], witness["bad"]["error"][:1500]))
    assumptions = sorted(set(x for r in results for x in r["assumptions"]) | set(getattr(mod, "ASSUMPTIONS", []) if mod else []))
    trusted = TRUSTED + list(getattr(mod, "TRUSTED", []) if mod else [])
    proved = [r for r in results if not r["bounded"]]
    bounded = [r for r in results if r["bounded"]]
    ev = dict(property=prop, tier=a.tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=nviol, assumptions=assumptions, coverage=dict(
        obligations=sum(len(r["obligs"]) for r in proved), discharged=sum(1 for r in proved for o in r["obligs"] if o["ok"]),
        checker_cmd="python3-vt /verif/check.py %s --tier %s" % (prop, a.tier), trusted_base=trusted,
        functions_under_contract=[dict(function=r["key"], paths=r["paths"], obligations=len(r["obligs"]), failed=sum(1 for o in r["obligs"] if not o["ok"]),
                                       queries=r["queries"], solver_s=round(r["solver"], 2), loops_cut=r["loops"], callee_contracts_used=r["used"],
                                       interpreted_in_place=r["inlined"], missing_optional=r["optional_missing"]) for r in proved],
        bounded_checks=[dict(function=r["key"], bound=r["bounded"], obligations=len(r["obligs"])) for r in bounded],
        back_ends={"z3": sum(r["backends"].get("z3", 0) for r in results)},
        solver_s=round(sum(r["solver"] for r in results), 2),
        failing_input_search=None if not witness else dict(evaluations=witness["evaluations"], distinct_nontrivial=witness["distinct"], rule=witness.get("rule", ""),
                                                           samples=witness["samples"], harness_errors=witness["n_harness"]),
        evaluations=witness["evaluations"] if witness else 0,
        obligation_names=sorted(set("%s: %s" % (r["key"], o["name"]) for r in results for o in r["obligs"]))[:400],
    ))
    p = os.path.join(here, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if nviol else 0
