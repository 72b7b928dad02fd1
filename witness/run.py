"""Run the real code of /repo on concrete cases and judge the outcome (the search for failing inputs).

    run.py C14 --tier quick --seed 1 --out FILE [--jobs N] [--limit SECONDS]
    run.py --replay FILE

A case is a JSON value; witness/cNN.py makes the cases (cases(rng, tier)) and judges them (run(case) -> None or
what is wrong).  Every case runs in its own process, as an unprivileged user if possible, in a scratch
directory that is removed afterwards, with HOME in it.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LICANT_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
NOBODY = 65534


def load(prop):
    import witness_lib  # noqa: F401  imports licant before privileges are dropped
    return importlib.import_module(prop.lower())


def child(mod, case, w, scratch):
    code = 3
    try:
        os.setpgid(0, 0)
        os.environ["HOME"] = scratch
        for k in ("PREFIX",):
            os.environ.pop(k, None)
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = scratch
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        if not os.environ.get("WITNESS_VERBOSE"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        if os.getuid() == 0:
            os.chown(scratch, NOBODY, NOBODY)
            try:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            except OSError:
                pass
        os.chdir(scratch)
        sys.argv = ["make.py"]
        try:
            r = mod.run(case)
        except BaseException as e:
            tb = traceback.format_exc()
            if getattr(e, "harness", False):
                r = {"harness": tb}
            else:
                r = "unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-1500:])
        if r is not None:
            d = r if isinstance(r, dict) else {"error": str(r)}
            os.write(w, json.dumps(d).encode()[:60000])
        code = 0
    finally:
        os._exit(code)


def run_case(mod, case, timeout):
    """(status, error): status ok | bad | timeout | harness"""
    base = tempfile.mkdtemp(prefix="licant-w-")
    os.chmod(base, 0o755)
    scratch = os.path.join(base, "s")
    os.mkdir(scratch)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(mod, case, w, scratch)
    os.close(w)
    data = b""
    end = time.time() + timeout
    status = "ok"
    while True:
        left = end - time.time()
        if left <= 0:
            status = "timeout"
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
            break
    os.close(r)
    if status == "timeout":
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    else:
        # the answer is in: give the process a moment to end, then end it
        for _ in range(200):
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.005)
        else:
            p = 0
        if not p:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        else:
            if not data and st != 0:
                data = json.dumps({"harness": "child ended with status %s" % st}).encode()
            pid = None
    if pid:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    shutil.rmtree(base, ignore_errors=True)
    if status == "timeout":
        return "timeout", "did not end within %d s" % timeout
    if data:
        d = json.loads(data.decode())
        if "harness" in d:
            return "harness", d["harness"]
        return "bad", d["error"]
    return "ok", None


def judge(mod, case):
    t = getattr(mod, "TIMEOUT", 20)
    st, err = run_case(mod, case, t)
    if st == "timeout":
        if not getattr(mod, "TIMEOUT_VIOLATES", False):
            return "harness", err
        st, err = run_case(mod, case, 3 * t)
        if st == "timeout":
            st = "bad"
    return st, err


def search(prop, tier, seed, out, jobs, limit):
    mod = load(prop)
    t0 = time.time()
    pids = []
    files = []
    for j in range(jobs):
        f = out + ".%d" % j
        files.append(f)
        pid = os.fork()
        if pid == 0:
            res = {"evaluations": 0, "distinct": [], "bad": None, "harness": None, "n_harness": 0, "samples": [], "hangs": 0}
            try:
                for i, case in enumerate(mod.cases(random.Random(seed), tier)):
                    if i % jobs != j:
                        continue
                    if time.time() - t0 > limit:
                        res["cut"] = True
                        break
                    st, err = judge(mod, case)
                    res["evaluations"] += 1
                    res["distinct"].append(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
                    if len(res["samples"]) < 1:
                        res["samples"].append(case)
                    if st == "bad":
                        res["bad"] = {"case": case, "error": err, "index": i}
                        break
                    if st == "harness":
                        res["harness"] = err
                        res["n_harness"] += 1
            except BaseException:
                res["harness"] = traceback.format_exc()
                res["n_harness"] += 1
            with open(f, "w") as h:
                json.dump(res, h)
            os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    tot = {"evaluations": 0, "distinct": 0, "bad": None, "harness": None, "n_harness": 0, "samples": [], "rule": getattr(mod, "RULE", "")}
    seen = set()
    for f in files:
        if not os.path.exists(f):
            tot["harness"] = "worker died"
            tot["n_harness"] += 1
            continue
        with open(f) as h:
            r = json.load(h)
        os.remove(f)
        tot["evaluations"] += r["evaluations"]
        seen.update(r["distinct"])
        tot["samples"] += r["samples"]
        tot["n_harness"] += r["n_harness"]
        tot["harness"] = tot["harness"] or r["harness"]
        if r.get("cut"):
            tot["cut"] = True
        if r["bad"] and (tot["bad"] is None or r["bad"]["index"] < tot["bad"]["index"]):
            tot["bad"] = r["bad"]
    tot["distinct"] = len(seen)
    tot["samples"] = tot["samples"][:3]
    tot["wall_s"] = time.time() - t0
    with open(out, "w") as h:
        json.dump(tot, h)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--limit", type=float, default=60)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        if "case" not in d:
            print("no failing input was found; the failed obligation:")
            print(json.dumps(d, indent=1)[:4000])
            return 1
        mod = load(d["property"])
        st, err = judge(mod, d["case"])
        print(st, err or "")
        return 1 if st == "bad" else 0
    search(a.prop, a.tier, a.seed, a.out, a.jobs, a.limit)
    return 0


if __name__ == "__main__":
    sys.exit(main())
