"""C21: random registry files, includes (also from included scripts) and registry edits against maps."""
import contextlib
import io
import json
import os
from witness_lib import *
import licant.libs as L
import licant.licant_libs as U
import licant.scripter as SC

RULE = "random contents of the user's and the system's registry file, a random history of includes (with and without path, from scripts that include others) and of registry commands"
NAMES = ["a", "b", "c", "d.e", "zlib"]


def cases(rng, tier):
    for k in range(250 if tier == "quick" else 4000):
        if rng.random() < 0.5:
            reg = [None if rng.random() < 0.15 else {n: "%s_%s.py" % (t, n) for n in NAMES if rng.random() < 0.6} for t in ("sys", "usr")]
            inner = {}
            for t in ("sys", "usr", "own"):
                for n in NAMES:
                    if rng.random() < 0.3:
                        m = rng.choice(NAMES)
                        inner["%s_%s.py" % (t, n)] = [m, rng.random() < 0.3]
            ops = [[rng.choice(NAMES), rng.choice([None, None, "own"]), rng.random() < 0.1] for _ in range(rng.randint(1, 6))]
            yield {"kind": "include", "reg": reg, "inner": inner, "ops": ops}
        else:
            reg = [None if rng.random() < 0.2 else {n: "/x/%s_%s" % (t, n) for n in NAMES if rng.random() < 0.6} for t in ("sys", "usr")]
            ops = []
            for _ in range(rng.randint(1, 5)):
                ops.append([rng.choice(["add", "add", "remove", "dir", "list", "missing", "none", "many"]), rng.random() < 0.5, rng.choice(NAMES), rng.choice(["f.py", "sub/g.py", "./f.py", "sub/../f.py"])])
            yield {"kind": "edit", "reg": reg, "ops": ops}


def setup(reg):
    L.gpath, L.lpath = os.path.abspath("gp.json"), os.path.abspath("lp.json")
    for r, p in zip(reg, (L.gpath, L.lpath)):
        if r is not None:
            with open(p, "w") as f:
                json.dump(r, f)
    L.libs = None
    L.glibs, L.llibs = {}, {}
    L.included.clear()


def run(case):
    return (run_include if case["kind"] == "include" else run_edit)(case)


def run_include(case):
    base = os.getcwd()
    reg = [None if r is None else {k: os.path.join(base, v) for k, v in r.items()} for r in case["reg"]]
    setup(reg)
    os.mkdir("w")
    sys.argv[0] = os.path.join(base, "make.py")
    SC.scriptq = q = SC.ScriptQueue()
    L.scriptq = q
    ran = []
    SC._ran = ran.append
    SC._inc = L.include
    allf = ["%s_%s.py" % (t, n) for t in ("sys", "usr", "own") for n in NAMES]
    for f in allf:
        with open(f, "w") as h:
            h.write("_ran(%r)\n" % f)
            if f in case["inner"]:
                m, own = case["inner"][f]
                h.write("_inc(%r%s)\n" % (m, ", %r" % os.path.join(base, "own_%s.py" % m) if own else ""))
    merged = {}
    for r in reg:
        merged.update(r or {})
    inc, want = set(), []

    class End(Exception):
        pass

    def model(n, path):
        if n in inc:
            return
        if path is None:
            if n not in merged:
                raise End()
            path = merged[n]
        inc.add(n)
        f = os.path.basename(path)
        want.append(f)
        if f in case["inner"]:
            m, own = case["inner"][f]
            model(m, os.path.join(base, "own_%s.py" % m) if own else None)
    for i, (n, path, again) in enumerate(case["ops"]):
        p = os.path.join(base, "own_%s.py" % n) if path else None
        try:
            model(n, p)
            bad = False
        except End:
            bad = True
        ended, code, v = exits(L.include, n, p) if p else exits(L.include, n)
        if ended != bad:
            return "include %d of %s: %s" % (i, n, "ended the program" if ended else "an unregistered library was accepted")
        if ended:
            if not error_status(code):
                return "include %d: exit status %r" % (i, code)
            break
        if ran != want:
            return "include %d of %s: scripts executed %r, expected %r" % (i, n, ran, want)
    if ran != want:
        return "scripts executed %r, expected %r" % (ran, want)
    return None


def read(p):
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return json.load(f)


def run_edit(case):
    setup(case["reg"])
    os.mkdir("sub")
    for f in ("f.py", "sub/g.py", "sub/p.g.py", "sub/q.g.py", "sub/r.py"):
        open(f, "w").close()
    for i, (op, user, n, path) in enumerate(case["ops"]):
        before = [read(L.gpath), read(L.lpath)]
        sel = 1 if user else 0
        want = list(before)
        cur = dict(before[sel] or {})
        argv = ["-u"] if user else []
        done = True
        if op == "add":
            argv += [n, path]
            cur[n] = os.path.abspath(path)
        elif op == "remove":
            argv = argv + ["-r", n] if i % 2 else ["--remove"] + argv + [n]
            cur.pop(n, None)
        elif op == "dir":
            argv += ["sub"]
            cur["p"], cur["q"] = os.path.abspath("sub/p.g.py"), os.path.abspath("sub/q.g.py")
        elif op == "list":
            argv += ["-l"]
            done = False
        elif op == "missing":
            argv += [n, "nosuchfile"]
            done = False
        elif op == "none":
            done = False
        elif op == "many":
            argv += [n, path, "x"]
            done = False
        if done:
            want[sel] = cur
        sys.argv[1:] = argv
        U.paths = {}
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ended, code, v = exits(U.licant_libs_utility)
        after = [read(L.gpath), read(L.lpath)]
        if (after[0] or {}, after[1] or {}) != (want[0] or {}, want[1] or {}):
            return "licant-libs %s: registries are %r, expected %r" % (" ".join(argv), after, want)
        if done and ended and error_status(code):
            return "licant-libs %s ended with status %r" % (" ".join(argv), code)
    return None
