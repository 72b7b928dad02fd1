"""C20: random registries and command lines; which action ran with which arguments, and the exit status."""
import contextlib
import io
import os
from witness_lib import *
import licant.cli as CLI
import licant.core as C
import licant.make as MK

RULE = "a random registry (targets with actions of their own, updatable targets, routines, files), default target and argument list; the actions called, their arguments and the way the program ends are compared with the rule"
NAMES = ["all", "t", "u", "f.txt", "act", "run me"]
ACTS = ["act", "go", "t", "clean_it"]
RES = [None, True, 0, "", False, "x", "raise", "exit0", "exit3"]


def cases(rng, tier):
    for k in range(500 if tier == "quick" else 6000):
        tg = []
        for n in NAMES:
            if rng.random() < 0.6:
                tg.append([n, rng.choice(["plain", "plain", "routine", "upd"]), [a for a in ACTS if rng.random() < 0.5], rng.choice(["action", "go", "act"]), rng.choice(RES)])
        args = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, 4])):
            args.append(rng.choice(NAMES + ACTS + ["./f.txt", "d/../f.txt", "x=1", "12", "nope", "abc"]))
        opts = []
        if rng.random() < 0.3:
            opts = rng.choice([["-d"], ["-j", "3"], ["-q"], ["-j2"]])
        yield {"targets": tg, "args": args, "opts": opts, "default": rng.choice([None] + NAMES + ["nope"]), "pos": rng.random() < 0.5}


class Boom(Exception):
    pass


def result(r):
    if r == "raise":
        raise Boom()
    if r == "exit0":
        sys.exit(0)
    if r == "exit3":
        sys.exit(3)
    return r


def run(case):
    core = C.Core()
    MK.default_core = lambda: core
    log = []
    reg = {}
    for n, kind, acts, dflt, res in case["targets"]:
        name = n
        if n.endswith(".txt"):
            name = os.path.realpath(n)

        def make(name, kind, act, res):
            def plain(self, *a, **k):
                log.append((self.tgt, act, list(a), dict(k)))
                return result(res)
            return plain
        fs = {a: make(name, kind, a, res) for a in acts + ["go", "act", "action"]}
        if kind == "plain":
            t = C.Target(name, actions=acts, **{a: f for a, f in fs.items() if a != "action"}, action=fs["action"])
            t.default_action = dflt
            core.add(t)
        elif kind == "upd":
            t = C.UpdatableTarget(name, deps=[], actions=acts, update_if=lambda s: True, **{a: f for a, f in fs.items() if a != "action"})
            t.default_action = dflt if dflt != "action" else "go"
            core.add(t)
        else:
            def rout(*a, _n=name, _r=res):
                log.append((_n, "routine", list(a), {}))
                return result(_r)
            rout.__name__ = "rout"
            t = C.Routine(rout, update_if=lambda s: True, tgt=name)
            core.add(t)
        reg[name] = (t, kind, acts, res)

    def find(n):
        return reg.get(n) or reg.get(os.path.realpath(n))
    args, default = case["args"], case["default"]
    want = None
    if not args:
        x = find(default) if default is not None else None
        if x:
            want = (x, x[0].default_action, [])
    else:
        x = find(args[0])
        if x:
            if len(args) == 1 or x[1] == "routine":
                want = (x, x[0].default_action, args[1:])
            elif args[1] in x[0].__actions__:
                want = (x, args[1], args[2:])
        elif default is not None:
            d = find(default)
            if d and args[0] in d[0].__actions__:
                want = (d, args[0], args[1:])
    argv = (case["opts"] + args) if case["pos"] else (args + case["opts"])
    CLI.opts = CLI.args = None
    out = io.StringIO()
    code, exc = None, None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            CLI.cliexecute(default=default, argv=argv, core=core)
            code = 0
        except SystemExit as e:
            code = e.code
        except BaseException as e:
            exc = e
    failed = exc is not None or error_status(code)
    what = "targets %r, default %r, arguments %r" % ([(t[0], t[1], t[2], t[3], t[4]) for t in case["targets"]], default, argv)
    if want is None:
        if log:
            return "%s: ran %r, nothing is to be run" % (what, log)
        if not failed:
            return "%s: ended without error status" % what
        if exc is not None:
            return "%s: ended with %r" % (what, exc)
        return None
    x, act, rest = want
    t, kind, acts, res = x
    if kind == "routine":
        exp = [(t.tgt, "routine", rest, {})]
    else:
        exp = [(t.tgt, act, rest, {})]
    if log != exp:
        return "%s: ran %r, expected %r" % (what, log, exp)
    bad = res is False or res == "raise" or res == "exit3"
    if kind == "routine" and res == "exit0":
        return None
    if bad != failed:
        return "%s: action gave %r, exit status %r %r" % (what, res, code, exc)
    return None
