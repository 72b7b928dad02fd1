"""C11: random shell commands run through Executor and do_execute."""
import io
import os
from witness_lib import *
import licant.make as M
import licant.util as U
import licant.core as C

TIMEOUT = 20
TIMEOUT_VIOLATES = True
RULE = "random shell commands (exit statuses, signals, much and non-UTF-8 output on both streams, attributes in placeholders) with random message settings, of file targets, directories and plain targets; the command logs every run"


def cases(rng, tier):
    for k in range(150 if tier == "quick" else 1500):
        end = rng.choice(["exit 0", "exit 0", "exit 0", "exit 1", "exit %d" % rng.randint(2, 255), "kill -9 $$", "kill -15 $$", "false", "true"])
        yield {"end": end, "out": rng.choice(["", "plain", "big", "bytes", "braces"]), "err": rng.choice(["", "plain", "big", "bytes"]), "msg": rng.choice(["default", "none", "quite", "text", "missing"]),
               "field": rng.choice(["message", "message", "other"]), "debug": rng.random() < 0.3, "quite": rng.random() < 0.3, "prefix": rng.choice([None, None, "[1/2]"]),
               "kind": rng.choice(["file", "file", "updatable", "target"]), "attr": rng.choice(["x", "a b", "{y}", "$HOME", "é"]), "via": rng.choice(["executor", "executor", "update", "execute"])}


class Tee(io.StringIO):
    encoding = "utf-8"


def stream(kind, fd):
    return {"": "true", "plain": "echo text%d >&%d" % (fd, fd), "big": "head -c 300000 /dev/zero | tr '\\0' 'x' >&%d" % fd, "bytes": "printf '\\377\\376abc%d' >&%d" % (fd, fd),
            "braces": "echo '{{curly}}' >&%d" % fd}[kind]


WANT = {"": "", "plain": "text%d", "big": "x" * 300000, "bytes": "abc%d", "braces": "{curly}"}


def run(case):
    core = fresh_core()
    core.runtime["debug"] = case["debug"]
    core.runtime["quite"] = case["quite"]
    rule = "echo run >> log; printf %%s '{word}' > word; %s; %s; %s" % (stream(case["out"], 1), stream(case["err"], 2), case["end"])
    kw = {"word": case["attr"]}
    field = case["field"]
    m = {"default": None, "none": None, "quite": U.quite(), "text": "MAKE {tgt} {word}"}.get(case["msg"])
    if case["msg"] != "missing":
        kw[field] = m
    via = case["via"]
    b = M.Executor(rule, field) if field != "message" or case["prefix"] else M.Executor(rule)
    if case["kind"] == "file":
        t = M.FileTarget(tgt="out", deps=[], build=b, use_dirkeep=False, **kw)
    elif case["kind"] == "updatable":
        t = C.UpdatableTarget("u", deps=[], **kw)
    else:
        t = C.Target("t", deps=[], **kw)
    core.add(t)
    old = sys.stdout, sys.stderr
    sys.stdout = o = Tee()
    sys.stderr = e = Tee()
    try:
        if via == "update" and case["kind"] == "file":
            r = t.update()
        elif via == "execute":
            r = M.do_execute(t, rule, field, prefix=case["prefix"]) if case["prefix"] else M.do_execute(t, rule, field)
        else:
            r = b(t, prefix=case["prefix"]) if case["prefix"] else b(t)
    except Exception as ex:
        return "the step raised %r" % ex
    finally:
        sys.stdout, sys.stderr = old
    n = open("log").read().count("run") if os.path.exists("log") else 0
    if n != 1:
        return "the command was run %d times" % n
    if open("word").read() != os.path.expandvars(case["attr"]) and open("word").read() != case["attr"]:
        return "the placeholder was replaced by %r instead of %r" % (open("word").read(), case["attr"])
    good = case["end"] in ("exit 0", "true")
    if r is not good:
        return "the step returned %r although the command ended by %r" % (r, case["end"])
    text = o.getvalue() + e.getvalue()
    for s, fd in ((case["out"], 1), (case["err"], 2)):
        w = WANT[s] % fd if "%d" in WANT[s] else WANT[s]
        if w not in text:
            return "the output %r of stream %d was not forwarded" % (w[:40], fd)
    if case["out"] == case["err"] == "big" and text.count("x") < 600000:
        return "output was lost"
    return None
