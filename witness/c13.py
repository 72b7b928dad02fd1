"""C13: random files in missing directories in a file core, built afterwards."""
import os
from witness_lib import *
import licant.make as M

RULE = ("several touch, copy and file targets with a command or function at random depths below existing and missing directories (relative, absolute, sharing directories); registered targets and dependencies are "
        "compared with the missing directories, then one of them is built and the files on disk are compared")
TIMEOUT = 60
DIRS = ["", "ex", "ex/sub", "m", "m/n", "m/n/o", "ex/p", "ex/p/q/r", "sp ace/x", "m2"]


def cases(rng, tier):
    for k in range(200 if tier == "quick" else 2500):
        fs = []
        for i in range(rng.randint(1, 5)):
            fs.append(dict(kind=rng.choice(["touch", "touch", "copy", "command", "function"]), dir=rng.choice(DIRS), form=rng.choice(["rel", "rel", "abs", "dot"]),
                           content=rng.choice(["", "text", "a\nb\n", "{x} $HOME 'q'"]), deps=[j for j in range(i) if rng.random() < 0.2]))
        yield {"files": fs, "threads": rng.choice([1, 3]), "build": rng.randrange(len(fs)), "made": rng.random() < 0.15}


def run(case):
    here = os.getcwd()
    os.makedirs("ex/sub")
    open("source file", "wb").write(b"bytes \xff\x00 of it")
    core = M.MakeCore()
    core.runtime["threads"] = case["threads"]
    ts, names = [], []
    log = []
    known = set()
    for i, f in enumerate(case["files"]):
        p = os.path.join(f["dir"], "f%d" % i)
        full = os.path.join(here, p)
        name = {"rel": p, "abs": full, "dot": "./" + p}[f["form"]]
        deps = [names[j] for j in f["deps"]]
        given = list(deps)
        if f["kind"] == "touch":
            t = core.touch(name, f["content"], deps)
        elif f["kind"] == "copy":
            t = core.copy("source file", name, deps)
        elif f["kind"] == "command":
            t = core.ftarget(name, exec="cp -- 'source file' {quoted_tgt}", deps=deps)
        else:
            def make(s, i=i):
                log.append(i)
                open(s.tgt, "w").write("made %d" % i)
                return True
            t = core.ftarget(name, build=make, deps=deps)
        if deps != given:
            return "the given dependency list was changed to %r" % deps
        names.append(name)
        ts.append(t)
        if t.tgt != os.path.realpath(name) or core.get(name) is not t:
            return "%r is registered as %r" % (name, t.tgt)
        miss = []
        d = os.path.dirname(full)
        while not os.path.exists(d):
            miss.append(d)
            d = os.path.dirname(d)
        want = {os.path.realpath(x) for x in given}
        if f["kind"] == "copy":
            want.add(os.path.realpath("source file"))
        if miss:
            want.add(os.path.realpath(miss[0]))
        got = {os.path.realpath(x) for x in t.deps}
        if got != want or len(t.deps) != len(want):
            return "%r depends on %r, expected %r" % (name, t.deps, sorted(want))
        for k, d in enumerate(miss):
            if not core.has(d) or not isinstance(core.get(d), M.DirectoryTarget):
                return "missing directory %r is not registered" % d
            up = {os.path.realpath(x) for x in core.get(d).deps}
            if up != set(miss[k + 1:k + 2]):
                return "directory %r depends on %r, expected %r" % (d, sorted(up), miss[k + 1:k + 2])
        known |= set(miss) | {t.tgt} | ({os.path.realpath("source file")} if f["kind"] == "copy" else set())
    have = {os.path.realpath(n) for n in core._targets} if hasattr(core, "_targets") else known
    if have != known:
        return "registered %r, expected %r" % (sorted(have - known), sorted(known - have))
    if case["made"]:
        os.makedirs("m/n")
    t = ts[case["build"]]
    clo, todo = set(), [case["build"]]
    while todo:
        x = todo.pop()
        if x not in clo:
            clo.add(x)
            todo += case["files"][x]["deps"]
    r = t.invoke("makefile")
    if r is not True:
        return "the build answers %r" % r
    for i in clo:
        f = case["files"][i]
        p = os.path.join(here, f["dir"], "f%d" % i)
        want = {"touch": f["content"].encode(), "copy": b"bytes \xff\x00 of it", "command": b"bytes \xff\x00 of it", "function": b"made %d" % i}[f["kind"]]
        if not os.path.isfile(p):
            return "%r was not made" % p
        got = open(p, "rb").read()
        if got != want:
            return "%r holds %r, expected %r" % (p, got, want)
    return None
