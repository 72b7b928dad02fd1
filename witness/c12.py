"""C12: clean in random cores, uninstall of random libraries."""
import os
import stat
from witness_lib import *
import licant.make as M
import licant.core as C
import licant.install as I

RULE = ("random acyclic cores of files, directories, sources, file sets and plain targets with odd file names, weak dependencies and aliases, some files missing, sometimes after a failed or successful build; "
        "clean of one of them, or the uninstallation of a library; the directory tree before and after is compared with the definition (rm is replaced by one confined to the scratch directory)")
TIMEOUT = 60
NAMES = ["a", "b b", "-rf", "c;d", "$(e)", "f'g", 'h"i', "j*", "k\\l", "*", "{m}", "~", "n\tn", "o&o", "#p", "é", "..q", "r|s", "-", "--", "$HOME", "`u`", "v?", "[w]"]


def cases(rng, tier):
    for k in range(200 if tier == "quick" else 2500):
        if rng.random() < 0.3:
            hs = sorted(rng.sample(["a.h", "b.hpp", "sub/c.h", "sub/x y.h", "d.hxx", "e.txt", "$(f).h"], rng.randint(0, 5)))
            yield {"what": "uninstall", "headers": hs, "libs": rng.sample(["liba.so", "lib b.so", "lib$c.so"], rng.randint(0, 3)), "form": rng.choice(["list", "one", "none"]), "other": ["inc/keep.h", "lib/keep.so"], "build": rng.random() < 0.9}
            continue
        n = rng.randint(1, 8)
        names = rng.sample(NAMES, n)
        ts = []
        for i in range(n):
            ts.append(dict(kind=rng.choice(["file", "file", "file", "file", "set", "dir", "source", "csource", "plain"]), name=names[i], deps=sorted(rng.sample(range(i), rng.randint(0, min(i, 3)))),
                           weak=sorted(rng.sample(range(i), rng.randint(0, min(i, 2)))) if rng.random() < 0.3 else [], exist=rng.random() < 0.75, alias=rng.random() < 0.15))
        yield {"what": "clean", "targets": ts, "root": rng.randrange(n), "others": rng.sample(["zz", "a.bak", "g", "d", "l", "Cases"], 3), "build": rng.choice([None, None, "ok", "fail"])}


def confine():
    here = os.getcwd()
    os.mkdir("bin")
    with open("bin/rm", "w") as f:
        f.write("#!/usr/bin/python3\nimport os, sys\nops = False\nrec = any(a.startswith('-') and not a.startswith('--') and 'r' in a for a in sys.argv[1:(sys.argv.index('--') if '--' in sys.argv else None)])\nimport shutil\n"
                "for a in sys.argv[1:]:\n    if not ops and a == '--':\n        ops = True\n        continue\n    if not ops and a.startswith('-'):\n        continue\n"
                "    p = os.path.join(os.path.realpath(os.path.dirname(a) or '.'), os.path.basename(a))\n    if not p.startswith(%r + os.sep):\n        continue\n"
                "    if os.path.isdir(p) and not os.path.islink(p):\n        if rec:\n            shutil.rmtree(p)\n        else:\n            sys.exit(1)\n    elif os.path.lexists(p):\n        os.unlink(p)\n" % here)
    os.chmod("bin/rm", 0o755)
    os.environ["PATH"] = os.path.join(here, "bin") + ":" + os.environ["PATH"]


def tree():
    out = set()
    for d, ds, fs in os.walk("."):
        if d == ".":
            ds[:] = [x for x in ds if x != "bin"]
        for x in fs:
            out.add(os.path.normpath(os.path.join(d, x)))
        for x in ds:
            out.add(os.path.normpath(os.path.join(d, x)) + "/")
    return out


def touch(p):
    if os.path.dirname(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").close()


def run(case):
    confine()
    return uninstall(case) if case["what"] == "uninstall" else clean(case)


def uninstall(case):
    core = C.default_core()
    core.runtime["threads"] = 1
    here = os.getcwd()
    I.libraries_path, I.headers_path, I.error_in_install_library = os.path.join(here, "lib"), os.path.join(here, "inc"), False
    os.makedirs("src")
    for p in case["headers"]:
        touch("src/" + p)
    for p in case["libs"] + case["other"]:
        touch(p)
    os.makedirs("lib", exist_ok=True)
    libs = case["libs"]
    if case["form"] == "one":
        libs = libs[:1]
    lib = None if case["form"] == "none" or not libs else (libs if case["form"] == "list" else libs[0])
    libs = [] if lib is None else libs
    before = tree()
    I.install_library(tgt="install", hroot="h", headers="src", uninstall="uninstall", libtgt=lib)
    if case["build"]:
        core.get("install").invoke("makefile")
    mid = tree()
    want = {"inc/h/" + os.path.normpath(p) for p in case["headers"] if p.endswith((".h", ".hxx", ".hpp"))} | {"lib/" + p for p in libs}
    new = {p for p in mid - before if not p.endswith("/")}
    if case["build"] and new != want:
        return "the installation made %r, expected %r" % (sorted(new), sorted(want))
    core.get("uninstall").invoke(core.get("uninstall").default_action)
    after = tree()
    if mid - after != new or after - mid:
        return "uninstalling removed %r and added %r, the installation had made %r" % (sorted(mid - after), sorted(after - mid), sorted(new))
    return None


def clean(case):
    core = M.MakeCore()
    core.runtime["threads"] = 1
    for p in case["others"]:
        touch(p)
    ts = []
    fail = case["build"] == "fail"

    def build(s):
        if not os.path.exists(s.tgt):
            touch(s.tgt)
        return not fail
    for i, d in enumerate(case["targets"]):
        name, k = d["name"], d["kind"]
        if d["exist"] and k in ("file", "source", "csource", "dir"):
            if k == "dir":
                if not os.path.exists(name):
                    os.mkdir(name)
            elif not os.path.exists(name):
                touch(name)
        ref = lambda j: (os.path.join(".", case["targets"][j]["name"]) if case["targets"][j]["alias"] and isinstance(ts[j], M.FileTarget) else ts[j].tgt)
        # a name with * would be expanded
        deps = [ref(j) for j in d["deps"] if "*" not in ts[j].tgt]
        weak = [ref(j) for j in d["weak"]]
        if k == "file":
            t = M.FileTarget(tgt=name, deps=deps, build=build, use_dirkeep=False, weakdeps=weak)
        elif k == "set":
            t = M.MakeFileTarget(tgt="set%d" % i, deps=deps, weakdeps=weak)
        elif k == "dir":
            t = M.DirectoryTarget(tgt=name, deps=deps, use_dirkeep=False, build=M.DirectoryKeeper())
        elif k == "plain":
            t = C.UpdatableTarget("plain%d" % i, deps=deps)
        elif k == "csource":
            t = core.source(os.path.join(os.getcwd(), name))
        else:
            t = M.FileTarget(tgt=name, deps=[], use_dirkeep=False, build=lambda s: s.warn_if_not_exist())
            t.clr = None
        core.add(t)
        ts.append(t)
    T = case["targets"]
    clo, todo = set(), [case["root"]]
    star = lambda j: "*" in ts[j].tgt
    while todo:
        x = todo.pop()
        if x not in clo:
            clo.add(x)
            todo += [j for j in T[x]["deps"] if not star(j)] if T[x]["kind"] not in ("source", "csource") else []
    root = ts[case["root"]]
    if not isinstance(root, M.MakeFileTarget):
        return None
    if case["build"]:
        root.invoke("makefile")
    weak = set(T[case["root"]]["weak"]) if T[case["root"]]["kind"] in ("file", "set") else set()
    want = {T[i]["name"] for i in clo | weak if T[i]["kind"] == "file" and os.path.exists(T[i]["name"])}
    before = tree()
    root.invoke("clean")
    after = tree()
    if before - after != want or after - before:
        return "clean removed %r and added %r, expected to remove %r" % (sorted(before - after), sorted(after - before), sorted(want))
    return None
