"""C08: random files, file sets, directories and plain targets with random times."""
import os
from witness_lib import *
import licant.make as M
import licant.core as C

RULE = "a random acyclic core of files (random times, some missing, some forced), nested file sets, directories and non-file targets; the own condition of each is compared with the times on disk"
TIMES = [1000, 1000, 1001, 1001.5, 2000, 2000.25, 5]


def cases(rng, tier):
    for k in range(300 if tier == "quick" else 4000):
        n = rng.randint(1, 8)
        ts = []
        for i in range(n):
            kind = rng.choice(["file", "file", "file", "set", "dir", "plain", "upd", "source"])
            deps = [] if kind in ("source",) else sorted(rng.sample(range(i), rng.randint(0, min(i, 4))))
            ts.append(dict(kind=kind, deps=deps, exist=rng.random() < 0.8, time=rng.choice(TIMES), force=rng.random() < 0.1, alias=rng.random() < 0.2))
        yield {"targets": ts, "core": rng.choice(["core", "make"])}


def run(case):
    core = fresh_core() if case["core"] == "core" else M.MakeCore()
    core.runtime["threads"] = 1
    ts = []
    for i, d in enumerate(case["targets"]):
        name = "t%d" % i
        deps = [("./t%d" % j if case["targets"][j]["alias"] and case["targets"][j]["kind"] in ("file", "dir") else ts[j].tgt) for j in d["deps"]]
        k = d["kind"]
        if d["exist"] and k in ("file", "source", "dir"):
            if k == "dir":
                os.mkdir(name)
            else:
                open(name, "w").close()
            os.utime(name, (d["time"], d["time"]))
        if k == "file":
            t = M.FileTarget(tgt=name, deps=deps, force=d["force"], use_dirkeep=False, build=lambda s: True)
        elif k == "set":
            t = M.MakeFileTarget(tgt="set%d" % i, deps=deps)
        elif k == "dir":
            t = M.DirectoryTarget(tgt=name, deps=deps, use_dirkeep=False, build=lambda s: True)
        elif k == "plain":
            t = C.Target("plain%d" % i, deps=deps)
        elif k == "upd":
            t = C.UpdatableTarget("upd%d" % i, deps=deps, update=lambda s: True)
        else:
            t = M.FileTarget(tgt=name, deps=[], use_dirkeep=False, build=lambda s: True)
            t.clr = None
        core.add(t)
        ts.append(t)

    def isfile(i):
        return case["targets"][i]["kind"] in ("file", "source", "set", "dir")

    def mtime(i):
        d = case["targets"][i]
        if d["kind"] == "dir":
            return 0
        if d["kind"] == "set":
            return max([0] + [mtime(j) for j in d["deps"] if isfile(j)])
        return d["time"] if d["exist"] else 0

    def cond(i):
        d = case["targets"][i]
        if d["kind"] == "dir":
            return not d["exist"]
        if d["kind"] in ("set", "upd"):
            return False
        return (d["force"] and d["kind"] == "file") or not d["exist"] or any(isfile(j) and mtime(j) > mtime(i) for j in d["deps"])
    for i, d in enumerate(case["targets"]):
        if d["kind"] == "plain":
            continue
        got = ts[i].update_if(ts[i])
        if bool(got) is not bool(cond(i)):
            return "the own condition of %s (%s) is %r, expected %r" % (ts[i].tgt, d["kind"], got, cond(i))
        if d["kind"] == "set" and ts[i].mtime() != mtime(i):
            return "the time of the file set is %r, its newest member's is %r" % (ts[i].mtime(), mtime(i))
    return None
