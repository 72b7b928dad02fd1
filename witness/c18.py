"""C18: random sources with existing, missing and empty dependency lists; the registered targets are compared."""
import os
from witness_lib import *
import licant.core as C
import licant.cxx_make as CM
import licant.cxx_modules as CX
import licant.make as M
import licant.util as U

RULE = ("random sources, additional dependencies and dependency lists as a compiler writes them (wrapped lines, long names, no headers, empty or missing files) are linked; dependencies of every registered object and dependency list, the forcing of "
        "dependency lists, registered sources and the headers read are compared")
NAMES = ["a.h", "inc/b.h", "../c-d.hpp", "/usr/include/x_y.h", "e/f/g.h", "h", "vector", "bits/c++config".replace("+", "_"), "k.tcc", "0.h", "./rel.h", "A_B-c.D", "x.o.h"]


def cases(rng, tier):
    for k in range(1200 if tier == "quick" else 6000):
        n = rng.choice([0, 1, 2, 3, 5])
        yield dict(srcs=[dict(ext=rng.choice(["cpp", "c", "S", "cc"]), heads=rng.sample(NAMES, rng.randint(0, 6)), state=rng.choice(["ok", "ok", "ok", "missing", "empty"]), wrap=rng.choice([1, 2, 100]), tail=rng.choice(["\n", "\n\n", ""]), known=rng.random() < 0.2) for _ in range(n)],
                   add=rng.sample(["hdrset", "lib.a", "gen/x.h", "d/e"], rng.randint(0, 3)), known=rng.sample(NAMES, rng.randint(0, 2)))


def run(case):
    core = C.default_core()
    os.makedirs("b")
    srcs, objs, deps = [], [], []
    marks = {}
    for i, s in enumerate(case["srcs"]):
        src, o, d = "s%d.%s" % (i, s["ext"]), "b/s%d.o" % i, "b/s%d.d" % i
        open(src, "w").write("x")
        srcs.append(src)
        objs.append(o)
        deps.append(d)
        if s["state"] == "empty":
            open(d, "w").close()
        elif s["state"] == "ok":
            names = [src] + s["heads"]
            lines = [" ".join(names[k:k + s["wrap"]]) for k in range(0, len(names), s["wrap"])]
            open(d, "w").write("s%d.o: " % i + " \\\n ".join(lines) + s["tail"])
        want = None if s["state"] != "ok" else s["heads"]
        got = U.cxx_read_depends(d)
        if (got is None) != (want is None) or (got is not None and list(got) != want):
            return "%r read as %r, expected %r" % (open(d).read() if os.path.exists(d) else "no file", got, want)
        if s["known"]:
            marks[src] = core.add(M.FileTarget(tgt=src, deps=[], build=lambda t: True, use_dirkeep=False))
    for n in case["known"]:
        if not core.has(n):
            marks[n] = core.add(M.FileTarget(tgt=n, deps=[], build=lambda t: True, use_dirkeep=False))
    tc = CM.toolchain("CXX", "CC", "LD", "AR", "OD")
    opts = CM.options(toolchain=tc)
    add = list(case["add"])
    CX.link_objects(srcs, objs, deps, opts, add)
    if add != case["add"]:
        return "the additional dependencies were changed to %r" % add
    for s, src, o, d in zip(case["srcs"], srcs, objs, deps):
        heads = s["heads"] if s["state"] == "ok" else []
        if not core.has(src) or (src in marks and core.get(src) is not marks[src]):
            return "the source %r is not registered or was replaced" % src
        for h in heads:
            if not core.has(h):
                return "the header %r is not registered" % h
            if h in marks and core.get(h) is not marks[h]:
                return "the target of %r was replaced" % h
        for name, want in ((d, [src] + case["add"] + heads), (o, [src, d] + case["add"] + heads)):
            if not core.has(name):
                return "%r is not registered" % name
            t = core.get(name)
            if sorted(t.deps) != sorted(want):
                return "%r depends on %r, expected %r" % (name, sorted(t.deps), sorted(want))
            if t.src != src or t.opts is not opts:
                return "%r is made from %r" % (name, t.src)
        if bool(core.get(d).force) != (s["state"] != "ok"):
            return "%r with a dependency list that is %s is forced: %r" % (d, s["state"], core.get(d).force)
        if core.get(o).force:
            return "the object is forced"
        rule = {"cpp": "cxx", "cc": "cxx", "c": "cc", "S": "cc"}[s["ext"]]
        if core.get(o).build.rule != getattr(opts, rule + "objrule") or core.get(d).build.rule != getattr(opts, rule + "deprule"):
            return "%r is made by another rule" % src
    return None
