"""C17: random lists of sources; the paths computed for them are compared with what the property asks."""
import os
from witness_lib import *
import licant.cxx_modules as CX

RULE = ("random lists of relative and absolute sources (nested, dotted, without extension, climbing to parents, spelled in several ways) with extensions, prefixes and build directories given or taken from the options; "
        "number, order, extension, prefix, containment and distinctness of the paths are checked; the facts about os.path the proof assumes are sampled too")
DIRS = ["", "", "d/", "d/e/", "../", "../../x/", "d/../", "d/../../", "./", "/", "/a/", "/a/b/", "a/", "a/b/", "d.x/", "..d/", "/.h/", "__/", "../__/"]
STEMS = ["x", "y", "x.y", "x.h", ".hid", "a b", "__x", "x-1", "m.n", "ui_x"]
EXTS = [".c", ".cpp", ".cc", ".S", "", ".h"]


def cases(rng, tier):
    for k in range(3000 if tier == "quick" else 40000):
        n = rng.choice([0, 1, 2, 3, 6])
        yield dict(srcs=[rng.choice(DIRS) + rng.choice(STEMS) + rng.choice(EXTS) for _ in range(n)], ext=rng.choice(["o", "d", "h", "h.cxx", "h.cxx.o"]), prefix=rng.choice([None, None, "", "ui_", "p-"]),
                   bd=rng.choice(["build", "build", "b/c", "./out", "../out", "/tmp/out", "b.d"]), how=rng.choice(["options", "argument", "both"]))


def inside(d, p):
    d, p = os.path.abspath(d), os.path.abspath(p)
    return p.startswith(d + "/")


def plain(s):
    return not os.path.isabs(s) and ".." not in s and os.path.normpath(s) == s and s != "."


def run(case):
    srcs = list(case["srcs"])
    kw = {} if case["how"] == "options" else {"builddir": case["bd"]}
    opts = CX.CXXModuleOptions(builddir=case["bd"] if case["how"] == "options" else "other")
    got = CX.build_paths(srcs, opts, case["ext"], prefix=case["prefix"], **kw)
    if srcs != case["srcs"]:
        return "the list of sources was changed"
    if len(got) != len(srcs):
        return "%d paths for %d sources" % (len(got), len(srcs))
    for s, g in zip(srcs, got):
        base = os.path.splitext(os.path.basename(s))[0]
        want = (case["prefix"] or "") + os.path.basename(s)
        want = os.path.splitext(want)[0] + "." + case["ext"]
        if ".." in s.replace("../", "") or ".." in want:
            if not g.endswith("." + case["ext"]):
                return "%r for %r" % (g, s)
        elif os.path.basename(g) != want:
            return "%r for source %r, prefix %r" % (g, s, case["prefix"])
        if os.path.isabs(s) and ".." in s:
            continue
        if not inside(case["bd"], g):
            return "%r for %r is not inside %r" % (g, s, case["bd"])
    for i in range(len(srcs)):
        for j in range(i):
            a, b = srcs[i], srcs[j]
            both = (plain(a) and plain(b)) or (os.path.isabs(a) and os.path.isabs(b) and ".." not in a + b and os.path.normpath(a) == a and os.path.normpath(b) == b)
            if both and os.path.splitext(a)[0] != os.path.splitext(b)[0] and not (case["prefix"] and os.path.splitext(case["prefix"] + os.path.basename(a))[0] != case["prefix"] + os.path.splitext(os.path.basename(a))[0]):
                if ".." in case["prefix"] + a + b if case["prefix"] else False:
                    continue
                if os.path.normpath(got[i]) == os.path.normpath(got[j]):
                    return "%r and %r share %r" % (a, b, got[i])
    # the assumed facts
    for s in srcs:
        st = os.path.splitext(s)[0]
        if s and os.path.isabs(st + "." + case["ext"]) != os.path.isabs(s):
            return "fact 1 about paths does not hold for %r" % s
        r = s.replace("..", "__")
        if ".." in r or os.path.isabs(r) != os.path.isabs(s):
            return "fact 2 about paths does not hold for %r" % s
        if plain(s) and not inside(case["bd"], os.path.normpath(os.path.join(case["bd"], s))):
            return "fact 3 about paths does not hold for %r" % s
        if os.path.isabs(s) and ".." not in s and not inside(case["bd"], case["bd"] + s):
            return "fact 4 about paths does not hold for %r" % s
        if ".." not in s and os.path.basename(s) not in ("", ".") and ".." in st + "." + case["ext"]:
            return "fact 5 about paths does not hold for %r" % s
    return None
