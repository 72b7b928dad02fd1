"""C16: random option sets combined by merge, include and whole trees of modules."""
import copy
import os
from witness_lib import *
import licant.core as C
import licant.cxx_make as CM
import licant.cxx_modules as CX
import licant.modules as MD

RULE = ("random options of a base and of a module or an included module (each option present or not) are combined and every option of the result is compared with its rule; both inputs are compared with copies; unknown options and values of "
        "a wrong type must be refused; trees of modules with submodules, included and required modules are prepared and the options of every object and of the whole compared")
FILES = ("objects", "sources", "qt_moc", "qt_ui")
ADD = ("libs", "libdirs", "defines")
LOC = ("include_paths", "ldscripts")
TEXT = ("cxx_flags", "cc_flags", "ld_flags")
DEF = {"srcdir": ".", "depends": [], "modules": [], "mdepends": [], "type": "objects", "target": "target", "cxxstd": "c++17", "ccstd": "c11", "builddir": "build", "optimize": "", "debug": "-g"}
TYPES = dict([(k, list) for k in FILES + ADD + LOC + ("depends", "modules", "mdepends", "include_modules", "local_headers")] + [(k, str) for k in TEXT + ("srcdir", "target", "cxxstd", "ccstd", "type", "builddir", "optimize", "debug")])


def cases(rng, tier):
    def value(k):
        n = rng.choice([0, 1, 2, 3])
        w = lambda p: p + rng.choice("abcdef") + str(rng.randint(0, 2))
        if k in FILES:
            return [rng.choice(["", "d/", "/abs/", "../", "~/"]) + w("f") + ".c" for _ in range(n)]
        if k in LOC:
            return [rng.choice(["", "i/", "/abs/", "~/"]) + w("p") for _ in range(n)]
        if k == "local_headers":
            return [[w("h/"), rng.choice(["", "/abs/"]) + w("src")] for _ in range(n)]
        if TYPES[k] is list:
            return [w(k[0]) for _ in range(n)]
        return rng.choice(["", w("v"), w("v") + " " + w("w")]) if k in TEXT else w("v")

    def options(p):
        return {k: value(k) for k in sorted(TYPES) if rng.random() < p}
    for k in range(700 if tier == "quick" else 8000):
        kind = rng.choice(["merge", "include", "merge", "include", "bad", "tree", "defaults"])
        yield dict(kind=kind, base=options(0.5), own=options(rng.choice([0.1, 0.6, 1.0])), dir=rng.choice(["/m", "mods/x", "."]), seed=rng.randint(0, 10 ** 6),
                   bad=rng.choice(["unknown", "type", "type"]), badkey=rng.choice(sorted(TYPES)), where=rng.choice(["base", "own"]))


def tup(o):
    o = copy.deepcopy(o)
    if "local_headers" in o:
        o["local_headers"] = [tuple(x) for x in o["local_headers"]]
    return o


def expected(k, fnc, base, own, tl):
    given = k in own
    o = own.get(k)
    d, sd = tl["__dir__"], own.get("srcdir", "")
    if k in FILES:
        r = [os.path.join(d, sd, os.path.expanduser(x)) for x in o] if given else []
        return r if fnc == "merge" else base[k] + r
    if k in ADD:
        return base[k] + (o or [])
    if k in LOC:
        return base[k] + ([os.path.join(d, os.path.expanduser(x)) for x in o] if given else [])
    if k == "local_headers":
        return base[k] + [(a, os.path.join(d, b)) for a, b in (o or [])]
    if k in TEXT:
        return base[k] + " " + o if given else base[k]
    if k in ("cxxstd", "ccstd"):
        return o if given else base[k]
    if k == "modules":
        return (o if given else []) if fnc == "merge" else base[k] + (o or [])
    if k == "include_modules":
        return base[k] if fnc == "include" else list(base[k]) + [("sub", x) for x in (o or [])]
    if fnc == "include":
        return base[k]
    if k in ("srcdir", "depends", "type", "mdepends"):
        return o if given else DEF[k]
    return o if given else base[k]


def run(case):
    os.environ["HOME"] = "/home/u"
    if case["kind"] == "tree":
        return tree(case)
    base, own = tup(case["base"]), tup(case["own"])
    if case["kind"] == "bad":
        o = base if case["where"] == "base" else own
        if case["bad"] == "unknown":
            o["surces"] = ["a"]
        else:
            o[case["badkey"]] = 5 if case["seed"] % 3 else ("text" if TYPES[case["badkey"]] is list else ["text"])
        ended, code, r = exits(CX.CXXModuleOptions, **o)
        if not ended or not error_status(code):
            return "options %r are accepted (status %r)" % (o, code)
        return None
    b = CX.CXXModuleOptions(**base)
    b.set_default_if_empty()
    for k in TYPES:
        want = base.get(k, DEF.get(k, [] if TYPES[k] is list else ""))
        if b.opts.get(k) != want:
            return "option %r of a completed set is %r, expected %r" % (k, b.opts.get(k), want)
    if b.opts["toolchain"].__class__.__name__ != "toolchain":
        return "no toolchain"
    if case["kind"] == "defaults":
        # the default lists are not shared
        for k in TYPES:
            if TYPES[k] is list:
                b.opts[k].append("mine")
        b2 = CX.CXXModuleOptions()
        b2.set_default_if_empty()
        for k in TYPES:
            if TYPES[k] is list and b2.opts[k] != []:
                return "default %r is shared: %r" % (k, b2.opts[k])
        return None
    own["__dir__"] = case["dir"]
    own["__script__"] = "s"
    m = MD.Module("m", **{k: v for k, v in own.items() if not k.startswith("__")})
    m.opts["__dir__"] = case["dir"]
    o = CX.CXXModuleOptions(**m.opts) if case["kind"] == "merge" else m
    c1, c2 = dict(b.opts), dict(o.opts)
    d1, d2 = {k: list(v) if isinstance(v, list) else v for k, v in c1.items()}, {k: list(v) if isinstance(v, list) else v for k, v in c2.items()}
    r = b.merge(o, case["kind"])
    if r is b or r is o:
        return "the result is one of the inputs"
    for n, x, c, d in (("base", b, c1, d1), ("other", o, c2, d2)):
        if set(x.opts) != set(c) or any(x.opts[k] is not c[k] or x.opts[k] != d[k] for k in c):
            return "the %s was changed" % n
    if set(r.opts) != set(c1):
        return "options %r in the result" % sorted(set(r.opts) ^ set(c1))
    for k in sorted(TYPES):
        want = expected(k, case["kind"], d1, {q: v for q, v in own.items() if q in TYPES}, own)
        got = r.opts[k]
        if k == "include_modules":
            got = [("sub", x.name) if isinstance(x, MD.submodule) else x for x in got]
        if got != want:
            return "%s of %r: base %r, own %r (srcdir %r) gives %r, expected %r" % (case["kind"], k, d1[k], own.get(k), own.get("srcdir"), got, want)
    if r.opts["toolchain"] is not c1["toolchain"]:
        return "another toolchain"
    return None


def tree(case):
    """a module with submodules, included and required modules; what each object is compiled with"""
    import random
    rng = random.Random(case["seed"])
    core = C.default_core()
    here = os.getcwd()
    parts = []
    spec = {}

    def words(p, n=2):
        return [p + "%d" % rng.randint(0, 99) for _ in range(rng.randint(0, n))]

    def mod(name, depth):
        o = {}
        if rng.random() < 0.7:
            o["defines"] = words(name + "_D")
        if rng.random() < 0.5:
            o["include_paths"] = words("inc_" + name)
        if rng.random() < 0.3:
            o["cxx_flags"] = "-f" + name
        if rng.random() < 0.2:
            o["cxxstd"] = "c++%d" % rng.choice([11, 14, 20])
        if rng.random() < 0.3:
            f = name + ".h"
            open(f, "w").close()
            o["local_headers"] = [("x/" + f, f)]
        src = name + ".cpp"
        open(src, "w").close()
        o["sources"] = [src]
        subs, reqs, incs = [], [], []
        if depth:
            subs = [mod(name + "s%d" % i, depth - 1) for i in range(rng.randint(0, 2))]
            reqs = [mod(name + "r%d" % i, 0) for i in range(rng.randint(0, 2))]
            incs = [] if subs else [mod(name + "i%d" % i, 0) for i in range(rng.randint(0, 2))]  # the included modules of a base are handed down to its submodules
        m = dict(o)
        if subs:
            m["modules"] = [MD.submodule(x) for x in subs]
        if reqs:
            m["mdepends"] = list(reqs)
        if incs:
            m["include_modules"] = list(incs)
        MD.module(name, **m)
        for_ = MD.mlibrary.get(name)
        for_.opts["__dir__"] = here
        spec[name] = (o, subs, reqs, incs)
        return name
    root = mod("M", 2)
    r, final = CX.prepare_targets(root)
    before = {n: copy.deepcopy({k: v for k, v in MD.mlibrary.get(n).opts.items() if isinstance(v, (list, str)) and k not in ("modules", "include_modules")}) for n in spec}

    def comb(acc, name):
        o = spec[name][0]
        return dict(defines=acc["defines"] + o.get("defines", []), inc=acc["inc"] + [os.path.join(here, x) for x in o.get("include_paths", [])], flags=acc["flags"] + ([o["cxx_flags"]] if "cxx_flags" in o else []), std=o.get("cxxstd", acc["std"]),
                    heads=acc["heads"] + o.get("local_headers", []), srcs=acc["srcs"] + o["sources"])
    bad = []

    def visit(acc, name):
        o, subs, reqs, incs = spec[name]
        a = comb(dict(acc, srcs=[]), name)
        for x in incs + reqs:
            a = comb(a, x)
        if a["heads"]:
            a["inc"] = a["inc"] + ["build/__LOCAL_HEADERS__/"]
        for s in a["srcs"]:
            t = core.get("build" + os.path.join(here, os.path.splitext(s)[0] + ".o"))
            got = (t.opts.incopt.split(), t.opts.defopt.split(), t.opts.cxx_flags.split())
            want = (["-I" + x for x in a["inc"]], ["-D" + x for x in a["defines"]], ["-std=" + a["std"], "-g"] + a["flags"])
            if got != want:
                bad.append("object of %r in module %r is compiled with %r, expected %r" % (s, name, got, want))
        for x in subs:
            visit(a, x)
    visit(dict(defines=[], inc=[], flags=[], std="c++17", heads=[], srcs=[]), root)
    if bad:
        return bad[0]
    r2, f2 = CX.prepare_targets(root)
    if [list(r)] != [list(r2)]:
        return "preparing the module again gives %r instead of %r" % (r2, r)
    after = {n: {k: MD.mlibrary.get(n).opts.get(k) for k in before[n]} for n in spec}
    if after != before:
        return "the options of a module were changed"
    return None
