"""C19: random module options, extensions and kinds of targets; the commands really run are recorded by stand-in tools."""
import os
from witness_lib import *
import licant.cxx_make as CM
import licant.cxx_modules as CX
import licant.make as M

RULE = ("random include paths, defines, linker scripts, library directories, libraries, flags, standards and debug flags go through CXXModuleOptions to the options of a build; object, dependency list, executable and library targets for sources of "
        "random extensions are built with stand-in compilers that record their arguments; program, words, their number and order are compared")
TIMEOUT = 60
CXXE, CE = ("cpp", "cxx", "cc"), ("c", "asm", "s", "S")
EXT = CXXE + CE + ("C", "CPP", "h", "txt", "", "m", "o", "c++", "cpp2", "ccc")


def cases(rng, tier):
    def names(pre, n):
        return [pre + rng.choice("abcdefgh") + str(rng.randint(0, 3)) for _ in range(rng.choice([0, 0, 1, 2, n]))]
    for k in range(1500 if tier == "quick" else 2500):
        yield dict(inc=names("inc/", 4), defs=[d + rng.choice(["", "=1", "=x"]) for d in names("D", 4)], lds=names("ld/", 2), ldirs=[rng.choice(["", "~/"]) + x for x in names("L", 3)], libs=names("l", 3),
                   cxxstd=rng.choice([None, "c++17", "c++20", "gnu++11"]), ccstd=rng.choice([None, "c11", "c99"]), debug=rng.choice([None, "-g", "-g3", ""]), cxx_flags=rng.choice([None, "", "-Wall -fno-rtti", "-O3"]),
                   cc_flags=rng.choice([None, "", "-Wextra", "-ansi -pedantic"]), ld_flags=rng.choice([None, "", "-static"]), optimize=rng.choice([None, "", "-O2"]),
                   ext=rng.choice(EXT), stem=rng.choice(["x", "a.b", "x.cpp", "y.c", "z.tar"]), dir=rng.choice(["", "s.cpp/", "d/"]), kind=rng.choice(["object", "object", "depend", "depend", "executable", "dynamic_library", "static_library", "direct"]),
                   type=rng.choice([None] * 6 + ["cxx", "cc", "asm", "other"]), deps=rng.choice([None, None, []]), nsrc=rng.randint(1, 4), force=rng.random() < 0.3, tc=rng.choice(["given", "given", "path"]))


def tool(name):
    p = os.path.abspath(os.path.join("tools", name))
    os.makedirs("tools", exist_ok=True)
    with open(p, "w") as f:
        f.write('#!/bin/sh\necho "@%s" >> "%s"\nfor a in "$@"; do printf "%%s\\n" "$a" >> "%s"; done\nexit 0\n' % (name, os.path.abspath("log"), os.path.abspath("log")))
    os.chmod(p, 0o755)
    return p


def sub(words, one):
    """the words without one of them, or None"""
    for i in range(len(words) - len(one) + 1):
        if words[i:i + len(one)] == one:
            return words[:i] + words[i + len(one):]
    return None


def run(case):
    os.environ["HOME"] = "/home/of me"[:8]
    tc = CM.toolchain(cxx=tool("CXX"), cc=tool("CC"), ld=tool("LD"), ar=tool("AR"), objdump=tool("OBJDUMP"))
    kw = {}
    for k, n in (("inc", "include_paths"), ("defs", "defines"), ("lds", "ldscripts"), ("ldirs", "libdirs"), ("libs", "libs")):
        kw[n] = list(case[k])
    for k in ("cxxstd", "ccstd", "debug", "cxx_flags", "cc_flags", "ld_flags", "optimize"):
        if case[k] is not None:
            kw[k] = case[k]
    if case["kind"] == "direct":
        opts = CM.options(toolchain=tc, include_paths=list(case["inc"]) or None, defines=list(case["defs"]), cxx_flags=case["cxx_flags"] or "", cc_flags=case["cc_flags"] or "", ldscripts=list(case["lds"]), optimize=case["optimize"] or "")
    else:
        mo = CX.CXXModuleOptions(toolchain=tc, **kw)
        mo.set_default_if_empty()
        opts = CX.cxx_options_from_modopts(mo)
        if [mo.opts[k] for k in ("include_paths", "defines", "libs")] != [case["inc"], case["defs"], case["libs"]]:
            return "the module's own options were changed"
    if opts.toolchain is not tc:
        return "another toolchain"
    core = M.MakeCore()
    std = {"cxx": case["cxxstd"] or "c++17", "cc": case["ccstd"] or "c11"}
    debug = "-g" if case["debug"] is None else case["debug"]
    if case["kind"] in ("object", "depend", "direct"):
        name = case["stem"] + ("." + case["ext"] if case["ext"] else "")
        src = case["dir"] + name
        ext = name.split(".")[-1]
        f = CM.depend if case["kind"] == "depend" else CM.object
        lang = "cxx" if ext in CXXE else "cc" if ext in CE else None
        if case["type"]:
            lang = {"cxx": "cxx", "cc": "cc", "asm": "cc"}.get(case["type"])
        kw = {}
        if case["deps"] is not None:
            kw["deps"] = list(case["deps"])
        if case["kind"] == "depend":
            kw["force"] = case["force"]
        ended, code, t = exits(f, src, "out.x", opts, type=case["type"], core=core, **kw)
        if lang is None:
            if not ended or not error_status(code):
                return "a source %r is accepted (status %r)" % (src, code)
            return None if not core._targets else "registered although refused"
        if ended:
            return "a source %r is refused" % src
        if list(t.deps) != ([src] if case["deps"] is None else case["deps"]):
            return "depends on %r" % t.deps
        if case["kind"] == "depend" and bool(t.force) != case["force"]:
            return "forced: %r" % t.force
        own = (case[lang + "_flags"] or "").split()
        groups = [["-I" + x for x in case["inc"]], ["-D" + x for x in case["defs"]]]
        if case["kind"] == "direct":
            singles = [own]
        else:
            singles = [["-std=" + std[lang]], debug.split(), own]
        if case["kind"] == "depend":
            singles.append(["-MM", src])
            opt = (case["optimize"] or "").split()
        else:
            singles += [["-c", src], ["-o", t.tgt], (case["optimize"] or "").split()]
            opt = []
        prog = "@CXX" if lang == "cxx" else "@CC"
    else:
        srcs = ["o%d.o" % i for i in range(case["nsrc"])]
        t = getattr(CM, case["kind"])("out.x", srcs, opts, core=core)
        if list(t.deps) != srcs:
            return "depends on %r" % t.deps
        if case["kind"] == "static_library":
            prog, groups, singles, opt = "@AR", [srcs], [["rcs", t.tgt]], []
        else:
            prog = "@CXX"
            groups = [srcs, ["-L" + os.path.expanduser(x) for x in case["ldirs"]], ["-l" + x for x in case["libs"]], ["-T" + x for x in case["lds"]]]
            singles = [["-o", t.tgt], (case["ld_flags"] or "").split()] + ([["--shared"]] if case["kind"] == "dynamic_library" else [])
            opt = ["-Wl,--start-group", "-Wl,--end-group"]
    if core.get("out.x") is not t:
        return "registered elsewhere"
    if t.build(t) is not True:
        return "the command failed"
    lines = open("log").read().split("\n")[:-1]
    if lines[0] != prog:
        return "run by %s instead of %s" % (lines[0], prog)
    w = lines[1:]
    if any(x.startswith("@") for x in w):
        return "several commands: %r" % lines
    for s in singles:
        if s:
            w2 = sub(w, s)
            if w2 is None:
                return "%r is not part of %r" % (s, lines)
            w = w2
    for g in groups:
        if g:
            pre = g[0][:2]
            pos = [i for i, x in enumerate(w) if x in g]
            if [w[i] for i in pos] != g:
                return "%r are not in %r, once and in order" % (g, lines)
            w = [x for i, x in enumerate(w) if i not in pos]
    w = [x for x in w if x not in opt]
    if w:
        return "unexpected %r in %r" % (w, lines)
    return None
