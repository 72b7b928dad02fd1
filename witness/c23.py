"""C23: random environments, header trees and libraries; the directories chosen and the targets registered."""
import fnmatch
import importlib
import os
import sys
from witness_lib import *
import licant.core as C
import licant.install as I

RULE = ("random values of PATH and PREFIX (set, unset, empty) in which the module is loaded again: the three directories and whether installing is refused are compared with the rules; random header trees, patterns, programs and "
        "libraries are installed below scratch directories, the registered targets compared with the definition and, if all lie in the scratch directory, built and the files compared")
PARTS = ["/usr/local/bin", "/usr/local/bin", "/usr/bin", "/usr/bin", "/bin", "/opt/usr/bin", "/opt/usr/local/bin", "/usr/local/bin/x", "/usr/bin/core", "", "/usr/sbin", "/usr/local/sbin", "/home/u/bin", "/usr/local/bin/"]


def cases(rng, tier):
    for k in range(500 if tier == "quick" else 6000):
        if rng.random() < 0.6:
            ps = [rng.choice(PARTS) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if rng.random() < 0.1:
                ps.insert(rng.randint(0, len(ps)), "C\\usr\\local\\bin")
            yield dict(kind="find", path=":".join(ps) if rng.random() < 0.9 else None, prefix=rng.choice([None, None, None, "/p", "pre/fix", "", "/data/usr"]), seed=rng.randint(0, 9))
        else:
            tree = sorted({rng.choice(["", "", "s/", "s/t/", "u u/"]) + rng.choice("abc") + rng.choice([".h", ".hpp", ".hxx", ".c", ".h.in", ""]) for _ in range(rng.randint(0, 7))})
            yield dict(kind="install", tree=tree, patterns=rng.choice([None, None, ["*.h"], ["*.h", "*.hpp"], [], ["*.hxx", "*.c"]]), hroot=rng.choice(["lib", "a/b", "."]), src=rng.choice(["inc", "./inc", "x/../inc", "inc/"]),
                       libs=rng.choice([None, None, [], ["l1.so"], ["d/l1.so", "l2.so"], ["l1.so", "d/l3.so", "l2.so"]]), single=rng.random() < 0.4, uninstall=rng.choice([None, "un"]), refused=rng.random() < 0.1, prog=rng.choice([None, "prog", "d/prog"]),
                       dst=rng.choice(["prog", "p2"]), tgt=rng.choice([None, "t"]), build=rng.random() < 0.5)


def run(case):
    return find(case) if case["kind"] == "find" else install(case)


def find(case):
    for k, v in (("PATH", case["path"]), ("PREFIX", case["prefix"])):
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    importlib.reload(I)
    p, pre = (case["path"] or "").split(":"), case["prefix"]
    if pre is not None:
        want, err = os.path.join(pre, "bin"), False
    elif "/usr/local/bin" in p:
        want, err = "/usr/local/bin", False
    else:
        for s in ("\\usr\\local\\bin", "/usr/local/bin", "/usr/bin"):
            m = [x for x in p if s in x]
            if m:
                want, err = m[0], False
                break
        else:
            want, err = None, True
    got = (I.path, I.headers_path, I.libraries_path, I.error_in_install_library)
    exp = (want, os.path.join(pre, "include") if pre is not None else "/usr/local/include", os.path.join(pre, "lib") if pre is not None else "/usr/lib", err)
    if got != exp:
        return "PATH %r PREFIX %r: directories %r, expected %r" % (case["path"], pre, got, exp)
    if I.find_application_path() != want:
        return "the program directory is %r when asked again, expected %r" % (I.find_application_path(), want)
    # names follow the directories
    core = C.default_core()
    if err:
        r = [I.install_application("s", "d"), I.install_shared_library("l.so")]
        if r != [None, None] or core.exist("s") or core.exist("l.so"):
            return "installing without a directory is not refused"
        os.mkdir("inc")
        open("inc/x.h", "w").close()
        before = set(core._targets)
        if I.install_library("t", "r", "inc", libtgt="l.so") is not None or set(core._targets) != before:
            return "installing a library without a directory is not refused"
    else:
        I.install_application("s", "d")
        I.install_shared_library("q/l.so")
        for n in (os.path.join(want, "d"), os.path.join(exp[2], "l.so")):
            if not core.exist(n):
                return "%r is no target" % n
    return None


def install(case):
    here = os.getcwd()
    core = C.default_core()
    os.makedirs("inc")
    os.makedirs("x")
    for t in case["tree"]:
        os.makedirs(os.path.dirname("inc/" + t) or ".", exist_ok=True)
        open("inc/" + t, "w").write(t)
    libs = case["libs"]
    for l in (libs or []) + ([case["prog"]] if case["prog"] else []):
        os.makedirs(os.path.dirname(l) or ".", exist_ok=True)
        open(l, "w").write("lib " + l)
        licant.source(l)
    I.path, I.headers_path, I.libraries_path = (os.path.join(here, "P", d) for d in ("bin", "include", "lib"))
    I.error_in_install_library = case["refused"]
    pats = case["patterns"]
    kw = {} if pats is None else {"headers_patterns": tuple(pats)}
    arg = libs
    if libs is not None and len(libs) == 1 and case["single"]:
        arg = libs[0]
    before = set(core._targets)
    r = I.install_library("lib-target", case["hroot"], case["src"], uninstall=case["uninstall"], libtgt=arg, **kw)
    ra = None
    if case["prog"]:
        ra = I.install_application(case["prog"], case["dst"], tgt=case["tgt"])
    new = set(core._targets) - before
    if case["refused"]:
        if r is not None or ra is not None or new:
            return "installing is not refused: %r" % sorted(new)
        return None
    match = [t for t in case["tree"] if any(fnmatch.fnmatch(os.path.basename(t), p) for p in (pats if pats is not None else ("*.h", "*.hxx", "*.hpp")))]
    hdr = {os.path.normpath(os.path.join(I.headers_path, case["hroot"], t)): os.path.join(here, "inc", t) for t in match}
    lib = {os.path.join(I.libraries_path, os.path.basename(l)): l for l in libs or []}
    app = {os.path.join(I.path, case["dst"]): case["prog"]} if case["prog"] else {}
    copies = {}
    for n in new:
        t = core._targets[n]
        if hasattr(t, "src"):
            copies[os.path.normpath(n)] = t.src
    if copies != dict(hdr, **lib, **app):
        return "copies %r, expected %r" % (copies, dict(hdr, **lib, **app))
    if r != "lib-target" or (case["prog"] and ra != (case["tgt"] or list(app)[0])):
        return "the targets are called %r and %r" % (r, ra)
    clo = {os.path.normpath(x) for x in core.depends_as_set("lib-target", True) if "://" not in x}
    if not set(hdr) | set(lib) <= clo or set(app) & clo:
        return "the target of the library has %r in its closure, expected %r" % (sorted(clo), sorted(set(hdr) | set(lib)))
    if not any(p.startswith(here + os.sep) for p in copies) and copies or not all(p.startswith(here + os.sep) for p in copies):
        return None
    if not case["build"]:
        return None
    core.do("lib-target", "recurse_update")
    if case["prog"]:
        core.do(ra, "recurse_update")
    want = dict(hdr, **lib, **app)
    for d, s in want.items():
        if not os.path.exists(d) or open(d).read() != open(s).read():
            return "%r is not the copy of %r" % (d, s)
    have = {os.path.join(d, f) for d, _, fs in os.walk("P") for f in fs}
    if {os.path.join(here, x) for x in have} != set(want):
        return "installed %r, expected %r" % (sorted(have), sorted(want))
    return None
