"""C10: random histories of registrations and lookups with many spellings of file names, against a list of registrations."""
import os
from witness_lib import *
import licant.core as C
import licant.make as MK

RULE = "a random history of add/get/has over plain names and several spellings (relative, ./, .., absolute, through links) of few files; every answer is compared with the list of registrations"
FILES = ["a.o", "d/b.o", "d/e/c.txt"]
SPELL = ["{p}", "./{p}", "d/../{p}", "{cwd}/{p}", "{cwd}//d/./../{p}", "lnk/{p}"]


def cases(rng, tier):
    for k in range(350 if tier == "quick" else 5000):
        ops = []
        for _ in range(rng.randint(2, 14)):
            ops.append([rng.choice(["file", "plain", "get", "has", "has", "get", "plainpath", "fileset"]), rng.randrange(len(FILES)), rng.randrange(len(SPELL)), rng.choice(["x", "a.o", "t1", "d"])])
        yield ops


def spell(i, s):
    return SPELL[s].format(p=FILES[i], cwd=os.getcwd())


def check(core, reg, name, when):
    want = reg.get(name)
    if want is None:
        want = reg.get(os.path.realpath(name))
    h = core.has(name)
    if bool(h) != (want is not None):
        return "%s: has(%r) is %r" % (when, name, h)
    h = core.exist(name)
    if bool(h) != (want is not None):
        return "%s: exist(%r) is %r" % (when, name, h)
    ended, code, v = exits(core.get, name)
    if want is None:
        if not ended:
            return "%s: get(%r) answered %r" % (when, name, v)
        if not error_status(code):
            return "%s: get(%r) ended with status %r" % (when, name, code)
    elif ended or v is not want:
        return "%s: get(%r) gave %r, not %r" % (when, name, v, want)
    return None


def run(ops):
    os.makedirs("d/e")
    os.symlink(".", "lnk")
    core = MK.MakeCore()
    reg = {}
    seen = set()
    for k, (op, i, s, n) in enumerate(ops):
        p = spell(i, s)
        if op == "file":
            t = MK.FileTarget(p, deps=[], build=lambda s: True, use_dirkeep=False)
            core.add(t)
            reg[os.path.realpath(p)] = t
        elif op == "plain":
            t = core.add(C.Target(n, deps=[]))
            reg[n] = t
        elif op == "plainpath":
            t = core.add(C.UpdatableTarget(p, deps=[]))
            reg[p] = t
        elif op == "fileset":
            MK.fileset(n, [], core=core)
            t = core.get(n)
            reg[n] = t
        else:
            q = p if (k + i) % 3 else n
            r = check(core, reg, q, "step %d" % k)
            if r:
                return r
    for i in range(len(FILES)):
        for s in range(len(SPELL)):
            r = check(core, reg, spell(i, s), "end")
            if r:
                return r
    for n in ["x", "a.o", "t1", "d", "nothing"]:
        r = check(core, reg, n, "end")
        if r:
            return r
    return None
