"""C14: random histories of registrations, declarations and requests against a dictionary."""
from witness_lib import *
import licant.modules as M

RULE = "a random history of module()/implementation()/module_default_implementation()/get()/get_default() calls over few names; every answer is compared with a map"
NAMES = ["a", "b", "a.b", "c"]
IMPLS = ["x", "y", "__none__", "__default__", "a"]


def cases(rng, tier):
    for k in range(400 if tier == "quick" else 6000):
        ops = []
        for _ in range(rng.randint(1, 14)):
            op = rng.choice(["mod", "modi", "impl", "def", "get", "get", "getd", "lib", "chk"])
            ops.append([op, rng.choice(NAMES[:rng.randint(1, 4)]), rng.choice(IMPLS), rng.random() < 0.4])
        yield ops


def ask(lib, n, i):
    return exits(lib.get, n, i) if i is not None else exits(lib.get, n)


def check_all(lib, regs, mods, defs, when):
    for n in NAMES + ["zz"]:
        for i in IMPLS + [None, "nope"]:
            k = defs.get(n) if i is None else i
            ok = n in mods and k is not None and ((n, k) in regs)
            if n in mods and k == "__none__" and not ok:
                continue    # asking creates it
            ended, code, v = ask(lib, n, i)
            if ok:
                if ended:
                    return "%s: request (%s, %s) ended the program, registered" % (when, n, i)
                if v is not regs[(n, k)] and v.opts.get("tag") != regs[(n, k)]:
                    return "%s: request (%s, %s) gave another module" % (when, n, i)
                if v.name != n:
                    return "%s: request (%s, %s) gave module %s" % (when, n, i, v.name)
            else:
                if not ended:
                    return "%s: request (%s, %s) answered, not registered" % (when, n, i)
                if not error_status(code):
                    return "%s: request (%s, %s) ended with status %r" % (when, n, i, code)
    return None


def run(ops):
    M.mlibrary = lib = M.ModuleLibrary()
    M.scriptq.stack.append("/scratch/make.py")
    regs, mods, defs = {}, set(), {}
    for j, (op, n, i, d) in enumerate(ops):
        if op == "mod":
            M.module(n, tag=j)
            regs[(n, "__default__")] = j
            mods.add(n)
            defs[n] = "__default__"
        elif op == "modi":
            M.module(n, i, default=d, tag=j)
            regs[(n, i)] = j
            mods.add(n)
            if d:
                defs[n] = i
        elif op == "impl":
            M.implementation(n, i, default=d, tag=j)
            regs[(n, i)] = j
            mods.add(n)
            if d:
                defs[n] = i
        elif op == "def":
            M.module_default_implementation(n, i)
            defs[n] = i
        elif op == "lib":
            lib.register_impl(M.Module(n, tag=j, stack=["s"]), i)
            regs[(n, i)] = j
            mods.add(n)
        elif op == "chk":
            r = check_all(lib, regs, mods, defs, "step %d" % j)
            if r:
                return r
        elif op in ("get", "getd"):
            if op == "getd":
                ended, code, v = exits(lib.get_default, n)
                k = defs.get(n)
            else:
                ended, code, v = ask(lib, n, i)
                k = i
            ok = n in mods and k is not None and ((n, k) in regs or k == "__none__")
            if not ok:
                if not ended:
                    return "step %d: %s (%s, %s) answered" % (j, op, n, i)
                if not error_status(code):
                    return "step %d: exit status %r" % (j, code)
            else:
                if ended:
                    return "step %d: %s (%s, %s) ended the program" % (j, op, n, i)
                if (n, k) in regs:
                    if v is not regs[(n, k)] and v.opts.get("tag") != regs[(n, k)]:
                        return "step %d: %s (%s, %s) gave another module" % (j, op, n, k)
                else:
                    if v.name != n or "tag" in v.opts:
                        return "step %d: the empty implementation is not empty" % j
                    regs[(n, k)] = v
    return check_all(lib, regs, mods, defs, "end")
