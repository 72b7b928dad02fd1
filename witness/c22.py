"""C22: random trees of scripts that execute each other; each reports the current script and directory."""
import os
from witness_lib import *
import licant.scripter as SC

RULE = "a random tree of scripts in nested directories executing each other by relative, climbing and absolute paths and by pattern; every script logs the reported current script and directory at its start and after each script it executed"
DIRS = ["", "a", "a/b", "..", "../c", "./d", "ABS"]


def tree(rng, depth, cnt):
    cnt[0] += 1
    me = {"id": cnt[0], "dir": rng.choice(DIRS), "kids": [], "rec": rng.random() < 0.15}
    while depth and cnt[0] < 9 and rng.random() < 0.6:
        me["kids"].append(tree(rng, depth - 1, cnt))
    return me


def cases(rng, tier):
    for k in range(150 if tier == "quick" else 3000):
        yield {"root": rng.choice(["make.py", "sub/make.py", "sub/x/make.py", "ABS/make.py"]), "tree": tree(rng, rng.randint(0, 5), [0]), "twice": rng.random() < 0.2}


def write(t, pdir, base, code):
    """writes the script, returns (path to execute, its path)"""
    arg = os.path.join(base + "/abs" if t["dir"] == "ABS" else t["dir"], "s%d.py" % t["id"])
    path = os.path.join(pdir, arg)
    d = os.path.dirname(path)
    os.makedirs(d or ".", exist_ok=True)
    lines = ["_log('in', %d, scriptq.last(), scriptq.curdir())" % t["id"]]
    for k in t["kids"]:
        a, p = write(k, d, base, code)
        code[k["id"]] = p
        if t["rec"] and k["dir"] not in ("ABS",):
            lines.append("scriptq.execute_recursive(%r, %r)" % (os.path.dirname(a) or ".", os.path.basename(a)))
        else:
            lines.append("scriptq.execute(%r)" % a)
        lines.append("_log('back', %d, scriptq.last(), scriptq.curdir())" % t["id"])
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return arg, path


def expect(t, path, out):
    out.append(("in", t["id"], path))
    for k in t["kids"]:
        expect(k, path_of[k["id"]], out)
        out.append(("back", t["id"], path))


path_of = {}


def run(case):
    base = os.path.join(os.getcwd(), "w/w/w/w/w/w")
    os.makedirs(base)
    os.chdir(base)
    root = case["root"].replace("ABS", base + "/abs")
    os.makedirs(os.path.dirname(root) or ".", exist_ok=True)
    path_of.clear()
    arg, p = write(case["tree"], os.path.dirname(root), base, path_of)
    path_of[case["tree"]["id"]] = p
    sys.argv[0] = root
    q = SC.ScriptQueue()
    SC.scriptq = q
    log = []
    SC._log = lambda *a: log.append(a)
    if case["twice"]:
        # a plain script before
        with open(os.path.join(os.path.dirname(root), "plain.py"), "w") as f:
            f.write("x = 1\n")
        q.execute("plain.py")
    q.execute(arg)
    want = []
    expect(case["tree"], p, want)
    real = os.path.realpath
    for i, w in enumerate(want):
        if i >= len(log):
            return "script %d was not executed (%s)" % (w[1], w[0])
        k, n, last, cur = log[i]
        if (k, n) != (w[0], w[1]):
            return "event %d: %s of script %d instead of %s of script %d" % (i, k, n, w[0], w[1])
        if real(last) != real(w[2]):
            return "%s of script %d: the current script is reported as %r, it is %r" % (k, n, last, w[2])
        if real(cur or ".") != real(os.path.dirname(w[2]) or "."):
            return "%s of script %d: the current directory is reported as %r, it is %r" % (k, n, cur, os.path.dirname(w[2]))
    if len(log) > len(want):
        return "more was executed: %r" % (log[len(want):],)
    if real(q.last()) != real(root) or real(q.curdir() or ".") != real(os.path.dirname(root) or "."):
        return "at the end the current script is %r in %r" % (q.last(), q.curdir())
    return None
