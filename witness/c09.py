"""C09: random histories of file changes, lookups, builds and deletions."""
import os
from witness_lib import *
import licant.make as M
from licant.cache import fcache

RULE = "random histories over four files: changes behind the program's back, lookups, builds by function or command that succeed, fail or raise, and deletions; the decisions are compared with the disk's state at the last recording"
N = ["a", "b", "d/c", "./a"]


def cases(rng, tier):
    for k in range(300 if tier == "quick" else 4000):
        ops = []
        for i in range(rng.randint(1, 14)):
            ops.append([rng.choice(["write", "write", "remove", "touch", "look", "look", "look", "build", "build", "clr", "build_sh", "info"]), rng.randrange(3), rng.choice(["ok", "ok", "fail", "raise"]),
                        rng.choice(["write", "write", "remove", "nothing", "other"]), rng.randint(1, 10 ** 9)])
        yield {"ops": ops, "dir": rng.random() < 0.1}


def state(p):
    return (True, os.stat(p).st_mtime) if os.path.exists(p) else (False, 0)


def run(case):
    os.makedirs("d", exist_ok=True)
    core = fresh_core()
    ts, rec = {}, {}
    acts = {}

    def put(p, tm):
        with open(p, "w") as f:
            f.write(str(tm))
        os.utime(p, (tm, tm + 0.25))

    def change(p, other, what, tm):
        if what == "write":
            put(p, tm)
        elif what == "remove" and os.path.exists(p):
            os.remove(p)
        elif what == "other":
            put(other, tm)

    def build(t):
        st, what, tm, other = acts["now"]
        change(t.tgt, other, what, tm)
        if st == "raise":
            raise RuntimeError("failed")
        return st == "ok"
    for i in range(3):
        t = M.FileTarget(tgt=N[i], deps=[], use_dirkeep=False, build=build)
        core.add(t)
        ts[i] = t
    for k, (op, i, st, what, tm) in enumerate(case["ops"]):
        t = ts[i]
        p = t.tgt
        other = ts[(i + 1) % 3].tgt
        if op == "write":
            put(p, tm)
        elif op == "touch" and os.path.exists(p):
            os.utime(p, (tm, tm))
        elif op == "remove" and os.path.exists(p):
            os.remove(p)
        elif op in ("build", "build_sh"):
            acts["now"] = (st, what, tm, other)
            if op == "build":
                t.build = build
            else:
                do = {"write": "echo %d > {tgt}" % tm, "remove": "rm -f {tgt}", "nothing": "true", "other": "echo x > %s" % other}[what]
                t.build = M.Executor(do + ("; true" if st == "ok" else "; false"))
            try:
                t.update()
            except RuntimeError:
                pass
            rec[p] = state(p)
        elif op == "clr":
            t.clr()
            rec[p] = state(p)
            if os.path.exists(p):
                return "step %d: %r was not deleted" % (k, p)
        elif op == "info":
            fcache.update_info(p)
            rec[p] = state(p)
        if op == "look" or k == len(case["ops"]) - 1:
            for q in ([p] if op == "look" else [x.tgt for x in ts.values()]):
                tt = [x for x in ts.values() if x.tgt == q][0]
                if q not in rec:
                    rec[q] = state(q)
                got = (tt.is_exist(), tt.mtime())
                if got[0] != rec[q][0] or (got[0] and got[1] != rec[q][1]) or tt.exists() != rec[q][0]:
                    return "step %d (%s): the state used for %r is %r, recorded was %r" % (k, op, os.path.basename(q), got, rec[q])
                if not got[0] and got[1] > 0:
                    return "step %d: a missing file has the time %r" % (k, got[1])
    return None
