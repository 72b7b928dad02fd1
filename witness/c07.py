"""C07: random acyclic cores of updatable targets, several actions with changes in between."""
from witness_lib import *
import licant.core as C
import licant.make as M

RULE = ("random acyclic cores of updatable targets and routines (update as attribute, method or routine) with random own conditions and failing actions; several recursive updates in a row with conditions, "
        "dependencies and registrations changing between them; marks, update calls and the result are compared with the definition")
TIMEOUT = 60


def cases(rng, tier):
    for k in range(250 if tier == "quick" else 3000):
        n = rng.randint(1, 7)

        def target(i):
            return dict(kind=rng.choice(["attr", "method", "routine", "dir"] if rng.random() < 0.2 else ["attr", "method", "routine"]), deps=sorted(rng.sample(range(i), rng.randint(0, min(i, 3)))), cond=rng.random() < 0.3,
                        result=rng.choice(["True", "None", "True", "None", "0", "''", "False", "raise"]) if rng.random() < 0.3 else rng.choice(["True", "None"]))
        ts = [target(i) for i in range(n)]
        steps = []
        for _ in range(rng.randint(1, 3)):
            ch = []
            for i in range(n):
                r = rng.random()
                if r < 0.15:
                    ch.append([i, "cond", rng.random() < 0.4])
                elif r < 0.25:
                    ch.append([i, "deps", sorted(rng.sample(range(i), rng.randint(0, min(i, 3))))])
                elif r < 0.35:
                    ch.append([i, "again", target(i)])
            steps.append(dict(changes=ch if steps else [], do=rng.randrange(n), action=rng.choice(["recurse_update", "recurse_update_get_args", "default"])))
        yield {"order": rng.choice([list(range(n)), list(range(n))[::-1], rng.sample(range(n), n)]), "targets": ts, "steps": steps, "threads": rng.choice([1, 1, 2, 4]), "debug": False}


def run(case):
    core = fresh_core()
    core.runtime["threads"] = case["threads"]
    calls, marks, ts = [], {}, {}
    state = [dict(d) for d in case["targets"]]
    ident = {}
    ans = {}

    def outcome(i, who):
        calls.append((i, who))
        for j, t in ts.items():
            marks.setdefault(j, t.need_update)
        r = state[i]["result"]
        if r == "raise":
            raise RuntimeError("update of %d" % i)
        return eval(r)

    def make(i):
        d = state[i]
        deps = ["t%d" % j for j in d["deps"]]
        tok = ident[i] = ident.get(i, 0) + 1
        cond = lambda s, i=i, tok=tok: state[i]["cond"] and ident[i] == tok
        if d["kind"] == "attr":
            t = core.updtarget("t%d" % i, deps=deps, update_if=cond, update=lambda s, i=i: outcome(i, s))
        elif d["kind"] == "method":
            class Sub(C.UpdatableTarget):
                def update(self, i=i):
                    return outcome(i, self)
            t = core.add(Sub("t%d" % i, deps, update_if=cond))
        elif d["kind"] == "dir":
            class Dir(M.DirectoryTarget):
                def internal_update_if(self):
                    return cond(self)

                def update(self, i=i):
                    return outcome(i, self)
            t = Dir("t%d" % i, deps, use_dirkeep=False)
            t.tgt = "t%d" % i
            core.add(t)
        else:
            core.routine(lambda i=i: outcome(i, ts[i]), tgt="t%d" % i, deps=deps, update_if=cond)
            t = core.get("t%d" % i)
        ts[i] = t

    for i in case.get("order") or range(len(state)):
        make(i)
    for st in case["steps"]:
        for i, what, v in st["changes"]:
            if what == "again":
                state[i] = dict(v)
                make(i)
            elif what == "cond":
                state[i]["cond"] = v
            else:
                state[i]["deps"] = v
                ts[i].deps = ["t%d" % j for j in v]
        clo, todo = set(), [st["do"]]
        while todo:
            x = todo.pop()
            if x not in clo:
                clo.add(x)
                todo += state[x]["deps"]
        need = {}
        for i in range(len(state)):
            need[i] = state[i]["cond"] or any(need[j] for j in state[i]["deps"])
        # a directory goes by its own condition
        upd = {i for i in clo if (state[i]["cond"] if state[i]["kind"] == "dir" else need[i])}
        calls.clear()
        marks.clear()
        t = ts[st["do"]]
        act = t.default_action if st["action"] == "default" else st["action"]
        r = t.invoke(act)
        for i in ts:
            if bool(ts[i].need_update) != need[i] or ts[i].need_update is None:
                return "target t%d is marked %r, expected %r" % (i, ts[i].need_update, need[i])
        for i, who in calls:
            if who is not ts[i]:
                return "update of t%d was called for %r" % (i, who)
        got = [i for i, _ in calls]
        if len(set(got)) != len(got):
            return "an update was called twice: %r" % got
        if set(got) - upd:
            return "updated without need: %r" % sorted(set(got) - upd)
        failing = {i for i in upd if state[i]["result"] in ("False", "raise")}
        ok = not failing
        if ok and set(got) != upd:
            return "updated %r, expected %r" % (sorted(got), sorted(upd))
        if r is not ok:
            return "result %r, expected %r (failing: %r)" % (r, ok, sorted(failing))
        if not ok and not failing & set(got):
            return "failed without a failing update: %r" % got
    return None
