"""C06: random registries (with cycles, missing names, later changes) against a fixpoint computation."""
from witness_lib import *
import licant.core as C

RULE = "a random dependency relation over at most 9 targets, asked for closures, changed by re-registration or by editing a dependency list, and asked again; compared with a fixpoint"
TIMEOUT_VIOLATES = True


def cases(rng, tier):
    for k in range(350 if tier == "quick" else 5000):
        n = rng.randint(1, 9)
        names = ["t%d" % i for i in range(n)]
        rng.shuffle(names)
        p = rng.choice([0.1, 0.2, 0.35])

        def deps(i):
            if rng.random() < 0.5:
                return [d for d in names if rng.random() < p]
            return [d for d in names[i + 1:] if rng.random() < 2 * p]
        graph = [[x, deps(i)] for i, x in enumerate(names)]
        steps = []
        for _ in range(rng.randint(1, 6)):
            s = rng.choice(["ask", "ask", "ask", "re", "edit", "unknown", "append"])
            i = rng.randrange(n)
            steps.append([s, names[i], deps(i), rng.random() < 0.5, rng.random() < 0.4])
        steps.append(["ask", names[0], [], rng.random() < 0.5, False])
        yield {"graph": graph, "steps": steps, "dup": rng.random() < 0.3}


def closure(g, root, inc):
    seen = set()
    todo = [root]
    first = True
    while todo:
        x = todo.pop()
        for d in g[x]:
            if d not in g:
                return None
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return sorted(seen | ({root} if inc else set()))


def run(case):
    core = C.Core()
    g = {}
    for n, ds in case["graph"]:
        core.add(C.UpdatableTarget(n, deps=ds + (ds[:1] if case["dup"] else [])))
        g[n] = list(ds)
    for k, (s, n, ds, inc, obj) in enumerate(case["steps"]):
        if s == "re":
            core.add(C.Target(n, deps=ds))
            g[n] = list(ds)
        elif s == "edit":
            core.get(n).deps = list(ds)
            g[n] = list(ds)
        elif s == "append":
            core.get(n).deps.extend(ds)
            g[n] = g[n] + list(ds)
        elif s == "unknown":
            core.get(n).deps = list(ds) + ["missing"]
            g[n] = list(ds) + ["missing"]
        want = closure(g, n, inc)
        ended, code, got = exits(core.depends_as_set, core.get(n) if obj else n, inc)
        if want is None:
            if not ended:
                return "step %d: closure of %s with an unknown dependency answered %r" % (k, n, got)
            continue
        if ended:
            return "step %d: closure of %s ended the program" % (k, n)
        if list(got) != want:
            return "step %d: closure of %s (own name: %s) is %r, not %r" % (k, n, inc, got, want)
    return None
