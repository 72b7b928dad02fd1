"""C05: random lists of distinctly named steps, well-formed or not."""
import random
from witness_lib import *
import licant.solver as S

RULE = ("random lists of up to 40 steps (names from a small odd set or numbered, cyclic, unknown, self-dependent, with cycles out of reach of the independent steps, empty; dependencies as list, tuple or set; "
        "names with dots, spaces, quotes), 0 to 8 workers; the constructor must return exactly for the well-formed ones and call no action")
TIMEOUT = 20


def cases(rng, tier):
    yield dict(names=[], deps=[], threads=1, kind="list", trace=False)
    for shape in (lambda n: [[i - 1] if i else [] for i in range(n)], lambda n: [list(range(i)) for i in range(n)], lambda n: [[0]] + [[] for _ in range(n - 1)]):
        for n in (1, 2, 3, 60):
            d = shape(n)
            yield dict(names=["n%d" % i for i in range(n)], deps=[["n%d" % j for j in x] for x in d], threads=2, kind="list", trace=False)
    for k in range(4000 if tier == "quick" else 80000):
        n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 40])
        names = ["n%d" % i for i in range(n)]
        if rng.random() < 0.2:
            odd = ["", " ", "a", "A", "a.b", "'", "a b", "0", "-", "a/b", "n0", "n1"]
            rng.shuffle(odd)
            names = (odd + ["n%d" % i for i in range(2, n)])[:n]
        order = list(range(n))
        rng.shuffle(order)
        dens = rng.choice([0.05, 0.15, 0.4, 0.8, 1.2 / n])
        deps = [[] for _ in range(n)]
        for i in range(n):
            for j in range(i):
                if rng.random() < dens:
                    deps[order[i]].append(names[order[j]])
        spoil = rng.choice(["no", "no", "edge", "edge", "self", "unknown", "cycle", "far"])
        if spoil == "edge":
            a, b = rng.randrange(n), rng.randrange(n)
            deps[a].append(names[b])
        elif spoil == "self":
            a = rng.randrange(n)
            deps[a].append(names[a])
        elif spoil == "unknown":
            deps[rng.randrange(n)].append(rng.choice(["nobody", names[0] + "x", names[-1].upper() + "?", "None"]))
        elif spoil == "cycle":
            m = rng.randint(1, n)
            ring = rng.sample(range(n), m)
            for a, b in zip(ring, ring[1:] + ring[:1]):
                deps[a].append(names[b])
        elif spoil == "far" and n > 2:
            # a cycle nothing leads to, apart from the rest
            m = rng.randint(1, n - 1)
            ring = order[-m:]
            for a, b in zip(ring, ring[1:] + ring[:1]):
                deps[a] = [names[b]]
            for i in order[:-m]:
                deps[i] = [d for d in deps[i] if d not in [names[r] for r in ring]]
        deps = [sorted(set(d)) for d in deps]
        for d in deps:
            rng.shuffle(d)
        p = list(range(n))
        rng.shuffle(p)
        yield dict(names=[names[i] for i in p], deps=[deps[i] for i in p], threads=rng.choice([0, 1, 2, 8]), kind=rng.choice(["list", "set", "list"]), trace=rng.random() < 0.1)


def well_formed(names, deps):
    if not names or any(d not in names for ds in deps for d in ds):
        return False
    left = dict(zip(names, deps))
    while left:
        free = [a for a in left if not any(d in left for d in left[a])]
        if not free:
            return False
        for a in free:
            del left[a]
    return True


def run(case):
    called = []
    mk = {"list": list, "set": set}[case["kind"]]
    steps = [S.DependableTarget(n, mk(d), lambda *a, n=n: called.append(n)) for n, d in zip(case["names"], case["deps"])]
    good = well_formed(case["names"], case["deps"])
    what = "names %r, dependencies %r" % (case["names"], case["deps"])
    try:
        S.InverseRecursiveSolver(steps, count_of_threads=case["threads"], trace=case["trace"])
    except Exception as e:
        if good:
            return "well-formed, but refused with %s: %s; %s" % (type(e).__name__, e, what)
    else:
        if not good:
            return "accepted although not well-formed; %s" % what
    if called:
        return "actions of %r are called; %s" % (called, what)
    if any(s.is_done() for s in steps):
        return "steps are done before the execution; %s" % what
    return None
