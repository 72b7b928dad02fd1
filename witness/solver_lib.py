"""Executions of random sets of steps: actions finish in orders chosen by the case (a loop with virtual time), or in real threads."""
import asyncio
import selectors
import threading
import time
import random
from witness_lib import *
import licant.solver as S

REAL_TO_THREAD = asyncio.to_thread
REAL_NEW_LOOP = asyncio.new_event_loop


class Stuck(BaseException):
    pass


class VSelector:
    """nothing happens but the passing of time"""

    def __init__(self, loop):
        self.s = selectors.DefaultSelector()
        self.loop = loop

    def select(self, timeout=None):
        r = self.s.select(0)
        if r:
            return r
        if timeout is None:
            raise Stuck("the execution waits forever")
        if timeout > 0:
            self.loop.vt += timeout
        return []

    def __getattr__(self, k):
        return getattr(self.s, k)


class VLoop(asyncio.SelectorEventLoop):
    vt = 0.0

    def __init__(self):
        super().__init__(VSelector(self))

    def time(self):
        return self.vt


class Boom(Exception):
    pass


RESULTS = {"True": True, "None": None, "0": 0, "''": "", "[]": [], "1": 1, "False": False}


class Outcome:
    pass


def graph_cases(rng, tier, quick=2500, thorough=40000):
    for k in range(quick if tier == "quick" else thorough):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
        dens = rng.choice([0.15, 0.35, 0.6])
        order = list(range(n))
        rng.shuffle(order)
        deps = [[] for _ in range(n)]
        for i in range(n):
            for j in range(i):
                if rng.random() < dens:
                    deps[order[i]].append(order[j])
        pf = rng.choice([0, 0, 0.1, 0.3])
        res = [rng.choice(["False", "raise", "raise:KeyError"]) if rng.random() < pf else rng.choice(["True", "True", "None", "0", "''", "[]", "1"]) for _ in range(n)]
        yield dict(deps=deps, res=res, threads=rng.choice([1, 1, 2, 2, 3, 4, 8]), seed=rng.randint(0, 10 ** 9), mode=rng.choice(["virtual"] * 9 + ["threads"]), trace=rng.random() < 0.1,
                   args=[[rng.randint(0, 9) for _ in range(rng.randint(0, 2))] for _ in range(n)], kw=[rng.random() < 0.2 for _ in range(n)])


def execute(case):
    """run the case; what happened"""
    n = len(case["deps"])
    rng = random.Random(case["seed"])
    o = Outcome()
    o.log = []          # (what, step)
    o.got = {}
    lock = threading.Lock()
    o.running = set()
    virtual = case["mode"] == "virtual"

    def action(i):
        def f(*a, **k):
            with lock:
                o.log.append(("start", i))
                o.running.add(i)
                o.got.setdefault(i, []).append((list(a), dict(k)))
                d = rng.choice([0, 0, 0.001, 0.003])
            if not virtual and d:
                time.sleep(d)
            with lock:
                o.running.discard(i)
                o.log.append(("end", i))
            r = case["res"][i]
            if r == "raise":
                raise Boom("step %d" % i)
            if r == "raise:KeyError":
                raise KeyError(i)
            return RESULTS[r]
        return f

    async def to_thread(f, *a, **k):
        await asyncio.sleep(rng.choice([0, 0, 1, 2, 3, 5]) + rng.random() / 2)
        return f(*a, **k)
    if virtual:
        asyncio.to_thread = to_thread
        asyncio.new_event_loop = VLoop
    try:
        steps = [S.DependableTarget("s%d" % i, ["s%d" % j for j in case["deps"][i]], action(i), list(case["args"][i]), {"key": i} if case["kw"][i] else {}) for i in range(n)]
        o.before = list(o.log)
        solver = S.InverseRecursiveSolver(steps, count_of_threads=case["threads"], trace=case["trace"])
        o.prepared = list(o.log)
        o.stuck = o.raised = None
        o.result = None
        try:
            o.result = solver.exec()
        except Stuck as e:
            o.stuck = str(e)
        except Exception as e:
            o.raised = "%s: %s" % (type(e).__name__, e)
        o.at_return = set(o.running)
        o.n_at_return = len(o.log)
        if not virtual:
            time.sleep(0.005)
        o.later = o.log[o.n_at_return:]
        o.done = [s.is_done() for s in steps]
    finally:
        asyncio.to_thread = REAL_TO_THREAD
        asyncio.new_event_loop = REAL_NEW_LOOP
    n_ = n
    clo = [set(d) for d in case["deps"]]
    for _ in range(n_):
        for i in range(n_):
            for j in list(clo[i]):
                clo[i] |= clo[j]
    o.clo = clo
    o.failing = {i for i in range(n) if case["res"][i] == "False" or case["res"][i].startswith("raise")}
    return o


def show(case, o):
    return "dependencies %r, results %r, %d workers: %r" % (case["deps"], case["res"], case["threads"], o.log)


def check_order(case, o):
    ended = set()
    for what, i in o.log:
        if what == "end":
            ended.add(i)
        elif not o.clo[i] <= ended:
            return "step %d starts before %r have finished; %s" % (i, sorted(o.clo[i] - ended), show(case, o))
    return None


def check_once(case, o):
    n = len(case["deps"])
    for i, gs in o.got.items():
        if len(gs) > 1:
            return "step %d is run %d times; %s" % (i, len(gs), show(case, o))
        if gs[0] != (case["args"][i], {"key": i} if case["kw"][i] else {}):
            return "step %d is called with %r" % (i, gs[0])
    if o.prepared:
        return "actions are called before the execution: %r" % o.prepared
    if o.result is not None and o.result is not False:
        if o.result is not True:
            return "the result is %r" % (o.result,)
        if set(o.got) != set(range(n)) or o.running or len(o.log) != 2 * n:
            return "success without step(s) %r; %s" % (sorted(set(range(n)) - set(o.got)), show(case, o))
        if any(case["res"][i] == "False" for i in o.got):
            return "success although a step returned False; %s" % show(case, o)
    return None


def check_failure(case, o):
    for i in o.got:
        bad = o.clo[i] & o.failing
        if bad:
            return "step %d is started although %r failed; %s" % (i, sorted(bad), show(case, o))
    failed = set(o.got) & o.failing
    if o.raised:
        return "the execution raises %s; %s" % (o.raised, show(case, o))
    if o.stuck:
        return None
    if failed and o.result is not False:
        return "%r failed but the result is %r; %s" % (sorted(failed), o.result, show(case, o))
    if not failed and o.result is not True:
        return "no step failed but the result is %r; %s" % (o.result, show(case, o))
    return None


def check_end(case, o):
    if o.stuck:
        return "%s; %s" % (o.stuck, show(case, o))
    if o.raised:
        return "the execution raises %s" % o.raised
    if o.at_return or o.later:
        return "steps %r are still running when the execution returns" % sorted(o.at_return | {i for _, i in o.later})
    return None
