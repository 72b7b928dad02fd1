"""Shared by C01-C05: the data of the solver, models of asyncio, contracts of the preparation of an execution."""
from pyv.spec import *
from .common import PrivateField

DT = Ref("DependableTarget", True)
RT = Ref("DependableTargetRuntime", True)
TI = Ref("TaskInvoker", True)
SOLVER = Ref("InverseRecursiveSolver", True)
QUEUE = Ref("Queue", True)
LOCK = Ref("Lock", True)
SR = z3.ArraySort(RefS, B)
EMPTY = z3.EmptySet(RefS)

solver_schema = {
    "DependableTarget": {"name": STR, "deps": Set(STR), "what_to_do": FN, "args": ANY, "kwargs": ANY, "_is_done": BOOL},
    "DependableTargetRuntime": {"deptarget": DT, "depcount": INT, "inverse_deps": Set(RT), "task_invoker": TI},
    "TaskInvoker": {"loop": Ref("EventLoop", True), "queue": QUEUE, "threads_count": INT, "tasks": List(ANY), "thread_on_base": List(BOOL), "mtx": LOCK, "trace": BOOL,
                    "error_while_execution": BOOL},
    "InverseRecursiveSolver": {"trace": BOOL, "task_invoker": TI, "deptargets": List(RT), "names_to_deptargets": Dict(STR, RT)},
    # what asyncio.Queue and asyncio.Lock are, as far as it is relied on
    "Queue": {"items": Set(RT), "unf": INT},
    "Lock": {"held": BOOL},
    "EventLoop": {},
}

card_ref = z3.Function("card_ref", SR, I)
card_str = z3.Function("card_str", z3.ArraySort(StrS, B), I)


def card_axioms(c, s):
    P, Q = z3.Consts("ca_P ca_Q", z3.ArraySort(s, B))
    x = z3.Const("ca_x", s)
    return [
        # finite sets
        z3.ForAll([P], And(c(P) >= 0, (c(P) == 0) == (P == z3.EmptySet(s))), patterns=[c(P)]),
        z3.ForAll([P, Q], Implies(And(z3.IsSubset(P, Q), P != Q), c(P) < c(Q)), patterns=[z3.MultiPattern(c(P), c(Q))]),
        z3.ForAll([P, x], c(z3.Store(P, x, True)) == If(sel(P, x), c(P), c(P) + 1), patterns=[c(z3.Store(P, x, True))]),
    ]


def new_of(cls):
    def f(eng, recv, args, kwargs, node):
        o = eng.alloc(cls, Ref(cls, True))
        eng.assume(cls_of(o.z) == eng.class_id(cls))
        if cls == "Queue":
            s = eng.new_set([], ("queue",), RT)
            eng.hwrite("f:Queue.items", Set(RT), o.z, s.z)
            eng.set_write(V(Set(RT), s.z), EMPTY)
            eng.hwrite("f:Queue.unf", INT, o.z, z3.IntVal(0))
        if cls == "Lock":
            eng.hwrite("f:Lock.held", BOOL, o.z, z3.BoolVal(False))
        return o
    return f


def q_items(h, q):
    return h.setc(h.fld("Queue", "items", q), RT)


def ext_put(eng, recv, args, kwargs, node):
    """the item is added; the queue is unbounded, so put does not wait"""
    def run():
        x = eng.to_term(args[0], RT)
        h = HeapView(eng, eng.heap)
        s = V(Set(RT), h.fld("Queue", "items", recv.z))
        cur = eng.set_content(s)
        # the abstraction of the queue by a set is exact if nothing is queued twice
        eng.prove(Not(sel(cur, x)), "queued-at-most-once")
        hook = getattr(eng.spec, "on_put", None)
        if hook:
            hook(eng, x)
        eng.set_write(s, z3.Store(cur, x, True))
        eng.hwrite("f:Queue.unf", INT, recv.z, h.fld("Queue", "unf", recv.z) + 1)
        return Con(None)
    return CoroV(run, "Queue.put")


def ext_run(eng, recv, args, kwargs, node):
    """runs the coroutine to its end"""
    return eng.await_(args[0])


def opaque(eng, recv, args, kwargs, node):
    return Con(None)


solver_externals = {"asyncio.new_event_loop": new_of("EventLoop"), "asyncio.set_event_loop": opaque, "asyncio.Queue": new_of("Queue"), "asyncio.Lock": new_of("Lock"),
                    "Queue.put": ext_put, "asyncio.run": ext_run}

Q_MODS = lambda h, ti: [("set", h.fld("Queue", "items", h.fld("TaskInvoker", "queue", ti)), RT), ("field", "Queue", "unf", [h.fld("TaskInvoker", "queue", ti)])]
