"""C01-C04: what holds whenever a worker of an execution waits (monitor invariant), and what each step of a worker does to it.

The event loop runs one worker at a time and switches only where a worker really waits: the invariant is proved there and
assumed after it, together with what the other workers cannot change (rely).  Every worker is verified against the same
invariant, so the argument does not depend on the number of workers, the graph or the order of completion."""
from pyv.spec import *
from .solver_common import DT, RT, TI, SOLVER, QUEUE, LOCK, SR, EMPTY, solver_schema, card_ref, card_axioms, opaque
import itertools

TASK = Ref("Task", True)
IB = z3.ArraySort(I, B)
isdep = z3.Function("depends_on", RefS, RefS, B)          # isdep(d, x): step x depends on step d
rem = z3.Function("unfinished_dependencies", RefS, SR, I)  # of a step, if the steps of the set are finished
STEPS = z3.Const("steps", SR)
TI0 = z3.Const("the_invoker", RefS)
RT_OF = z3.Function("runtime_of", RefS, RefS)
RANK = z3.Function("rank", RefS, I)
missing = z3.Function("some_unfinished_dependency", RefS, SR, RefS)

schema = dict(solver_schema)
schema["Task"] = {}
schema["TaskInvoker"] = dict(schema["TaskInvoker"], tasks=List(TASK))
schema["Queue"] = {}
schema["Lock"] = {}

SHARED = ("queue", "unf", "hold", "who", "sta", "cpl", "fal", "rel")


def dt(h, r):
    return h.fld("DependableTargetRuntime", "deptarget", r)


def ti(h, a):
    return h.fld("TaskInvoker", a, TI0)


def struct(h):
    """what never changes during an execution (established by InverseRecursiveSolver.__init__, C05)"""
    x, u = z3.Consts("st_x st_u", RefS)
    iv = h.fld("DependableTargetRuntime", "inverse_deps", x)
    return [("invoker", And(TI0 != null, h.alloc(TI0), ti(h, "queue") != null, ti(h, "mtx") != null, ti(h, "thread_on_base") != null, ti(h, "tasks") != null, ti(h, "loop") != null,
                            ti(h, "tasks") != ti(h, "thread_on_base"), *[h.alloc(ti(h, a)) for a in ("queue", "mtx", "thread_on_base", "tasks", "loop")])),
            ("steps", z3.ForAll([x], Implies(sel(STEPS, x), And(x != null, h.alloc(x), dt(h, x) != null, h.alloc(dt(h, x)), RT_OF(dt(h, x)) == x,
                                                                h.fld("DependableTargetRuntime", "task_invoker", x) == TI0, iv != null, h.alloc(iv))),
                                patterns=[sel(STEPS, x), dt(h, x), iv])),
            ("dependents", z3.ForAll([x, u], Implies(sel(STEPS, x), sel(h.setc(iv, RT), u) == isdep(x, u)), patterns=[sel(h.setc(iv, RT), u)]))]


class Exec(Spec):
    schema = schema
    ext_classes = ("Queue", "Lock", "EventLoop", "Task")
    ghosts = {"queue": SR, "unf": I, "hold": SR, "who": z3.ArraySort(RefS, I), "sta": SR, "cpl": SR, "fal": SR, "rel": SR,
              "held": B, "mine": RefS, "me": I, "spawned": IB, "uncancelled": SR, "outcome": B}
    P = frozenset("bfda")   # the classes of facts this property is about: b order, f failures, c dependents of failed steps, d marks of completion, a acknowledgement and locks

    # ------------------------------------------------------------ the invariant
    def inv(self, h, mid=None):
        """at a waiting point; mid: the item whose failure is not flagged yet"""
        x, y = z3.Consts("iv_x iv_y", RefS)
        g = h.ghost
        Q, H, sta, cpl, fal, rel, who = (g(n) for n in ("queue", "hold", "sta", "cpl", "fal", "rel", "who"))
        err = ti(h, "error_while_execution")
        tob = ti(h, "thread_on_base")
        A = h.larr(tob, BOOL)
        dc = h.fld("DependableTargetRuntime", "depcount", x)
        r = rem(x, rel)
        every = lambda f, *p: z3.ForAll([x], f, patterns=list(p))
        out = [("only-steps", "b", every(Implies(Or(sel(Q, x), sel(H, x), sel(sta, x)), sel(STEPS, x)), sel(Q, x), sel(H, x), sel(sta, x))),
               ("life-cycle", "b", every(And(Implies(sel(rel, x), sel(cpl, x)), Implies(sel(cpl, x), sel(sta, x)), Implies(sel(fal, x), sel(cpl, x))), sel(rel, x), sel(cpl, x), sel(fal, x), sel(sta, x))),
               ("count-is-the-number-of-unfinished-dependencies", "b", every(Implies(sel(STEPS, x), dc == r), dc)),
               ("ready-if-queued", "b", every(Implies(Or(sel(Q, x), sel(H, x), sel(sta, x)), r == 0), sel(Q, x), sel(H, x), sel(sta, x))),
               ("queued-once", "b", every(Implies(sel(Q, x), And(Not(sel(sta, x)), Not(sel(H, x)))), sel(Q, x))),
               ("error-only-after-a-failure", "f", Implies(err, fal != EMPTY)),
               ("failure-is-flagged", "f", every(Implies(sel(fal, x), Or(err, x == mid) if mid is not None else err), sel(fal, x))),
               ("marked-done-iff-finished", "d", every(Implies(sel(STEPS, x), h.fld("DependableTarget", "_is_done", dt(h, x)) == sel(cpl, x)), h.fld("DependableTarget", "_is_done", dt(h, x)), sel(cpl, x)))]
        out.append(("flags-of-the-workers", "b", h.llen(tob) == ti(h, "threads_count")))
        if "a" in self.P:
            out += [("unacknowledged-items", "a", g("unf") == card_ref(Q) + card_ref(H)),
                    ("holders", "a", every(Implies(sel(H, x), And(0 <= sel(who, x), sel(who, x) < ti(h, "threads_count"), Not(sel(A, sel(who, x))))), sel(H, x))),
                    ("one-item-each", "a", z3.ForAll([x, y], Implies(And(sel(H, x), sel(H, y), sel(who, x) == sel(who, y)), x == y), patterns=[z3.MultiPattern(sel(H, x), sel(H, y))])),
                    ("all-ready-are-queued", "a", every(Implies(And(sel(STEPS, x), r == 0, fal == EMPTY), Or(sel(Q, x), sel(H, x), sel(rel, x))), sel(STEPS, x)))]
            if mid is None:
                out.append(("nothing-queued-after-an-error", "a", Implies(err, Q == EMPTY)))
        return [(n, f) for n, c, f in out if c in self.P]

    def idle(self, h):
        return And(h.ghost("queue") == EMPTY, h.ghost("hold") == EMPTY)

    def stable(self, o, h):
        """what the other workers do not change"""
        x = z3.Const("rl_x", RefS)
        g0, g1 = o.ghost, h.ghost
        me = o.ghost("me")
        grow = lambda n: z3.ForAll([x], Implies(sel(g0(n), x), sel(g1(n), x)), patterns=[sel(g0(n), x), sel(g1(n), x)])
        mineof = lambda g: And(sel(g("hold"), x), sel(g("who"), x) == me)
        keep = z3.ForAll([x], And(mineof(g0) == mineof(g1), Implies(mineof(g0), And(*[sel(g0(n), x) == sel(g1(n), x) for n in ("sta", "cpl", "fal", "rel")]))),
                         patterns=[sel(g1("hold"), x), sel(g0("hold"), x)])
        return [grow("sta"), grow("cpl"), grow("fal"), grow("rel"), keep,
                z3.ForAll([x], Implies(sel(g0("cpl"), x), sel(g0("fal"), x) == sel(g1("fal"), x)), patterns=[sel(g1("fal"), x)]),
                Implies(self.idle(o), self.idle(h))]

    def shared_mods(self, h):
        return [("ghost", n) for n in SHARED] + [("field", "DependableTargetRuntime", "depcount"), ("field", "DependableTarget", "_is_done"),
                                                 ("field", "TaskInvoker", "error_while_execution", [TI0]), ("list", ti(h, "thread_on_base"), BOOL)]

    def holds_nothing(self, h):
        x = z3.Const("hn_x", RefS)
        return And(h.ghost("mine") == null, z3.ForAll([x], Not(And(sel(h.ghost("hold"), x), sel(h.ghost("who"), x) == h.ghost("me"))), patterns=[sel(h.ghost("hold"), x)]))

    def a(self, eng, f, name):
        if "a" in self.P:
            eng.prove(f, name)

    def set_held(self, eng, v):
        if "a" in self.P:
            eng.set_ghost("held", z3.BoolVal(v))

    def suspend(self, eng, why):
        """the worker waits; others run"""
        h = HeapView(eng, eng.heap)
        for n, f in self.inv(h):
            eng.prove(f, "while-it-waits-(%s):%s" % (why, n))
        self.a(eng, Not(h.ghost("held")), "lock-is-free-while-it-waits")
        eng.havoc(Contract("others", modifies=lambda c: self.shared_mods(h)), CallCtx(eng, {}, h))
        new = HeapView(eng, eng.heap)
        for n, f in self.inv(new):
            eng.assume(f)
        for f in self.stable(h, new):
            eng.assume(f)
        return new

    # ------------------------------------------------------------ asyncio
    def externals_(self):
        S_ = self

        def the_queue(eng, recv):
            eng.prove(recv.z == ti(HeapView(eng, eng.heap), "queue"), "the-queue-of-the-execution")

        def put(eng, recv, args, kwargs, node):
            """the queue is unbounded, so put does not wait"""
            def run():
                the_queue(eng, recv)
                x = eng.to_term(args[0], RT)
                g = HeapView(eng, eng.heap).ghost
                Q = g("queue")
                eng.prove(Not(Or(sel(Q, x), sel(g("hold"), x), sel(g("sta"), x))), "queued-at-most-once")
                eng.prove(sel(STEPS, x), "only-steps-are-queued")
                S_.a(eng, And(g("mine") != null, sel(g("hold"), g("mine"))), "only-a-running-step-queues-others")
                eng.set_ghost("queue", z3.Store(Q, x, True))
                eng.set_ghost("unf", g("unf") + 1)
                return Con(None)
            return CoroV(run, "Queue.put")

        def get(eng, recv, args, kwargs, node):
            """waits exactly while the queue is empty; removes and returns an item"""
            def run():
                the_queue(eng, recv)
                g = HeapView(eng, eng.heap).ghost
                if eng.branch(g("queue") == EMPTY):
                    h = HeapView(eng, eng.heap)
                    S_.a(eng, S_.holds_nothing(h), "acknowledged-before-it-waits-for-the-next")
                    h = S_.suspend(eng, "get")
                    if eng.choose():
                        # the execution is over: the worker is cancelled
                        if "a" in S_.P:
                            eng.assume(S_.idle(h))
                        raise PyRaise("CancelledError", None, "Queue.get")
                    g = h.ghost
                    eng.assume(g("queue") != EMPTY)
                S_.a(eng, S_.holds_nothing(HeapView(eng, eng.heap)), "acknowledged-before-it-takes-the-next")
                x = eng.fresh("item", RefS)
                eng.assume(sel(g("queue"), x))
                eng.set_ghost("queue", z3.Store(g("queue"), x, False))
                eng.set_ghost("hold", z3.Store(g("hold"), x, True))
                eng.set_ghost("who", z3.Store(g("who"), x, g("me")))
                eng.set_ghost("mine", x)
                v = V(RT, x)
                eng.assume_class(x, RT)
                return v
            return CoroV(run, "Queue.get")

        def task_done(eng, recv, args, kwargs, node):
            """one item less is unacknowledged"""
            the_queue(eng, recv)
            g = HeapView(eng, eng.heap).ghost
            m = g("mine")
            if "a" not in S_.P:
                return Con(None)
            S_.a(eng, And(m != null, sel(g("hold"), m)), "acknowledges-the-item-it-took")
            S_.a(eng, Or(sel(g("rel"), m), g("fal") != EMPTY), "acknowledged-only-when-it-ran-or-after-a-failure")
            eng.set_ghost("hold", z3.Store(g("hold"), m, False))
            eng.set_ghost("unf", g("unf") - 1)
            eng.set_ghost("mine", null)
            return Con(None)

        def empty(eng, recv, args, kwargs, node):
            the_queue(eng, recv)
            return V(BOOL, eng.ghost("queue") == EMPTY)

        def qsize(eng, recv, args, kwargs, node):
            the_queue(eng, recv)
            return V(INT, card_ref(eng.ghost("queue")))

        def join(eng, recv, args, kwargs, node):
            """waits until every item put has been acknowledged"""
            def run():
                the_queue(eng, recv)
                h = HeapView(eng, eng.heap)
                k = z3.Int("jn_k")
                S_.a(eng, Or(h.ghost("unf") == 0, z3.Exists([k], sel(h.ghost("spawned"), k))), "some-worker-serves-the-queue")
                h = S_.suspend(eng, "join")
                if "a" in S_.P:
                    # with the last acknowledgement the execution was idle, and it stays so
                    eng.assume(And(h.ghost("unf") == 0, S_.idle(h)))
                return Con(None)
            return CoroV(run, "Queue.join")

        def lock(eng, recv, args, kwargs, node):
            """the lock is taken at once if it is free"""
            def run():
                S_.a(eng, recv.z == ti(HeapView(eng, eng.heap), "mtx"), "the-lock-of-the-execution")
                S_.a(eng, Not(eng.ghost("held")), "lock-is-free-when-taken")
                S_.set_held(eng, True)
                return Con(None)
            return CoroV(run, "Lock.acquire")

        def unlock(eng, recv, args, kwargs, node):
            def run():
                S_.set_held(eng, False)
                return Con(None)
            return CoroV(run, "Lock.release")

        def release(eng, recv, args, kwargs, node):
            S_.set_held(eng, False)
            return Con(None)

        def to_thread(eng, recv, args, kwargs, node):
            """the function runs in another thread while the event loop serves the other workers; the result is that of the function"""
            def run():
                f = eng.force(args[0])
                # it may start now or later
                S_.may_start(eng)
                S_.suspend(eng, "action")
                return eng.call(f, list(args[1:]), kwargs, node)
            return CoroV(run, "to_thread")

        def create_task(eng, recv, args, kwargs, node):
            """the coroutine runs when the creator waits"""
            co = eng.force(args[0])
            if not (isinstance(co, CoroV) and getattr(co, "bound", None) is not None):
                raise Unsupported("create_task of %r" % (co,))
            c = S_.contracts.get(co.what)
            if c is not S_.worker:
                raise Unsupported("a task that is no worker")
            no = eng.to_term(co.bound["no"], INT)
            h = HeapView(eng, eng.heap)
            ctx = CallCtx(eng, co.bound, h)
            ctx.types = c.params
            for n, f in S_.worker_args(ctx):
                eng.prove(f, "worker:" + n)
            eng.prove(Not(sel(h.ghost("spawned"), no)), "worker:number-used-once")
            eng.set_ghost("spawned", z3.Store(h.ghost("spawned"), no, True))
            t = eng.alloc("Task", TASK)
            eng.assume(cls_of(t.z) == eng.class_id("Task"))
            eng.set_ghost("uncancelled", z3.Store(h.ghost("uncancelled"), t.z, True))
            return t

        def cancel(eng, recv, args, kwargs, node):
            """the worker gets a CancelledError where it waits"""
            S_.a(eng, S_.idle(HeapView(eng, eng.heap)), "workers-are-cancelled-only-when-nothing-is-left")
            eng.set_ghost("uncancelled", z3.Store(eng.ghost("uncancelled"), recv.z, False))
            return Con(True)

        def gather(eng, recv, args, kwargs, node):
            """waits for the tasks to end; with return_exceptions the exceptions are results"""
            def run():
                S_.a(eng, eng.ghost("uncancelled") == EMPTY, "waits-only-for-cancelled-workers")
                re = kwargs.get("return_exceptions")
                if not (isinstance(re, Con) and re.v is True):
                    raise PyRaise("CancelledError", None, "gather")
                S_.suspend(eng, "gather")
                return Con(None)
            return CoroV(run, "gather")

        def run_until_complete(eng, recv, args, kwargs, node):
            """runs the coroutine to its end"""
            return eng.await_(args[0])
        return {"Queue.put": put, "Queue.get": get, "Queue.task_done": task_done, "Queue.empty": empty, "Queue.qsize": qsize, "Queue.join": join,
                "Lock.__aenter__": lock, "Lock.__aexit__": unlock, "Lock.acquire": lock, "Lock.release": release, "asyncio.to_thread": to_thread, "asyncio.create_task": create_task,
                "Task.cancel": cancel, "asyncio.gather": gather, "EventLoop.run_until_complete": run_until_complete, "EventLoop.close": opaque}

    # ------------------------------------------------------------ the start of an action
    def may_start(self, eng):
        h = HeapView(eng, eng.heap)
        for n, f in self.start_conditions(h):
            eng.prove(f, "start:" + n)

    def start_conditions(self, h):
        d = z3.Const("sc_d", RefS)
        m = h.ghost("mine")
        out = [("a-step-taken-from-the-queue", And(m != null, sel(STEPS, m), sel(h.ghost("hold"), m), sel(h.ghost("who"), m) == h.ghost("me"))),
               ("dependencies-finished", z3.ForAll([d], Implies(isdep(d, m), sel(h.ghost("cpl"), d)), patterns=[isdep(d, m)])),
               ("not-started-before", Not(sel(h.ghost("sta"), m)))]
        if "c" in self.P:
            out.append(("no-dependency-failed", z3.ForAll([d], Implies(isdep(d, m), Not(sel(h.ghost("fal"), d))), patterns=[isdep(d, m)])))
        return out

    def call_fn(self, eng, f, args, kwargs, node):
        """the action of a step: returns anything or raises an ordinary exception; it does not touch the solver"""
        h = HeapView(eng, eng.heap)
        m = h.ghost("mine")
        t = dt(h, m)
        self.may_start(eng)
        eng.prove(f.z == h.fld("DependableTarget", "what_to_do", t), "its-own-action")
        star = args[0].v if len(args) == 1 and isinstance(args[0], Star) else None
        kw = kwargs.get("**") if set(kwargs) == {"**"} else None
        ok = star is not None and kw is not None
        eng.prove(And(eng.to_term(star, ANY) == h.fld("DependableTarget", "args", t), eng.to_term(kw, ANY) == h.fld("DependableTarget", "kwargs", t)) if ok else False, "with-exactly-its-arguments")
        eng.set_ghost("sta", z3.Store(h.ghost("sta"), m, True))
        eng.set_ghost("cpl", z3.Store(h.ghost("cpl"), m, True))
        if eng.choose():
            eng.set_ghost("fal", z3.Store(h.ghost("fal"), m, True))
            raise PyRaise("AnyException", None, "the action")
        r = V(ANY, eng.fresh("result", AnyS))
        bad = zb(eng.is_same(r, Con(False)))
        eng.set_ghost("fal", z3.If(bad, z3.Store(h.ghost("fal"), m, True), h.ghost("fal")))
        return r

    # ------------------------------------------------------------ contracts
    def worker_args(self, c):
        h = c.old
        return [("of-this-execution", c.t("self") == TI0), ("serves-the-queue", c.t("queue") == ti(h, "queue")), ("number", And(0 <= c.t("no"), c.t("no") < ti(h, "threads_count")))]

    def setup(self):
        x, y = z3.Consts("su_x su_y", RefS)
        P, Q = z3.Consts("su_P su_Q", SR)
        d = z3.Const("su_d", RefS)
        self.axioms = card_axioms(card_ref, RefS) + [
            z3.ForAll([P, x], Implies(sel(P, x), card_ref(z3.Store(P, x, False)) == card_ref(P) - 1), patterns=[card_ref(z3.Store(P, x, False))]),
            # dependencies are steps
            z3.ForAll([d, x], Implies(isdep(d, x), And(sel(STEPS, d), sel(STEPS, x), RANK(d) > RANK(x))), patterns=[isdep(d, x)]),
            # the number of the dependencies of a step outside a set
            z3.ForAll([x, P], And(rem(x, P) >= 0, Implies(rem(x, P) > 0, And(isdep(missing(x, P), x), Not(sel(P, missing(x, P))))), Implies(rem(x, P) == 0, z3.ForAll([d], Implies(isdep(d, x), sel(P, d)), patterns=[isdep(d, x)]))), patterns=[rem(x, P)]),
            z3.ForAll([x, P, d], Implies(Not(sel(P, d)), rem(x, z3.Store(P, d, True)) == rem(x, P) - If(isdep(d, x), 1, 0)), patterns=[rem(x, z3.Store(P, d, True))])]
        self.externals = self.externals_()
        R_, T_, W_ = "licant.solver:DependableTargetRuntime.", "licant.solver:DependableTarget.", "licant.solver:TaskInvoker."
        view = lambda c: c.new
        g = lambda h, n: h.ghost(n)

        def item(c, h=None):
            """the worker holds an item that it has not started"""
            h = h or c.old
            m = g(h, "mine")
            return [("start:" + n, f) for n, f in self.start_conditions(h)] + [("not-finished", And(Not(sel(g(h, "cpl"), m)), Not(sel(g(h, "rel"), m)), Not(sel(g(h, "fal"), m))))]

        def free(h):
            return [("lock-free", Not(g(h, "held")))] if "a" in self.P else []

        def result(c):
            """False is the result of a failed action and of no other"""
            return ("failed-iff-false", zb(c.eng.is_same(c.res, Con(False))) == sel(g(c.new, "fal"), g(c.old, "mine")))
        self.result = result

        # ---- the action of a step
        def di_ens(c):
            o, h = c.old, c.new
            m = g(o, "mine")
            return [("started", g(h, "sta") == z3.Store(g(o, "sta"), m, True)), ("finished", g(h, "cpl") == z3.Store(g(o, "cpl"), m, True)),
                    ("only-this-one-failed", Or(g(h, "fal") == g(o, "fal"), g(h, "fal") == z3.Store(g(o, "fal"), m, True)))] + ([result(c)] if "f" in self.P else [])
        self.doit_impl = self.add(Contract(T_ + "doit_impl", {"self": DT}, ret=ANY, requires=lambda c: struct(c.old) + item(c) + [("its-step", c.t("self") == dt(c.old, g(c.old, "mine")))],
                                           ensures=di_ens, modifies=lambda c: [("ghost", "sta"), ("ghost", "cpl"), ("ghost", "fal")], optional=True))

        mods = lambda c: self.shared_mods(c.old)

        def stage(name):
            def req(c):
                h = c.old
                me = c.t("self")
                m = g(h, "mine")
                return struct(h) + self.inv(h) + item(c) + free(h) + [("its-step", me == (dt(h, m) if name == "t" else m))]
            return req

        def d_ens(c):
            o, h = c.old, c.new
            m = g(o, "mine")
            st = self.stable_but_mine(o, h)
            return self.inv(h, m)[:] + [("finished", And(sel(g(h, "cpl"), m), sel(g(h, "sta"), m), Not(sel(g(h, "rel"), m)), sel(g(h, "hold"), m), sel(g(h, "who"), m) == g(h, "me")))] + st + ([result(c)] if "f" in self.P else []) + self.quiet(h)
        self.t_doit = self.add(Contract(T_ + "doit", {"self": DT}, ret=ANY, requires=stage("t"), ensures=d_ens, modifies=mods, optional=True))

        # ---- its dependents are released
        def dec_req(c):
            h, me = c.old, c.t("self")
            dc = h.fld("DependableTargetRuntime", "depcount", me)
            m = g(h, "mine")
            return struct(h) + [("a-step", sel(STEPS, me)), ("it-waits-for-something", dc >= 1),
                                ("not-queued-yet", Implies(dc == 1, Not(Or(sel(g(h, "queue"), me), sel(g(h, "hold"), me), sel(g(h, "sta"), me))))),
                                ("in-a-running-step", And(m != null, sel(g(h, "hold"), m)))]

        def dec_ens(c):
            o, h, me = c.old, c.new, c.t("self")
            dc = o.fld("DependableTargetRuntime", "depcount", me)
            return [("one-less", h.fld("DependableTargetRuntime", "depcount", me) == dc - 1),
                    ("queued-when-nothing-is-left", g(h, "queue") == If(dc == 1, z3.Store(g(o, "queue"), me, True), g(o, "queue"))),
                    ("counted", g(h, "unf") == g(o, "unf") + If(dc == 1, 1, 0))]
        self.dec = self.add(Contract(R_ + "decrease_inverse_deps_count", {"self": RT}, requires=dec_req, ensures=dec_ens, optional=True,
                                     modifies=lambda c: [("field", "DependableTargetRuntime", "depcount", [c.t("self")]), ("ghost", "queue"), ("ghost", "unf")]))

        def r_ens(c):
            o, h = c.old, c.new
            m = g(o, "mine")
            return self.inv(h, m) + [("released", And(sel(g(h, "rel"), m), sel(g(h, "cpl"), m), sel(g(h, "hold"), m), sel(g(h, "who"), m) == g(h, "me")))] + self.stable_but_mine(o, h) + \
                ([result(c)] if "f" in self.P else []) + self.quiet(h)

        def r_exit(eng, c):
            eng.set_ghost("rel", z3.Store(eng.ghost("rel"), g(c.old, "mine"), True))
        self.r_doit = self.add(Contract(R_ + "doit", {"self": RT}, ret=ANY, requires=stage("r"), ensures=r_ens, modifies=mods, ghost_exit=r_exit, optional=True))

        # ---- workers
        wmods = lambda c: self.shared_mods(c.old) + [("ghost", "mine"), ("ghost", "held")]
        cancelled = [("CancelledError", None)]

        def lazy(h):
            """a worker that does not take steps any more"""
            return Or(g(h, "fal") != EMPTY, self.idle(h))

        def rq_req(c):
            h = c.old
            return struct(h) + self.inv(h, null) + free(h) + [("of-this-execution", c.t("self") == TI0)] + ([("holds-nothing", self.holds_nothing(h)), ("only-after-a-failure-or-the-last-step", lazy(h))] if "a" in self.P else [])

        def w_ens(c):
            h = c.new
            return (self.inv(h) + [("ends-only-after-a-failure-or-the-last-step", lazy(h)), ("holds-nothing", self.holds_nothing(h)), ("lock-free", Not(g(h, "held")))]) if "a" in self.P else []
        self.lazy = lazy
        self.release = self.add(Contract(W_ + "release_queue", {"self": TI}, requires=rq_req, ensures=w_ens, modifies=wmods, raises=cancelled, optional=True))
        self.release.no_normal = True

        def w_req(c):
            h = c.old
            return struct(h) + self.inv(h) + free(h) + self.worker_args(c) + [("number-of-the-worker", g(h, "me") == c.t("no")), ("holds-nothing", self.holds_nothing(h))]
        self.worker = self.add(Contract(W_ + "worker", {"self": TI, "name": ANY, "queue": QUEUE, "no": INT}, requires=w_req, ensures=w_ens, modifies=wmods, raises=cancelled))
        self.worker.no_normal = True

        # ---- the whole execution
        k = z3.Int("ex_k")

        def begin(h):
            return struct(h) + self.inv(h) + free(h) + [("none-runs-yet", And(g(h, "hold") == EMPTY, g(h, "spawned") == z3.K(I, z3.BoolVal(False)), g(h, "uncancelled") == EMPTY, g(h, "mine") == null, g(h, "me") == -1))] + \
                ([("a-worker-at-least", ti(h, "threads_count") >= 1)] if "a" in self.P else [])

        def s_ens(c):
            h = c.new
            return self.inv(h) + free(h) + ([("nothing-left", self.idle(h)), ("all-finished-unless-one-failed", Implies(g(h, "fal") == EMPTY, z3.ForAll([x], Implies(sel(STEPS, x), sel(g(h, "rel"), x)), patterns=[sel(STEPS, x), sel(g(h, "rel"), x)])))] if "a" in self.P else [])
        smods = lambda c: self.shared_mods(c.old) + [("ghost", "mine"), ("ghost", "held"), ("ghost", "spawned"), ("ghost", "uncancelled"), ("list", ti(c.old, "tasks"), TASK), ("field", "TaskInvoker", "tasks", [TI0]), ("list", "new", TASK)]
        me_ti = lambda c: [("of-this-execution", c.t("self") == TI0)]
        self.start = self.add(Contract(W_ + "start", {"self": TI}, requires=lambda c: begin(c.old) + me_ti(c), ensures=s_ens, modifies=smods, ghost_exit=self.start_exit if "a" in self.P else None))
        self.run = self.add(Contract(W_ + "run_until_complete", {"self": TI}, requires=lambda c: begin(c.old) + me_ti(c), ensures=s_ens, modifies=smods, optional=True))

        def e_req(c):
            h = c.old
            L = h.fld("InverseRecursiveSolver", "deptargets", c.t("self"))
            e = sel(h.larr(L, RT), k)
            return begin(h) + [("the-invoker", h.fld("InverseRecursiveSolver", "task_invoker", c.t("self")) == TI0),
                               ("the-steps", And(L != null, h.alloc(L), L != ti(h, "tasks"), L != ti(h, "thread_on_base"), z3.ForAll([k], Implies(And(0 <= k, k < h.llen(L)), sel(STEPS, e)), patterns=[e]),
                                                 z3.ForAll([x], Implies(sel(STEPS, x), z3.Exists([k], And(0 <= k, k < h.llen(L), e == x))), patterns=[sel(STEPS, x)])))]

        def e_ens(c):
            h = c.new
            out = []
            if "d" in self.P:
                out.append(("success-means-every-step-ran", Implies(c.rt(), z3.ForAll([x], Implies(sel(STEPS, x), And(sel(g(h, "sta"), x), sel(g(h, "cpl"), x), Not(sel(g(h, "fal"), x))))))))
            if "f" in self.P:
                out += [("reports-failure-iff-some-step-failed", c.rt() == (g(h, "fal") == EMPTY))]
            return out
        ar = [] if "a" in self.P else [("AssertionError", None)]
        self.exec = self.add(Contract("licant.solver:InverseRecursiveSolver.exec", {"self": SOLVER}, ret=BOOL, requires=e_req, ensures=e_ens, modifies=smods, raises=ar))

    def start_exit(self, eng, c):
        # a finite set of steps that is not empty has a member of the largest rank: the unfinished steps
        x = z3.Const("es_x", RefS)
        P = eng.ghost("rel")
        m = eng.fresh("last_unfinished", RefS)
        eng.assume(Or(z3.ForAll([x], Implies(sel(STEPS, x), sel(P, x)), patterns=[sel(STEPS, x)]),
                      And(sel(STEPS, m), Not(sel(P, m)), z3.ForAll([x], Implies(And(sel(STEPS, x), RANK(x) > RANK(m)), sel(P, x)), patterns=[sel(STEPS, x), RANK(x)]))))
        eng.prove(Implies(Not(z3.ForAll([x], Implies(sel(STEPS, x), sel(P, x)))), rem(m, P) == 0), "lemma:the-last-unfinished-step-is-ready")

    def quiet(self, h):
        return [("lock-free", Not(h.ghost("held")))] if "a" in self.P else []

    def stable_but_mine(self, o, h):
        x = z3.Const("sb_x", RefS)
        m = o.ghost("mine")
        grow = lambda n: ("grows:" + n, z3.ForAll([x], Implies(sel(o.ghost(n), x), sel(h.ghost(n), x)), patterns=[sel(o.ghost(n), x), sel(h.ghost(n), x)]))
        mineof = lambda h: And(sel(h.ghost("hold"), x), sel(h.ghost("who"), x) == o.ghost("me"))
        return [grow(n) for n in ("sta", "cpl", "fal", "rel")] + [("holds-only-this", z3.ForAll([x], Implies(x != m, mineof(o) == mineof(h)), patterns=[sel(h.ghost("hold"), x)]))]

    # ------------------------------------------------------------ loops
    def invariants(self, c):
        eng, h = c.eng, c.h
        v = eng.verifying
        g = h.ghost
        out = []
        x = z3.Const("li_x", RefS)
        if c.kind == "while":
            out += self.inv(h, null if v is self.release else None) + self.stable_but_mine(c.old, h)
            out.append(("lock-free", Not(g("held"))))
            if "a" in self.P:
                out.append(("holds-nothing", self.holds_nothing(h)))
            if "a" in self.P and v is self.release:
                out.append(("lazy", self.lazy(h)))
        rel_loop = c.kind == "for" and c.doneset is not None and tkey(c.elem) == tkey(RT)
        if c.kind == "for":
            for n, f in self.inv(h, g("mine")):
                if not (rel_loop and n in ("count-is-the-number-of-unfinished-dependencies", "ready-if-queued")):
                    out.append(("mid:" + n, f))
        if rel_loop:
            o = c.at_entry
            rel, Q, m = g("rel"), g("queue"), g("mine")
            dc = h.fld("DependableTargetRuntime", "depcount", x)
            r = rem(x, rel)
            dn = c.done(x)
            out += [("counts", z3.ForAll([x], Implies(sel(STEPS, x), dc == r - If(dn, 1, 0)), patterns=[dc])),
                    ("queued-ready", z3.ForAll([x], Implies(sel(Q, x), Or(r == 0, And(dn, r == 1))), patterns=[sel(Q, x)])),
                    ("ready-queued", z3.ForAll([x], Implies(And(dn, r == 1), sel(Q, x)), patterns=[sel(Q, x)])),
                    ("older-queued", z3.ForAll([x], Implies(sel(o.ghost("queue"), x), sel(Q, x)), patterns=[sel(Q, x)])),
                    ("waiting", z3.ForAll([x], Implies(And(isdep(m, x), Not(dn)), And(Not(sel(Q, x)), dc >= 1)), patterns=[isdep(m, x)])),
                    ("done-depend", z3.ForAll([x], Implies(dn, isdep(m, x)), patterns=[dn]))]
        if v is self.start:
            k = z3.Int("li_k")
            T = ti(h, "tasks")
            e = sel(h.larr(T, TASK), k)
            out.append(("all-listed", z3.ForAll([x], Implies(sel(g("uncancelled"), x), z3.Exists([k], And(0 <= k, k < h.llen(T), e == x))), patterns=[sel(g("uncancelled"), x)])))
            if c.idx is not None and c.src.array is None:
                out.append(("spawned", z3.ForAll([k], sel(g("spawned"), k) == And(0 <= k, k < c.idx), patterns=[sel(g("spawned"), k)])))
            elif c.idx is not None:
                out.append(("cancelled-so-far", z3.ForAll([x], Implies(sel(g("uncancelled"), x), z3.Exists([k], And(c.idx <= k, k < h.llen(T), e == x))), patterns=[sel(g("uncancelled"), x)])))
                out.append(("idle", self.idle(h)))
        return out


def make(P):
    return type("Exec_" + "".join(sorted(P)), (Exec,), {"P": frozenset(P)})


ASSUMPTIONS_ = ["actions do not touch the objects of the solver", "actions end (C04 says: the execution returns once the started actions have returned)",
                "the event loop switches between coroutines only where one of them really waits, and asyncio.Queue and asyncio.Lock behave as documented",
                "deadlock freedom and progress follow from the obligations by the argument in DESIGN.md (C04)"]
