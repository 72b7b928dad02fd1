"""C07: exactly the targets that need it are updated."""
import ast
from pyv.interp import Poison
from .common import *
from .c08 import deplist_contract

COND = z3.Function("own_condition_holds", RefS, B)          # what the update condition of a target answers during the evaluation
NEED = z3.Function("needs_update", RefS, B)                 # its own condition holds or that of some target it depends on
DEPT = z3.Function("dependency_of", RefS, I, RefS)
NDEP = z3.Function("number_of_dependencies", RefS, I)
UPD = z3.Function("update_action_of", RefS, FnS)
is_method = z3.Function("is_bound_method", FnS, B)
UT = Ref("UpdatableTarget")
ON = opt_dt(BOOL)
AI = z3.ArraySort(RefS, I)
CORE_IMPL = "licant.core"


def upd_schema():
    s = {k: dict(v) for k, v in core_schema.items()}
    return s


def names_of_loops(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                    out.add(m.id)
    return out


class S(Spec):
    """marking"""
    schema = upd_schema()
    # how often the update action of a target was called
    ghosts = {"updates": AI}

    axioms = [(lambda t, j: z3.ForAll([t], NEED(t) == Or(COND(t), z3.Exists([j], And(0 <= j, j < NDEP(t), NEED(DEPT(t, j))))), patterns=[NEED(t)]))(z3.Const("ax_t", RefS), z3.Int("ax_j"))]

    def updatable(self, eng, t):
        return eng.isinst(t, "UpdatableTarget")

    def marks(self, h, t):
        return h.fld("Target", "need_update", t)

    def known(self, eng, h, core, o=None):
        """a mark that is set is right"""
        o = o or h
        n = z3.Const("kn_n", StrS)
        t = sel(o.dval(targets(o, core), STR, T), n)
        m = self.marks(h, t)
        return z3.ForAll([n], Implies(And(has_exact(o, core, n), self.updatable(eng, t), Not(ON[4](m))), ON[3](m) == NEED(t)), patterns=[t])

    def graph(self, eng, h, core):
        """the definitions, and what is assumed about the registered targets"""
        t, n = z3.Const("gr_t", RefS), z3.Const("gr_n", StrS)
        i, j = z3.Ints("gr_i gr_j")
        name = lambda t, i: sel(h.larr(deps_of(h, t), STR), i)
        m = sel(h.dval(targets(h, core), STR, T), n)
        size = lambda t: h.llen(deps_of(h, t))
        return [("definition-number", z3.ForAll([n], Implies(has_exact(h, core, n), NDEP(m) == size(m)), patterns=[m])),
                ("definition-dependency", z3.ForAll([n, i], Implies(has_exact(h, core, n), DEPT(m, i) == lookup(h, core, name(m, i))), patterns=[DEPT(m, i)])),
                ("registered-here", z3.ForAll([n], Implies(has_exact(h, core, n), And(h.fld("Target", "core", m) == core, h.fld("Target", "tgt", m) == n)), patterns=[m])),
                ("dependencies-are-updatable", z3.ForAll([n, i], Implies(And(has_exact(h, core, n), self.updatable(eng, m), 0 <= i, i < size(m), exists_(h, core, name(m, i))), self.updatable(eng, DEPT(m, i))), patterns=[DEPT(m, i)]))]

    def here(self, c, t, upd=True):
        """a registered updatable target"""
        h = c.old
        n = z3.Const("he_n", StrS)
        core = h.fld("Target", "core", t)
        return (wf_core(h, core) + self.graph(c.eng, h, core)) + [("registered", And(has_exact(h, core, h.fld("Target", "tgt", t)), sel(h.dval(targets(h, core), STR, T), h.fld("Target", "tgt", t)) == t)), ("live", And(t != null, h.alloc(t))),
                                                                ("updatable", self.updatable(c.eng, t))][:None if upd else 2]

    def setup(self):
        self.add(canonical_path_contract(), error_contract(), get_contract())
        S_ = lambda c: c.t("self")
        dl = deplist_contract()
        base, base_req = dl.ensures, dl.requires

        def dl_ens(c):
            h, me, i = c.new, S_(c), z3.Int("de_i")
            e = sel(h.larr(c.rt(), T), i)
            return base(c) + [("the-dependencies", z3.ForAll([i], Implies(And(0 <= i, i < NDEP(me)), e == DEPT(me, i)), patterns=[e])), ("number", h.llen(c.rt()) == NDEP(me))]
        dl.requires = lambda c: self.here(c, S_(c), False)
        dl.ensures = dl_ens
        self.deplist = self.add(dl)
        ended = [("SystemExit", None)]
        new = lambda c: [("list", "new", T)]
        self.rec = self.add(Contract("licant.core:UpdatableTarget.recursive_update_needed_request", {"self": UT}, ret=BOOL, requires=lambda c: self.here(c, S_(c)) + [("marks-so-far", self.known(c.eng, c.old, c.old.fld("Target", "core", S_(c))))],
                                     modifies=new, raises=ended, ensures=lambda c: [("only-if-needed", Implies(c.rt(), NEED(S_(c)))), ("if-needed", Implies(NEED(S_(c)), c.rt()))]))
        self.virtuals[("Target", "recursive_update_needed_request")] = lambda eng, o, args, kwargs, node, func: eng.call_func(FuncV(eng.prog.classes["UpdatableTarget"].methods["recursive_update_needed_request"]), [V(UT, o.z)], {}, node)
        one = lambda c: [("field", "Target", "need_update", [S_(c)]), ("list", "new", T)]
        self.ev = self.add(Contract("licant.core:UpdatableTarget.evaluate_update_needity", {"self": UT}, requires=lambda c: self.here(c, S_(c)) + [("marks-so-far", self.known(c.eng, c.old, c.old.fld("Target", "core", S_(c))))], modifies=one, raises=ended,
                                    ensures=lambda c: [("marked-exactly-if-needed", self.marks(c.new, S_(c)) == ON[2](NEED(S_(c))))]))
        self.nul = self.add(Contract("licant.core:UpdatableTarget.nullify_update_needity", {"self": UT}, modifies=lambda c: [("field", "Target", "need_update", [S_(c)])],
                                     ensures=lambda c: [("mark-cleared", ON[4](self.marks(c.new, S_(c))))]))
        n = z3.Const("ma_n", StrS)

        def req_core(c):
            h = c.old
            core = S_(c)
            m = sel(h.dval(targets(h, core), STR, T), n)
            rt = h.fld("Core", "runtime", core)
            return wf_core(h, core) + self.graph(c.eng, h, core) + [("runtime", And(rt != null, h.alloc(rt)))]

        def all_(c, f, h=None):
            core = S_(c)
            o = c.old
            m = sel(o.dval(targets(o, core), STR, T), n)
            return z3.ForAll([n], Implies(And(has_exact(o, core, n), self.updatable(c.eng, m)), f(self.marks(c.new, m), m)), patterns=[m])
        self.all_ = all_
        cmods = lambda c: [("field", "Target", "need_update"), ("list", "new", T)]
        self.cn = self.add(Contract("licant.core:Core.nullify_update_needity", {"self": CORE}, requires=req_core, modifies=cmods, ensures=lambda c: [("all-marks-cleared", all_(c, lambda m, t: ON[4](m))), ("cleared", True)]))

        self.ce = self.add(Contract("licant.core:Core.evaluate_update_needity", {"self": CORE}, requires=lambda c: req_core(c) + [("marks-so-far", self.known(c.eng, c.old, S_(c)))], modifies=cmods, raises=ended,
                                    ensures=lambda c: [("marked-exactly-if-needed", all_(c, lambda m, t: m == ON[2](NEED(t))))]))
        self.cu = self.add(Contract("licant.core:Core.update_update_needity", {"self": CORE}, requires=req_core, modifies=cmods, raises=ended, ensures=lambda c: [("marked-exactly-if-needed", all_(c, lambda m, t: m == ON[2](NEED(t))))]))
        # ---- the update itself
        upd = lambda eng, o: V(FN, UPD(o.z))
        self.attr_hooks[("UpdatableTarget", "update")] = upd
        SO = lambda c: self.marks(c.old, S_(c))
        cnt = lambda h, t: sel(h.ghost("updates"), t)

        def uin(c):
            t = S_(c)
            x = z3.Const("ui_x", RefS)
            return [("marked", Not(ON[4](SO(c)))), ("called-exactly-if-marked", cnt(c.new, t) == cnt(c.old, t) + If(ON[3](SO(c)), 1, 0)),
                    ("no-other-update", z3.ForAll([x], Implies(x != t, cnt(c.new, x) == cnt(c.old, x)))),
                    ("its-result", If(ON[3](SO(c)), c.rt(ANY) == RES(t), c.rt(ANY) == c.eng.to_any(Con(True))))]
        RES = z3.Function("result_of_update", RefS, AnyS)
        self.RES = RES
        exc = lambda c: [("only-by-the-update", Or(And(ON[4](SO(c)), c.new.ghost("updates") == c.old.ghost("updates")), And(ON[3](SO(c)), cnt(c.new, S_(c)) == cnt(c.old, S_(c)) + 1)))]
        self.uin = Contract("licant.core:UpdatableTarget.update_if_need", {"self": UT}, ret=ANY, modifies=lambda c: [("ghost", "updates")], ensures=uin, raises=[("Exception", None, exc)], check_only=True)

    def call_fn(self, eng, f, args, kwargs, node):
        h = HeapView(eng, eng.heap)
        me = eng.fn_args["self"].z
        if eng.verifying is self.uin:
            eng.prove(f.z == UPD(me), "its-own-update-action")
            m = is_method(f.z)
            if eng.branch(m):
                eng.prove(not args and not kwargs, "a-method-is-called-without-arguments")
            else:
                eng.prove(len(args) == 1 and not kwargs and isinstance(args[0], V) and z3.is_true(z3.simplify(args[0].z == me)), "for-the-target")
            eng.set_ghost("updates", z3.Store(eng.ghost("updates"), me, sel(eng.ghost("updates"), me) + 1))
            if eng.choose():
                raise PyRaise("Exception", None, "the update action")
            return V(ANY, self.RES(me))
        eng.prove(f.z == h.fld("Target", "update_if", me), "its-own-condition")
        eng.prove(len(args) == 1 and not kwargs and isinstance(args[0], V) and z3.is_true(z3.simplify(args[0].z == me)), "for-the-target")
        return V(BOOL, COND(me))

    def hook_isinstance_fn(self, eng, v, name):
        return is_method(v.z) if name == "MethodType" else None

    def invariants(self, c):
        eng = c.eng
        out = []
        if eng.verifying is self.rec and c.idx is not None:
            me = eng.fn_args["self"].z
            i = z3.Int("iv_i")
            out.append(("none-needs-it-yet", z3.ForAll([i], Implies(And(0 <= i, i < c.idx), Not(NEED(DEPT(me, i)))), patterns=[DEPT(me, i)])))
        if eng.verifying in (self.cn, self.ce):
            core = eng.fn_args["self"].z
            o = c.old
            n = z3.Const("iv_n", StrS)
            m = sel(o.dval(targets(o, core), STR, T), n)
            mark = self.marks(c.h, m)
            if c.kind == "bag" or c.done is not None:
                out.append(("done", z3.ForAll([n], Implies(And(has_exact(o, core, n), self.updatable(eng, m), c.done(n)), ON[4](mark) if eng.verifying is self.cn else mark == ON[2](NEED(m))), patterns=[m])))
            if eng.verifying is self.ce:
                out.append(("known", self.known(eng, c.h, core, o)))
        return out


DT = Ref("DependableTarget", True)
CLO = z3.Const("closure_names", z3.ArraySort(StrS, B))        # the names in the dependency closure of the target at hand (C06)
TCLO = z3.Function("in_closure", RefS, B)                     # the registered targets they stand for


def is_opt_step(t):
    t = prune(t)
    if isinstance(t, TVar):
        return False
    if t.kind == "opt":
        return is_opt_step(t.args[0])
    return t.kind == "ref" and t.args[0] == "DependableTarget"


class R(S):
    """the recursive update"""
    ghosts = dict(S.ghosts, pos=AI, ran=B)
    schema = dict(upd_schema(), DependableTarget={"name": STR, "deps": Set(STR), "what_to_do": FN, "args": ANY, "kwargs": ANY, "_is_done": BOOL, "$owner": T},
                  InverseRecursiveSolver={"$steps": List(DT)})
    ext_classes = {}

    def setup(self):
        S.setup(self)
        for k in ("licant.core:UpdatableTarget.recursive_update_needed_request", "licant.core:Target.get_deplist"):
            self.contracts.pop(k, None)
        x = z3.Const("ru_x", RefS)
        n = z3.Const("ru_n", StrS)
        i, j = z3.Ints("ru_i ru_j")
        S_ = lambda c: c.t("self")
        inl = lambda h, l, v: in_list(h, l, v)

        # the closure, by the contract C06 establishes
        def clo_ens(c):
            h, core, r = c.new, S_(c), c.rt()
            e = sel(h.larr(r, STR), i)
            return [("members", z3.ForAll([i], Implies(And(0 <= i, i < h.llen(r)), And(sel(CLO, e), exists_(c.old, core, e))), patterns=[e])),
                    ("all", z3.ForAll([n], Implies(sel(CLO, n), inl(h, r, n)), patterns=[sel(CLO, n)]))]
        self.clo = Contract("licant.core:Core.depends_as_set", {"self": CORE, "tgt": T, "incroot": BOOL}, ret=List(STR),
                            requires=lambda c: [("with-the-target", c.t("incroot"))], ensures=clo_ens,
                            modifies=lambda c: [("list", "new", STR)], raises=[("SystemExit", None)], assumed=True, doc="proved for C06")
        self.add(self.clo)
        self.called = []

        def v_uin(eng, o, args, kwargs, node, func):
            eng.prove(not args and not kwargs, "update-if-need-without-arguments")
            r = eng.fresh("step_result", AnyS)
            self.called.append((o.z, r))
            if eng.choose():
                raise PyRaise("Exception", None, "the update action")
            return V(ANY, r)
        self.virtuals[("Target", "update_if_need")] = v_uin

        def new_step(eng, args, kwargs, node):
            names = ["name", "deps", "what_to_do", "args", "kwargs"]
            a = dict(zip(names, args))
            a.update(kwargs)
            h = HeapView(eng, eng.heap)
            f = a["what_to_do"]
            pos = eng.iter_source(a["args"]).items if "args" in a else []
            if pos is None:
                raise Unsupported("arguments of a step")
            # the step is run later, when the variables of the function that created it have moved on
            saved = []
            for e in self.closure_envs(f):
                saved.append((e, dict(e.vars)))
                for v in names_of_loops(e.func.node) & set(e.vars):
                    old = e.vars[v]
                    if isinstance(old, V):
                        e.vars[v] = V(old.t, eng.fresh("later_" + v, old.z.sort()))
                    elif not isinstance(old, FuncV):
                        e.vars[v] = Poison()
            self.called = []
            exc = None
            res = None
            try:
                res = eng.call(f, list(pos), {}, node)
            except PyRaise as p:
                exc = p
            finally:
                for e, vs in saved:
                    e.vars.clear()
                    e.vars.update(vs)
            eng.prove(len(self.called) == 1, "one-update-per-step", "%d" % len(self.called))
            if len(self.called) != 1:
                raise PathEnd()
            owner, r = self.called[0]
            if exc is None:
                eng.prove(eng.to_any(res) == r, "answers-what-the-update-answered")
            else:
                raise PathEnd()
            o = eng.alloc("DependableTarget", DT)
            eng.hwrite("f:DependableTarget.name", STR, o.z, eng.to_term(a["name"], STR))
            d = eng.to_set(a["deps"], node)
            eng.hwrite("f:DependableTarget.deps", Set(STR), o.z, eng.to_term(d, Set(STR)))
            eng.hwrite("f:DependableTarget.$owner", T, o.z, owner)
            ds = eng.set_content(d)
            h = HeapView(eng, eng.heap)
            core = h.fld("Target", "core", eng.fn_args["self"].z)
            tn = lambda t: h.fld("Target", "tgt", t)
            eng.prove(a is not None and eng.to_term(a["name"], STR) == tn(owner), "named-after-its-target")
            nm = lambda k: tn(lookup(h, core, sel(h.larr(deps_of(h, owner), STR), k)))
            eng.prove(z3.ForAll([j], Implies(And(0 <= j, j < h.llen(deps_of(h, owner))), sel(ds, nm(j))), patterns=[sel(h.larr(deps_of(h, owner), STR), j)]), "depends-on-the-steps-of-all-its-dependencies")
            eng.prove(z3.ForAll([n], Implies(sel(ds, n), z3.Exists([j], And(0 <= j, j < h.llen(deps_of(h, owner)), n == nm(j)))), patterns=[sel(ds, n)]), "depends-on-nothing-else")
            return o
        self.constructors["DependableTarget"] = new_step
        for a in ("name", "deps", "what_to_do", "args", "kwargs", "$owner"):
            def keep(eng, o, v, a=a):
                eng.prove(False, "a-step-stays-as-created")
            self.setattr_hooks[("DependableTarget", a)] = keep

        own = lambda h, l, k: h.fld("DependableTarget", "$owner", sel(h.larr(l, DT), k))
        self.own = own
        OKF = z3.Const("execution_succeeded", B)
        self.OKF = OKF

        def new_solver(eng, args, kwargs, node):
            names = ["targets", "count_of_threads", "trace"]
            a = dict(zip(names, args))
            a.update(kwargs)
            h = HeapView(eng, eng.heap)
            l = eng.to_term(a["targets"], List(DT))
            e = sel(h.larr(l, DT), i)
            core = h.fld("Target", "core", eng.fn_args["self"].z)
            eng.prove(z3.ForAll([i], Implies(And(0 <= i, i < h.llen(l)), And(e != null, TCLO(own(h, l, i)))), patterns=[e]), "every-step-belongs-to-a-target-of-the-closure")
            eng.prove(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < h.llen(l)), own(h, l, i) != own(h, l, j))), "no-target-has-two-steps")
            eng.prove(z3.ForAll([x], Implies(TCLO(x), z3.Exists([i], And(0 <= i, i < h.llen(l), own(h, l, i) == x))), patterns=[TCLO(x)]), "every-target-of-the-closure-has-a-step")
            o = eng.alloc("InverseRecursiveSolver", Ref("InverseRecursiveSolver", True))
            eng.hwrite("f:InverseRecursiveSolver.$steps", List(DT), o.z, l)
            if eng.choose():
                raise PyRaise("Exception", None, "the dependency graph was rejected")
            return o
        self.constructors["InverseRecursiveSolver"] = new_solver

        def run(eng, args, fv, node):
            eng.prove(Not(eng.ghost("ran")), "executed-once")
            eng.set_ghost("ran", z3.BoolVal(True))
            h = HeapView(eng, eng.heap)
            l = h.fld("InverseRecursiveSolver", "$steps", eng.to_term(args["self"], Ref("InverseRecursiveSolver", True)))
            done = lambda d: HeapView(eng, eng.heap).fld("DependableTarget", "_is_done", d)
            eng.havoc(Contract("x", {}, modifies=lambda c: [("field", "DependableTarget", "_is_done")]), CallCtx(eng, {}, h))
            h = HeapView(eng, eng.heap)
            e = sel(h.larr(l, DT), i)
            eng.assume(Implies(OKF, z3.ForAll([i], Implies(And(0 <= i, i < h.llen(l)), done(e)), patterns=[e])))
            return V(BOOL, OKF)
        self.add(Contract("licant.solver:InverseRecursiveSolver.exec", {"self": Ref("InverseRecursiveSolver", True)}, ret=BOOL, apply=run, doc="C01-C04"))

        def req(c):
            h, t = c.old, S_(c)
            core = h.fld("Target", "core", t)
            tn = h.fld("Target", "tgt", t)
            rt = h.fld("Core", "runtime", core)
            return self.here(c, t) + [("own-name", sel(CLO, tn)), ("definition", z3.ForAll([n], Implies(And(sel(CLO, n), exists_(h, core, n)), TCLO(lookup(h, core, n))), patterns=[sel(CLO, n)])),
                                      ("definition-rev", z3.ForAll([x], Implies(TCLO(x), z3.Exists([n], And(sel(CLO, n), exists_(h, core, n), lookup(h, core, n) == x))), patterns=[TCLO(x)])),
                                      ("runtime", And(rt != null, h.alloc(rt))), ("nothing-run", Not(c.old.ghost("ran")))]
        exc = [("SystemExit", None), ("Exception", None, lambda c: [("before-anything-is-run", Not(c.new.ghost("ran")))])]
        mods = lambda c: [("ghost", "ran"), ("ghost", "pos"), ("field", "DependableTarget", "_is_done"), ("list", "new", STR), ("list", "new", T), ("list", "new", DT), ("set", "new", STR), ("set", "new", T)]
        self.ru = Contract("licant.core:UpdatableTarget.recurse_update", {"self": UT, "threads": ANY}, ret=ANY, requires=req, modifies=mods, raises=exc,
                           ensures=lambda c: [("all-steps-were-executed", c.new.ghost("ran")), ("answers-whether-it-succeeded", c.rt(ANY) == c.eng.to_any(V(BOOL, OKF)))], check_only=True)

    def on_append(self, eng, l, x):
        """where the step of a target stands in the list"""
        if isinstance(x, V) and is_opt_step(x.t):
            h = HeapView(eng, eng.heap)
            eng.set_ghost("pos", z3.Store(eng.ghost("pos"), h.fld("DependableTarget", "$owner", x.z), eng.list_len(l)))

    def closure_envs(self, f):
        out = []
        todo = [f]
        while todo:
            v = todo.pop()
            if isinstance(v, PartialV):
                todo += [v.f] + [a for a in v.args] + list(v.kwargs.values())
            elif isinstance(v, FuncV) and v.env is not None:
                e = v.env
                while e is not None:
                    if getattr(e, "func", None) is not None and e not in out:
                        out.append(e)
                    e = e.parent
        return out

    def invariants(self, c):
        eng = c.eng
        if eng.verifying is not self.ru:
            return S.invariants(self, c)
        h = c.h
        out = []
        x = z3.Const("rl_x", RefS)
        i, j = z3.Ints("rl_i rl_j")
        lists = [v.z for _, v in c.of_type("list") if is_opt_step(prune(v.t).args[0])]
        cur = [v.z for _, v in c.of_type("opt", "ref") if is_opt_step(v.t)]
        for k, l in enumerate(lists):
            e = sel(h.larr(l, DT), i)
            f = sel(h.larr(l, DT), j)
            own = lambda z: h.fld("DependableTarget", "$owner", z)
            P = lambda x: sel(h.ghost("pos"), x)
            if c.kind == "for" and c.done is not None:
                out += [("owners-done:%d" % k, z3.ForAll([i], Implies(And(0 <= i, i < h.llen(l)), And(e != null, h.alloc(e), c.done(own(e)))), patterns=[e])),
                        ("owners-differ:%d" % k, z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < h.llen(l)), own(e) != own(f)), patterns=[z3.MultiPattern(e, f)])),
                        ("done-have-a-step:%d" % k, z3.ForAll([x], Implies(c.done(x), And(0 <= P(x), P(x) < h.llen(l), own(sel(h.larr(l, DT), P(x))) == x)), patterns=[c.done(x)]))]
                me = eng.fn_args["self"].z
                tn = lambda t: c.old.fld("Target", "tgt", t)
                for m, z in enumerate(cur):
                    out.append(("own-step:%d:%d" % (k, m), Or(And(z == null, z3.ForAll([x], Implies(c.done(x), tn(x) != tn(me)), patterns=[c.done(x)])), And(z != null, c.done(own(z)), sel(h.larr(l, DT), P(own(z))) == z))))
        return out


class D(S):
    """directories, routines, the steps themselves and the callers of the recursive update"""
    ghosts = dict(S.ghosts)
    schema = dict(R.schema, Routine={"func": FN, "args": List(ANY)})

    def setup(self):
        S.setup(self)
        S_ = lambda c: c.t("self")
        t = "self"
        n = z3.Const("dd_n", StrS)
        cnt = lambda h, x: sel(h.ghost("updates"), x)
        DC = z3.Function("directory_needs_update", RefS, B)
        self.virtuals[("DirectoryTarget", "internal_update_if")] = lambda eng, o, a, k, node, func: V(BOOL, DC(o.z))
        x = z3.Const("dd_x", RefS)
        RES = z3.Function("result_of_update", RefS, AnyS)
        self.dir = Contract("licant.make:DirectoryTarget.update_if_need", {"self": Ref("DirectoryTarget")}, ret=ANY, modifies=lambda c: [("ghost", "updates")],
                            ensures=lambda c: [("called-exactly-if-its-own-condition-holds", cnt(c.new, S_(c)) == cnt(c.old, S_(c)) + If(DC(S_(c)), 1, 0)),
                                               ("no-other-update", z3.ForAll([x], Implies(x != S_(c), cnt(c.new, x) == cnt(c.old, x)))),
                                               ("its-result", c.rt(ANY) == If(DC(S_(c)), RES(S_(c)), c.eng.to_any(Con(True))))],
                            raises=[("Exception", None, lambda c: [("only-by-the-update", And(DC(S_(c)), cnt(c.new, S_(c)) == cnt(c.old, S_(c)) + 1))])], check_only=True)
        self.rout = Contract("licant.core:Routine.update", {"self": Ref("Routine", True)}, ret=ANY, modifies=lambda c: [("ghost", "updates")],
                             requires=lambda c: [("live", c.old.alloc(c.old.fld("Routine", "args", S_(c))))],
                             ensures=lambda c: [("function-called-once", cnt(c.new, S_(c)) == cnt(c.old, S_(c)) + 1), ("its-result", c.rt(ANY) == RES(S_(c)))],
                             raises=[("Exception", None)], check_only=True)
        F = ["name", "what_to_do", "args", "kwargs"]
        self.step = Contract("licant.solver:DependableTarget.__init__", {"self": DT, "name": STR, "deps": List(STR), "what_to_do": FN, "args": ANY, "kwargs": ANY},
                             modifies=lambda c: [("field", "DependableTarget", a, [S_(c)]) for a in F + ["deps", "_is_done"]] + [("set", "new", STR)],
                             requires=lambda c: [("live", c.old.alloc(c.t("deps")))],
                             ensures=lambda c: [("keeps-" + a, c.new.fld("DependableTarget", a, S_(c)) == c.t(a)) for a in F] + [
                                 ("keeps-deps", z3.ForAll([n], sel(c.new.setc(c.new.fld("DependableTarget", "deps", S_(c)), STR), n) == in_list(c.old, c.t("deps"), n))),
                                 ("not-done-yet", Not(c.new.fld("DependableTarget", "_is_done", S_(c))))], check_only=True)
        RR = z3.Function("result_of_recursive_update", RefS, AnyS)

        def rec(eng, o, args, kwargs, node, func):
            eng.prove(Not(sel(eng.ghost("updates"), o.z) > 0), "updated-recursively-once")
            eng.set_ghost("updates", z3.Store(eng.ghost("updates"), o.z, z3.IntVal(1)))
            return V(ANY, RR(o.z))
        self.virtuals[("Target", "recurse_update")] = rec
        top = lambda key, cls, extra={}: Contract(key, dict({"self": Ref(cls)}, **extra), ret=ANY, modifies=lambda c: [("ghost", "updates"), ("field", "Routine", "args", [S_(c)]), ("list", "new", ANY)],
                                                  requires=lambda c: [("nothing-updated", cnt(c.old, S_(c)) == 0)] + ([("core", And(c.old.fld("Target", "core", S_(c)) != null, c.old.fld("Core", "runtime", c.old.fld("Target", "core", S_(c))) != null))]),
                                                  ensures=lambda c: [("is-the-recursive-update", And(cnt(c.new, S_(c)) == 1, c.rt(ANY) == RR(S_(c))))], check_only=True)
        self.tops = [top("licant.make:MakeFileTarget.makefile", "MakeFileTarget"), top("licant.core:UpdatableTarget.recurse_update_get_args", "UpdatableTarget")]

    def call_fn(self, eng, f, args, kwargs, node):
        me = eng.fn_args["self"].z
        h = HeapView(eng, eng.heap)
        if eng.verifying is self.rout:
            eng.prove(f.z == h.fld("Routine", "func", me), "its-own-function")
            eng.prove(len(args) == 1 and isinstance(args[0], Star) and z3.is_true(z3.simplify(args[0].v.z == h.fld("Routine", "args", me))) and not kwargs, "with-its-arguments")
        elif eng.verifying is self.dir:
            eng.prove(f.z == UPD(me), "its-own-update-action")
            eng.prove(not args and not kwargs, "a-method-is-called-without-arguments")
        else:
            raise Unsupported("call")
        eng.set_ghost("updates", z3.Store(eng.ghost("updates"), me, sel(eng.ghost("updates"), me) + 1))
        if eng.choose():
            raise PyRaise("Exception", None, "the update action")
        return V(ANY, self.RES(me))


SLOW = ()
ASSUMPTIONS = ["targets an updatable target depends on are updatable, too", "the update condition of a target answers the same while the marks are evaluated", "the dependencies are acyclic (else the recursion does not end; such graphs are rejected by C05)"]
TRUSTED = []


def units(prog):
    s = S(prog)
    r = R(prog)
    d = D(prog)
    from .c20 import SI
    si = SI(prog)
    return [(d, [d.dir, d.rout, d.step] + d.tops), (si, [si.invoke]), (r, [r.ru]), (s, [s.deplist, s.rec, s.ev, s.nul, s.cn, s.ce, s.cu, s.uin])]
