"""C20: the command line runs the named action of the named target, or fails."""
from pyv.spec import *
from .common import *

CLI = "licant.cli"
NS = Ref("Namespace", True)
FREE = z3.Const("free_arguments", RefS)     # what argparse leaves as free arguments
has_attr = z3.Function("has_attribute", RefS, StrS, B)
attr_of = z3.Function("attribute_of", RefS, StrS, FnS)
is_method = z3.Function("is_bound_method", FnS, B)


def opaque_kw(eng):
    k = KwV({})
    k.rest = V(ANY, eng.fresh("kwargs", AnyS))
    return k


class S(Spec):
    schema = dict(core_schema)
    schema["Namespace"] = {"freeargs": List(STR), "debug": BOOL, "trace": BOOL, "quite": BOOL, "threads": STR, "printruntime": BOOL, "clang_toolchain": BOOL, "gcc_toolchain": BOOL}
    schema["ArgumentParser"] = {}
    ext_classes = ("Namespace", "ArgumentParser")
    globals = {CLI + ":default_target": Opt(STR), CLI + ":opts": Opt(NS), CLI + ":args": Opt(List(STR)), CLI + ":parser": Ref("ArgumentParser", True)}
    ext_values = {"sys.argv": lambda eng: V(List(STR), z3.Const("sys.argv", RefS))}
    # the action that was run: how many, of which target, which, with which arguments, its result, and whether it ended the program itself
    ghosts = {"runs": I, "run_target": RefS, "run_action": StrS, "run_len": I, "run_args": z3.ArraySort(I, StrS), "run_result": AnyS, "ended": B}

    def setup(self):
        CORE_ = CORE

        def invoke(eng, args, fv, node):
            """Target.invoke by its contract"""
            h = HeapView(eng, eng.heap)
            t, act = args["self"].z, eng.to_term(args["funcname"], STR)
            a = eng.force(args["args"])
            kw = args.get("kwargs")
            if not (isinstance(kw, KwV) and not kw.d) and not (isinstance(kw, V) and prune(kw.t).kind == "dict"):
                eng.prove(False, "no-keyword-arguments")
            eng.prove(eng.ghost("runs") == 0, "at-most-one-action")
            crit = args.get("critical")
            eng.prove(eng.truth(crit) if not isinstance(eng.truth(crit), bool) else z3.BoolVal(eng.truth(crit)), "a-missing-action-is-an-error")
            eng.prove(h.fld("Target", "core", t) != null, "target-has-a-core")
            eng.set_ghost("runs", eng.ghost("runs") + 1)
            eng.set_ghost("run_target", t)
            eng.set_ghost("run_action", act)
            if isinstance(a, Tup):
                a = eng.new_list(a.items, ("invoke-args",), STR)
            elif isinstance(prune(prune(a.t).args[0]), TVar):
                eng.unify(a.t, List(STR))
            eng.set_ghost("run_len", eng.list_len(a))
            eng.set_ghost("run_args", eng.list_arr(a))
            eng.set_ghost("ended", z3.BoolVal(False))
            if eng.choose():
                eng.set_ghost("ended", z3.BoolVal(True))
                raise PyRaise(["Exception", "SystemExit", "KeyboardInterrupt"][eng.choose() + eng.choose()], Con("error status"), "the action")
            r = eng.fresh("result", AnyS)
            eng.set_ghost("run_result", r)
            return V(ANY, r)
        self.add(Contract("licant.core:Target.invoke", {"self": T, "funcname": STR, "args": ANY, "critical": ANY, "kwargs": ANY}, apply=invoke))
        self.contracts["licant.core:Target.invoke"].params = {"self": T, "funcname": STR}
        self.add(error_contract(), canonical_path_contract())
        self.get = get_contract()
        self.get.exact_raises = ("SystemExit",)
        self.has = Contract("licant.core:Core.has", {"self": CORE, "tgt": STR}, ret=BOOL, requires=lambda c: wf_core(c.old, c.t("self")),
                            ensures=lambda c: [("answers-whether-a-lookup-succeeds", c.rt() == exists_(c.old, c.t("self"), c.t("tgt")))])
        self.add(self.get, self.has)
        self.hasaction = self.add(Contract("licant.core:Target.hasaction", {"self": T, "act": STR}, ret=BOOL,
                                           ensures=lambda c: [("is-an-action", c.rt() == self.is_action(c.old, c.t("self"), c.t("act")))]))
        self.add(Contract("licant.util:get_actions", {"target": T}, ret=ANY, assumed=True, optional=True))

        # ------------------------------------------------------------ which action
        def want(h, core, default, n, a, i):
            """(condition to run something, target, action, number of arguments, argument i)"""
            d = opt_dt(STR)
            nodef, dv = d[4](default), d[3](default)
            f0, f1 = sel(a, 0), sel(a, 1)
            t0 = lookup(h, core, f0)
            td = lookup(h, core, dv)
            routine = self.routine(t0)
            da = lambda t: h.fld("Target", "default_action", t)
            c_none = And(n == 0, Not(nodef), exists_(h, core, dv))
            known = exists_(h, core, f0)
            c_def = And(n >= 1, known, Or(n == 1, routine))
            c_act = And(n >= 2, known, Not(routine), self.is_action(h, t0, f1))
            c_dact = And(n >= 1, Not(known), Not(nodef), exists_(h, core, dv), self.is_action(h, td, f0))
            return (Or(c_none, c_def, c_act, c_dact),
                    If(Or(c_none, c_dact), td, t0),
                    If(c_none, da(td), If(c_def, da(t0), If(c_act, f1, f0))),
                    If(c_none, 0, If(c_act, n - 2, n - 1)),
                    If(c_act, sel(a, i + 2), sel(a, i + 1)))

        def req_of(core, lst):
            def req(c):
                h = c.old
                k = z3.Const("rq_k", StrS)
                cz = core(c)
                m = sel(h.dval(targets(h, cz), STR, T), k)
                acts = h.fld("Target", "__actions__", m)
                return wf_core(h, cz) + [("live", And(h.alloc(lst(c)), h.llen(lst(c)) >= 0, h.alloc(h.fld("Core", "runtime", cz)), h.fld("Core", "runtime", cz) != null)),
                                         ("nothing-run", And(h.ghost("runs") == 0, Not(h.ghost("ended")))),
                                         ("targets", z3.ForAll([k], Implies(has_exact(h, cz, k), And(h.fld("Target", "core", m) != null, acts != null, h.alloc(acts))), patterns=[m]))]
            return req

        def ran(c, core, lst, default):
            o, h = c.old, c.new
            i = z3.Int("rn_i")
            ok, t, act, n, ai = want(o, core, default, o.llen(lst), o.larr(lst, STR), i)
            return [("something-to-run", ok), ("one-action", h.ghost("runs") == 1), ("of-the-named-target", h.ghost("run_target") == t), ("the-named-action", h.ghost("run_action") == act),
                    ("arguments-unchanged", And(h.ghost("run_len") == n, z3.ForAll([i], Implies(And(0 <= i, i < n), sel(h.ghost("run_args"), i) == ai), patterns=[sel(h.ghost("run_args"), i)])))]

        def not_ran(c, core, lst, default):
            o = c.old
            ok = want(o, core, default, o.llen(lst), o.larr(lst, STR), z3.IntVal(0))[0]
            return And(c.new.ghost("runs") == 0, Not(ok))
        G = [("ghost", g) for g in self.ghosts]
        mods = lambda c: G + [("global", CLI + ".default_target", Opt(STR)), ("list", "new", STR), ("dict", None, STR, ANY)]
        acore, alist, adef = (lambda c: c.t("core")), (lambda c: c.t("args")), (lambda c: c.t("default", Opt(STR)))

        def failure(core, lst, default):
            def f(c):
                g = ran(c, core(c), lst(c), default(c))
                nr = not_ran(c, core(c), lst(c), default(c))
                return [("only-if-nothing-can-be-run-or-by-the-action", Or(nr, c.new.ghost("ended")))] + [("if-run:" + n, Or(nr, x)) for n, x in g]
            return f
        fl = failure(acore, alist, adef)
        exc = [("SystemExit", None, fl), ("Exception", None, lambda c: [("only-by-the-action", And(c.new.ghost("ended"), *[x for _, x in ran(c, c.t("core"), c.t("args"), c.t("default", Opt(STR)))]))]),
               ("KeyboardInterrupt", None, lambda c: [("only-by-the-action", c.new.ghost("ended"))] + ran(c, c.t("core"), c.t("args"), c.t("default", Opt(STR))))]
        self.inner = self.add(Contract(CLI + ":__cliexecute", {"args": List(STR), "default": Opt(STR), "core": CORE}, ret=ANY, requires=req_of(acore, alist), modifies=mods, raises=exc, optional=True,
                                       ensures=lambda c: ran(c, c.t("core"), c.t("args"), c.t("default", Opt(STR))) + [("its-result", And(c.rt(ANY) == c.new.ghost("run_result"), Not(c.new.ghost("ended"))))]))
        # ------------------------------------------------------------ the whole command line

        def ext_parse(eng, recv, args, kwargs, node):
            """argparse: the arguments that are no options are the free arguments, in order"""
            if eng.choose():
                raise PyRaise("SystemExit", Con(2))
            eng.prove(eng.to_term(args[0], List(STR)) == eng.fn_args["argv"].z, "parses-the-given-arguments")
            v = eng.alloc("Namespace", NS)
            eng.hwrite("f:Namespace.freeargs", List(STR), v.z, FREE)
            return v
        self.externals["ArgumentParser.parse_args"] = ext_parse
        self.externals["os.cpu_count"] = lambda eng, r, a, k, n: V(INT, eng.fresh("cpus", I))
        self.add(Contract("licant.cxx_make:set_default_toolchain", {"str": ANY}, assumed=True))
        self.contracts["licant.cxx_make:set_default_toolchain"].params = {}

        def int_of(eng, recv, args, kwargs, node):
            if eng.choose():
                raise PyRaise("ValueError", Con("no number"))
            return V(INT, eng.fresh("number", I))
        self.externals["builtins.int"] = int_of
        free = lambda c: FREE
        base_req = req_of(acore, free)

        def cli_req(c):
            h = c.old
            return base_req(c) + [("first-time", h.glob(CLI, "opts") == null), ("argv", h.alloc(c.t("argv")))]

        def cli_exc(c):
            g = ran(c, c.t("core"), FREE, c.t("default", Opt(STR)))
            failed = And(c.new.ghost("run_result") == any_false, Not(c.new.ghost("ended")))
            none = c.new.ghost("runs") == 0
            return [("only-if-nothing-can-be-run-or-it-failed", Or(none, c.new.ghost("ended"), failed))] + [("if-run:" + n, Or(none, x)) for n, x in g]
        self.cli = Contract(CLI + ":cliexecute", {"default": Opt(STR), "colorwrap": BOOL, "argv": List(STR), "core": CORE}, requires=cli_req, modifies=lambda c: mods(c) + [
            ("global", CLI + ".opts", Opt(NS)), ("global", CLI + ".args", Opt(List(STR))), ("field", "Namespace", "freeargs", "new")],
            ensures=lambda c: ran(c, c.t("core"), FREE, c.t("default", Opt(STR))) + [("failed-build-does-not-end-normally", And(c.new.ghost("run_result") != any_false, Not(c.new.ghost("ended"))))],
            raises=[("SystemExit", None, cli_exc), ("ValueError", None, lambda c: [("before-anything-is-run", Or(c.new.ghost("ended"), c.new.ghost("runs") == 0))]), ("Exception", None, lambda c: [("only-by-the-action", c.new.ghost("ended"))])], check_only=True)

        # ------------------------------------------------------------ Target.invoke itself
        CH = ["trace"]

        def call_fn(eng, f, args, kwargs, node):
            """the action: any function"""
            slf = eng.fn_args["self"]
            m = is_method(f.z)
            rest = args
            if eng.branch(m):
                pass
            else:
                if not args or not isinstance(args[0], V):
                    eng.prove(False, "gets-its-target")
                    raise PathEnd()
                eng.prove(args[0].z == slf.z, "gets-its-target")
                rest = args[1:]
            ok = len(rest) == 1 and isinstance(rest[0], Star) and rest[0].v.z.eq(eng.fn_args["args"].z)
            eng.prove(ok, "arguments-unchanged", "%r" % (rest,))
            eng.prove(eng.ghost("updated"), "needs-are-computed-before")
            eng.set_ghost("runs", eng.ghost("runs") + 1)
            eng.set_ghost("run_fn", f.z)
            if eng.choose():
                raise PyRaise(["Exception", "SystemExit"][eng.choose()], Con("error status"), "the action")
            r = eng.fresh("result", AnyS)
            eng.set_ghost("run_result", r)
            return V(ANY, r)

        def hook_getattr(eng, o, n, dflt):
            if isinstance(n, Con):
                return None
            nz = eng.to_term(n, STR)
            if eng.branch(has_attr(o.z, nz)):
                return V(FN, attr_of(o.z, nz))
            if dflt is None:
                raise PyRaise("AttributeError")
            return dflt
        self.hook_getattr = hook_getattr
        self.call_fn = call_fn
        self.hook_isinstance_fn = lambda eng, v, name: is_method(v.z) if name == "MethodType" else None

    def is_action(self, h, t, act):
        return sel(h.setc(h.fld("Target", "__actions__", t), STR), act)

    def routine(self, t):
        subs = [s for s in self.eng_subs()]
        return Or(*[cls_of(t) == s for s in subs]) if subs else z3.BoolVal(False)

    def eng_subs(self):
        names = sorted(self.prog.classes)
        return [names.index(s) for s in names if s == "Routine" or self.inherits(s, "Routine")]

    def inherits(self, s, base):
        k = self.prog.classes.get(s)
        return any(b == base or self.inherits(b, base) for b in (k.bases if k else ()))


class SI(S):
    """Target.invoke"""
    ghosts = dict(S.ghosts, updated=B, run_fn=FnS)

    def setup(self):
        S.setup(self)
        del self.contracts["licant.core:Target.invoke"]

        def upd(eng, args, fv, node):
            eng.set_ghost("updated", z3.BoolVal(True))
            return Con(None)
        self.add(Contract("licant.core:Core.update_update_needity", {"self": CORE}, apply=upd))
        s = lambda c: c.t("self")
        fn = lambda c: c.t("funcname")
        self.invoke = Contract("licant.core:Target.invoke", {"self": T, "funcname": STR, "args": List(STR), "critical": BOOL, "kwargs": lambda eng: KwV({})}, ret=ANY,
                               requires=lambda c: [("core", And(c.old.fld("Target", "core", s(c)) != null, c.old.alloc(c.old.fld("Target", "core", s(c))), c.old.fld("Core", "runtime", c.old.fld("Target", "core", s(c))) != null)),
                                                   ("nothing-run", And(c.old.ghost("runs") == 0, Not(c.old.ghost("updated")), c.old.alloc(c.t("args"))))],
                               modifies=lambda c: [("ghost", g) for g in self.ghosts],
                               ensures=lambda c: [("runs-the-action-once", If(has_attr(s(c), fn(c)), And(c.new.ghost("runs") == 1, c.new.ghost("run_fn") == attr_of(s(c), fn(c)), c.rt(ANY) == c.new.ghost("run_result")),
                                                                             And(c.new.ghost("runs") == 0, Not(c.t("critical")))))],
                               raises=[("WrongAction", lambda c: And(c.t("critical"), Not(has_attr(s(c), fn(c))))),
                                       ("SystemExit", None, lambda c: [("by-the-action", c.new.ghost("runs") == 1)]), ("Exception", None, lambda c: [("by-the-action", c.new.ghost("runs") == 1)])], check_only=True)


SLOW = ()
ASSUMPTIONS = ["argparse leaves the arguments that are no options, in order, as the free arguments", "the options are parsed once per run of the program",
               "a target has the actions it declares (its __actions__) as attributes"]
TRUSTED = ["argparse", "licant.cxx_make.set_default_toolchain"]


def units(prog):
    s, si = S(prog), SI(prog)
    return [(s, [s.get, s.has, s.hasaction, s.inner, s.cli]), (si, [si.invoke])]
