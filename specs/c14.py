"""C14: the module registry is a map (module, implementation) -> module."""
from pyv.spec import *

VM = Ref("VariantModule")
MODS = ("str", "ref")


class S(Spec):
    schema = {
        "Module": {"name": STR, "impl": STR, "script": ANY, "stack": ANY, "opts": ANY},
        "VariantModule": {"impls": Dict(STR, Ref("Module"))},
        "ModuleLibrary": {"modules": Dict(STR, VM), "defimpls": Dict(STR, STR)},
        "ScriptQueue": {"stack": List(STR)},
    }
    globals = {
        "licant.modules:mlibrary": Ref("ModuleLibrary", True),
        "licant.scripter:scriptq": Ref("ScriptQueue", True),
    }

    # ---- the abstract state of a registry in a heap
    def mods(self, h, lib):
        return h.fld("ModuleLibrary", "modules", lib)

    def has_mod(self, h, lib, n):
        return sel(h.ddom(self.mods(h, lib), STR, VM), n)

    def variant(self, h, lib, n):
        return sel(h.dval(self.mods(h, lib), STR, VM), n)

    def impls(self, h, lib, n):
        return h.fld("VariantModule", "impls", self.variant(h, lib, n))

    def has(self, h, lib, n, i):
        return And(self.has_mod(h, lib, n), sel(h.ddom(self.impls(h, lib, n), STR, Ref("Module")), i))

    def impl(self, h, lib, n, i):
        return sel(h.dval(self.impls(h, lib, n), STR, Ref("Module")), i)

    def hasdef(self, h, lib, n):
        return sel(h.ddom(h.fld("ModuleLibrary", "defimpls", lib), STR, STR), n)

    def defimpl(self, h, lib, n):
        return sel(h.dval(h.fld("ModuleLibrary", "defimpls", lib), STR, STR), n)

    def wf(self, h, lib):
        n, m = z3.Consts("wf_n wf_m", StrS)
        v, w = self.variant(h, lib, n), self.variant(h, lib, m)
        return [
            ("wf-alloc", And(h.alloc(self.mods(h, lib)), self.mods(h, lib) != null, h.alloc(h.fld("ModuleLibrary", "defimpls", lib)))),
            ("wf-variants", z3.ForAll([n], Implies(self.has_mod(h, lib, n), And(h.alloc(v), v != null, h.alloc(self.impls(h, lib, n)), self.impls(h, lib, n) != null,
                                                                                self.impls(h, lib, n) != self.mods(h, lib))), patterns=[v])),
            ("wf-separate", z3.ForAll([n, m], Implies(And(self.has_mod(h, lib, n), self.has_mod(h, lib, m), n != m),
                                                      And(v != w, self.impls(h, lib, n) != self.impls(h, lib, m))), patterns=[z3.MultiPattern(v, w)])),
        ]

    def same_regs(self, old, new, lib, except_n=None, except_i=None):
        n, i = z3.Consts("sr_n sr_i", StrS)
        g = []
        if except_n is not None:
            g = [Not(And(n == except_n, i == except_i))]
        return z3.ForAll([n, i], Implies(And(*g) if g else True, And(self.has(new, lib, n, i) == self.has(old, lib, n, i),
                                                         Implies(self.has(old, lib, n, i), self.impl(new, lib, n, i) == self.impl(old, lib, n, i)))))

    def same_mods(self, old, new, lib, extra=None):
        n = z3.Const("sm_n", StrS)
        o = self.has_mod(old, lib, n)
        if extra is not None:
            o = Or(o, n == extra)
        return z3.ForAll([n], self.has_mod(new, lib, n) == o)

    def same_defs(self, old, new, lib, except_n=None):
        n = z3.Const("sd_n", StrS)
        g = [n != except_n] if except_n is not None else []
        return z3.ForAll([n], Implies(And(*g) if g else True, And(self.hasdef(new, lib, n) == self.hasdef(old, lib, n),
                                                      Implies(self.hasdef(old, lib, n), self.defimpl(new, lib, n) == self.defimpl(old, lib, n)))))

    def modifies_registry(self):
        return [("dict", None, STR, VM), ("field", "VariantModule", "impls", "new"), ("field", "Module", "impl"), ("dict", "new", STR, STR)] + \
               [("field", "Module", a, "new") for a in ("name", "script", "stack", "opts")]

    def setup(self):
        S_ = self
        LIB = Ref("ModuleLibrary")

        def lib(c):
            return c.t("self")

        # register_impl
        def reg_ens(c):
            n = c.old.fld("Module", "name", c.t("mod"))
            i = c.t("impl", STR)
            l = lib(c)
            return S_.wf(c.new, l) + [
                ("registered", And(S_.has(c.new, l, n, i), S_.impl(c.new, l, n, i) == c.t("mod"))),
                ("knows-its-implementation", c.new.fld("Module", "impl", c.t("mod")) == i),
                ("others-unchanged", S_.same_regs(c.old, c.new, l, n, i)),
                ("module-names", S_.same_mods(c.old, c.new, l, n)),
                ("defaults-unchanged", S_.same_defs(c.old, c.new, l)),
            ]
        self.register = Contract("licant.modules:ModuleLibrary.register_impl", {"self": LIB, "mod": Ref("Module"), "impl": STR},
                                 requires=lambda c: S_.wf(c.old, lib(c)), ensures=reg_ens, modifies=lambda c: S_.modifies_registry())

        # get
        def get_ens(c):
            l, n = lib(c), c.t("name")
            im = c.t("impl", Opt(STR))
            d = opt_dt(STR)
            given = Not(d[4](im))
            i = If(given, d[3](im), S_.defimpl(c.old, l, n))
            return S_.wf(c.new, l) + [
                ("module-registered", S_.has_mod(c.old, l, n)),
                ("default-declared", Or(given, S_.hasdef(c.old, l, n))),
                ("exactly-the-registered", If(S_.has(c.old, l, n, i), c.rt() == S_.impl(c.old, l, n, i),
                                              And(i == lit("__none__"), c.new.fld("Module", "name", c.rt()) == n, Not(c.old.alloc(c.rt()))))),
                ("answer-is-stable", And(S_.has(c.new, l, n, i), S_.impl(c.new, l, n, i) == c.rt())),
                ("others-unchanged", S_.same_regs(c.old, c.new, l, n, i)),
                ("module-names", S_.same_mods(c.old, c.new, l)),
                ("defaults-unchanged", S_.same_defs(c.old, c.new, l)),
                ("nothing-created-but-none", Implies(S_.has(c.old, l, n, i), S_.same_regs(c.old, c.new, l))),
            ]

        def get_err(c):
            l, n = lib(c), c.t("name")
            im = c.t("impl", Opt(STR))
            d = opt_dt(STR)
            given = Not(d[4](im))
            i = If(given, d[3](im), S_.defimpl(c.old, l, n))
            return Or(Not(S_.has_mod(c.old, l, n)), And(Not(given), Not(S_.hasdef(c.old, l, n))),
                      And(Not(S_.has(c.old, l, n, i)), i != lit("__none__")))

        def err_ens(c):
            return [("status", True)]
        self.get = Contract("licant.modules:ModuleLibrary.get", {"self": LIB, "name": STR, "impl": Opt(STR)}, ret=Ref("Module"),
                            requires=lambda c: S_.wf(c.old, lib(c)), ensures=get_ens, modifies=lambda c: S_.modifies_registry(),
                            raises=[("SystemExit", get_err)])
        self.get.exact_raises = ("SystemExit",)

        def none_args(f):
            def g(c):
                c.args = dict(c.args)
                c.args["impl"] = Con(None)
                return f(c)
            return g
        self.get_default = Contract("licant.modules:ModuleLibrary.get_default", {"self": LIB, "name": STR}, ret=Ref("Module"),
                                    requires=lambda c: S_.wf(c.old, lib(c)), ensures=none_args(get_ens), modifies=lambda c: S_.modifies_registry(),
                                    raises=[("SystemExit", none_args(get_err))])
        self.get_default.exact_raises = ("SystemExit",)

        # set_defimpl
        def def_ens(c):
            l, n, i = lib(c), c.t("modname"), c.t("impl")
            return S_.wf(c.new, l) + [
                ("declared", And(S_.hasdef(c.new, l, n), S_.defimpl(c.new, l, n) == i)),
                ("other-defaults-unchanged", S_.same_defs(c.old, c.new, l, n)),
                ("modules-unchanged", And(S_.same_regs(c.old, c.new, l), S_.same_mods(c.old, c.new, l))),
            ]
        self.set_def = Contract("licant.modules:ModuleLibrary.set_defimpl", {"self": LIB, "modname": STR, "impl": STR, "force": BOOL},
                                requires=lambda c: S_.wf(c.old, lib(c)) + [("forced", Or(c.t("force", BOOL), Not(S_.hasdef(c.old, lib(c), c.t("modname")))))],
                                ensures=def_ens, modifies=lambda c: [("dict", c.old.fld("ModuleLibrary", "defimpls", lib(c)), STR, STR)] + S_.modifies_registry())

        # the functions scripts call
        G = z3.Const("glob:licant.modules.mlibrary", RefS)
        Q = z3.Const("glob:licant.scripter.scriptq", RefS)

        def glob_req(c):
            st = c.old.fld("ScriptQueue", "stack", Q)
            return [("stack", And(c.old.alloc(G), c.old.alloc(Q), G != null, cls_of(G) == c.eng.class_id("ModuleLibrary"), c.old.llen(st) > 0))] + S_.wf(c.old, G)

        def opaque_kw(eng):
            k = KwV({})
            k.rest = V(ANY, eng.fresh("kwargs", AnyS))
            return k

        def api_ens(default):
            def f(c):
                n = c.t("name", STR)
                i = c.args["impl"]
                if isinstance(i, Con) and i.v is None:
                    iz = lit("__default__")
                    isd = z3.BoolVal(True)
                else:
                    im = c.t("impl", Opt(STR)) if default else None
                    if default:
                        d = opt_dt(STR)
                        iz = If(d[4](im), lit("__default__"), d[3](im))
                        isd = Or(d[4](im), c.t("default", BOOL))
                    else:
                        iz = c.t("impl", STR)
                        isd = c.t("default", BOOL)
                return S_.wf(c.new, G) + [
                    ("registered-latest", And(S_.has(c.new, G, n, iz), Not(c.old.alloc(S_.impl(c.new, G, n, iz))),
                                              c.new.fld("Module", "name", S_.impl(c.new, G, n, iz)) == n)),
                    ("default", If(isd, And(S_.hasdef(c.new, G, n), S_.defimpl(c.new, G, n) == iz),
                                   And(S_.hasdef(c.new, G, n) == S_.hasdef(c.old, G, n), S_.defimpl(c.new, G, n) == S_.defimpl(c.old, G, n)))),
                    ("others-unchanged", And(S_.same_regs(c.old, c.new, G, n, iz), S_.same_mods(c.old, c.new, G, n), S_.same_defs(c.old, c.new, G, n))),
                ]
            return f
        mod_all = lambda c: S_.modifies_registry() + [("dict", c.old.fld("ModuleLibrary", "defimpls", G), STR, STR)]
        self.implementation = Contract("licant.modules:implementation", {"name": STR, "impl": STR, "default": BOOL, "kwargs": opaque_kw},
                                       requires=glob_req, ensures=api_ens(False), modifies=mod_all, check_only=True)
        self.module = Contract("licant.modules:module", {"name": STR, "impl": Opt(STR), "default": BOOL, "kwargs": opaque_kw},
                               requires=glob_req, ensures=api_ens(True), modifies=mod_all, check_only=True)

        def mdi_ens(c):
            n, i = c.t("mod"), c.t("impl")
            return [("declared", And(S_.hasdef(c.new, G, n), S_.defimpl(c.new, G, n) == i)),
                    ("others-unchanged", And(S_.same_defs(c.old, c.new, G, n), S_.same_regs(c.old, c.new, G), S_.same_mods(c.old, c.new, G)))]
        self.mdi = Contract("licant.modules:module_default_implementation", {"mod": STR, "impl": STR}, requires=glob_req, ensures=mdi_ens, modifies=mod_all, check_only=True)
        self.add(self.register, self.get, self.get_default, self.set_def, self.implementation, self.module, self.mdi)

        # a registry starts empty and well-formed
        self.init = Contract("licant.modules:ModuleLibrary.__init__", {"self": LIB}, check_only=True,
                             ensures=lambda c: S_.wf(c.new, lib(c)) + [("empty", forall([StrS], lambda n: And(Not(S_.has_mod(c.new, lib(c), n)), Not(S_.hasdef(c.new, lib(c), n)))))],
                             modifies=lambda c: [("field", "ModuleLibrary", "modules", [lib(c)]), ("field", "ModuleLibrary", "defimpls", [lib(c)]), ("dict", "new", STR, VM), ("dict", "new", STR, STR)])
        self.add(self.init)


def units(prog):
    s = S(prog)
    return [(s, [s.init, s.register, s.get, s.get_default, s.set_def, s.implementation, s.module, s.mdi])]
