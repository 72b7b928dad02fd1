"""C10: lookups find the latest target registered under a name or the same file."""
from pyv.spec import *
from .common import *

STORE = z3.Const("glob:licant.util.canonical_path_lazy_store", RefS)


def memo_ok(h):
    d = h.fld("DefaultDictLazy", "$dict", STORE)
    k = z3.Const("mo_k", StrS)
    v = sel(h.dval(d, STR, STR), k)
    return And(h.alloc(STORE), STORE != null, h.alloc(d), z3.ForAll([k], Implies(sel(h.ddom(d, STR, STR), k), v == canon(k)), patterns=[v]))


class S(Spec):
    extra_attributes_ignored = True
    schema = dict(core_schema)
    schema["DefaultDictLazy"] = {"$dict": Dict(STR, STR)}
    schema["FileTarget"] = {"isfile": BOOL, "force": BOOL, "clrmsg": STR, "quoted_tgt": STR}
    schema["UpdatableTarget"] = {"need_update": Opt(BOOL)}
    globals = {"licant.util:canonical_path_lazy_store": Ref("DefaultDictLazy", True), "licant.core:_default_core": CORE}

    def setup(self):
        def foo(eng, o):
            kind, node = eng.prog.modules["licant.util"].names.get("canonical_path_lazy_store", (None, None))
            if kind != "var" or not isinstance(node, ast.Call) or len(node.args) != 1:
                raise Unsupported("canonical_path_lazy_store is not built as expected")
            return eng.ev(node.args[0], Env(func=E_ModFunc(eng.prog.modules["licant.util"])))
        self.attr_hooks[("DefaultDictLazy", "foo")] = foo

        def os_exists(eng, recv, args, kwargs, node):
            "any answer"
            return V(BOOL, eng.fresh("exists", B))
        self.externals["os.path.exists"] = os_exists
        self.add(error_contract())
        same = lambda c: [("registry-unchanged", And(targets(c.new, c.t("self")) == targets(c.old, c.t("self")),
                                                       c.new.ddom(targets(c.old, c.t("self")), STR, T) == c.old.ddom(targets(c.old, c.t("self")), STR, T),
                                                       c.new.dval(targets(c.old, c.t("self")), STR, T) == c.old.dval(targets(c.old, c.t("self")), STR, T)))]
        # verified apart: callers only see the resolved path
        self.canon_body = Contract("licant.util:canonical_path", {"path": STR}, ret=STR, requires=lambda c: [("memo", memo_ok(c.old))],
                                   ensures=lambda c: [("is-canonical", c.rt() == canon(c.t("path"))), ("memo", memo_ok(c.new))],
                                   modifies=lambda c: [("dict", c.old.fld("DefaultDictLazy", "$dict", STORE), STR, STR)])
        self.add(canonical_path_contract(assumed=False))
        self.get = get_contract()
        g0 = self.get.ensures
        self.get.ensures = lambda c: g0(c) + same(c)
        self.get.exact_raises = ("SystemExit",)
        self.has = Contract("licant.core:Core.has", {"self": CORE, "tgt": STR}, ret=BOOL, requires=lambda c: wf_core(c.old, c.t("self")),
                            ensures=lambda c: [("answers-whether-a-lookup-succeeds", c.rt() == exists_(c.old, c.t("self"), c.t("tgt")))] + same(c))
        self.exist = Contract("licant.core:Core.exist", {"self": CORE, "name": STR}, ret=BOOL, requires=lambda c: wf_core(c.old, c.t("self")),
                              ensures=lambda c: [("answers-whether-a-lookup-succeeds", c.rt() == exists_(c.old, c.t("self"), c.t("name")))] + same(c), check_only=True)

        def add_ens(c):
            core, t = c.t("self"), c.t("target")
            m, h = targets(c.old, core), c.new
            n = c.old.fld("Target", "tgt", t)
            k = z3.Const("ad_k", StrS)
            od, nd = c.old.ddom(m, STR, T), h.ddom(m, STR, T)
            ov, nv = c.old.dval(m, STR, T), h.dval(m, STR, T)
            return [("registered", And(targets(h, core) == m, sel(nd, n), sel(nv, n) == t)),
                    ("others-unchanged", z3.ForAll([k], Implies(k != n, And(sel(nd, k) == sel(od, k), sel(nv, k) == sel(ov, k))))),
                    ("knows-its-core", h.fld("Target", "core", t) == core),
                    ("found-by-its-name", lookup(h, core, n) == t),
                    ("returned", c.rt() == t)]
        self.addc = Contract("licant.core:Core.add", {"self": CORE, "target": T}, ret=T, requires=lambda c: wf_core(c.old, c.t("self")), ensures=add_ens,
                             modifies=lambda c: [("dict", targets(c.old, c.t("self")), STR, T), ("field", "Target", "core", [c.t("target")]),
                                                 ("list", c.old.fld("Core", "help_showed_targets", c.t("self")), T)])
        self.add(self.get, self.has, self.exist, self.addc)
        # the name a file target gets
        kw = lambda eng: self.opaque_kw(eng)
        anymods = [("dict", None, STR, T), ("field", "Target", "core"), ("list", "new", T), ("list", "new", STR), ("field", "Target", "tgt", "new"), ("set", "new", STR)]
        self.expand = Contract("licant.core:Target.expand_globs", {"self": T, "deps": List(STR)}, ret=List(STR), assumed=True, modifies=lambda c: anymods,
                               doc="may register source targets for the files it finds")
        self.dirkeep = Contract("licant.make:dirkeep", {"dirpath": STR, "message": STR}, ret=T, assumed=True, modifies=lambda c: anymods, doc="registers directory targets")
        self.add(self.expand, self.dirkeep)
        FT = Ref("FileTarget")

        def init_mods(c):
            s = c.t("self")
            out = list(anymods)
            for k, fs in (("Target", core_schema["Target"]), ("FileTarget", S.schema["FileTarget"]), ("UpdatableTarget", S.schema["UpdatableTarget"])):
                for f in fs:
                    if (k, f) != ("Target", "core"):
                        out.append(("field", k, f, [s]) if f != "tgt" else ("field", k, f, [s]))
            return out
        self.finit = Contract("licant.make:FileTarget.__init__", {"self": FT, "tgt": STR, "deps": List(STR), "force": BOOL, "use_dirkeep": BOOL, "kwargs": kw}, check_only=True,
                              requires=lambda c: [("core", c.old.alloc(z3.Const("glob:licant.core._default_core", RefS)))],
                              ensures=lambda c: [("named-by-the-resolved-path", c.new.fld("Target", "tgt", c.t("self")) == canon(c.t("tgt")))], modifies=init_mods)
        self.init = Contract("licant.core:Core.__init__", {"self": CORE, "debug": BOOL}, check_only=True,
                             ensures=lambda c: wf_core(c.new, c.t("self")) + [("empty", forall([StrS], lambda n: Not(exists_(c.new, c.t("self"), n))))],
                             modifies=lambda c: [("field", "Core", a, [c.t("self")]) for a in core_schema["Core"]] + [("dict", "new", ANY, List(STR)), ("dict", "new", STR, T), ("dict", "new", STR, ANY),
                                                                                                                ("field", "NoneDictionary", "$dict", "new")])
        self.dinit = Contract("licant.util:DefaultDictLazy.__init__", {"self": Ref("DefaultDictLazy", True), "foo": ANY}, check_only=True)

    def opaque_kw(self, eng):
        k = KwV({})
        k.rest = V(ANY, eng.fresh("kwargs", AnyS))
        return k


def units(prog):
    s = S(prog)
    return [(s, [s.get, s.has, s.exist, s.addc, s.canon_body, s.finit, s.init, s.contracts["licant.util:error"],
                 PrivateField("canonical_path_lazy_store", ["licant.util:", "licant.util:canonical_path"])])]
