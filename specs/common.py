"""Contracts several properties share: the registry of targets and lookups in it."""
import ast
import fnmatch
from pyv.spec import *

T = Ref("Target")
CORE = Ref("Core", True)
canon = strfun("os.path.realpath/1", StrS, StrS)

core_schema = {
    "Core": {"_targets": Dict(STR, T), "help_showed_targets": List(T), "runtime": Ref("NoneDictionary"), "debug": BOOL,
             "depends_as_set_lazy_cache": Dict(ANY, List(STR))},
    "NoneDictionary": {"$dict": Dict(STR, ANY)},
    "Target": {"tgt": STR, "deps": List(STR), "weakdeps": Set(STR), "core": CORE, "__help__": Opt(STR),
               "default_action": STR, "need_by_self": ANY, "need_update": Opt(BOOL), "need_by_deps": ANY, "update_if": FN, "action": FN, "__actions__": Set(STR)},
}


def targets(h, core):
    return h.fld("Core", "_targets", core)


def has_exact(h, core, n):
    return sel(h.ddom(targets(h, core), STR, T), n)


def exists_(h, core, n):
    return Or(has_exact(h, core, n), has_exact(h, core, canon(n)))


def lookup(h, core, n):
    m = h.dval(targets(h, core), STR, T)
    return If(has_exact(h, core, n), sel(m, n), sel(m, canon(n)))


def deps_of(h, t):
    return h.fld("Target", "deps", t)


def in_list(h, l, x, elem=STR):
    j = z3.Int("il_%d" % next(_cnt))
    return z3.Exists([j], And(0 <= j, j < h.llen(l), sel(h.larr(l, elem), j) == x))


import itertools
_cnt = itertools.count()


def wf_core(h, core):
    """Registered targets are live objects with a name."""
    n = z3.Const("wfc_n", StrS)
    m = sel(h.dval(targets(h, core), STR, T), n)
    return [("wf-registry", And(core != null, h.alloc(core), h.alloc(targets(h, core)))),
            ("wf-targets", z3.ForAll([n], Implies(has_exact(h, core, n), And(m != null, h.alloc(m), h.alloc(deps_of(h, m)), h.llen(deps_of(h, m)) >= 0)), patterns=[m]))]


def canonical_path_contract(assumed=True):
    return Contract("licant.util:canonical_path", {"path": STR}, ret=STR, ensures=lambda c: [("is-canonical", c.rt() == canon(c.t("path")))], assumed=assumed,
                    doc="the resolved path is a fixed function of the name while the program runs")


def error_contract():
    c = Contract("licant.util:error", {"str": STR}, raises=[("SystemExit", None)], ensures=lambda c: [("does-not-return", z3.BoolVal(False))])
    c.no_normal = True
    return c


def get_contract(param=STR):
    return Contract("licant.core:Core.get", {"self": CORE, "tgt": param}, ret=T,
                    requires=lambda c: wf_core(c.old, c.t("self")),
                    ensures=lambda c: [("finds-the-target", And(exists_(c.old, c.t("self"), c.t("tgt")), c.rt() == lookup(c.old, c.t("self"), c.t("tgt"))))],
                    raises=[("SystemExit", lambda c: Not(exists_(c.old, c.t("self"), c.t("tgt"))))])


class PrivateField:
    """The field is touched only by the named functions (syntactically, in the whole package)."""

    bounded = None

    def __init__(self, attr, funcs):
        self.attr = attr
        self.funcs = funcs
        self.key = "private:" + attr

    def run(self, eng):
        eng.label = self.key
        bad = []
        for m in eng.prog.modules.values():
            def walk(n, qual):
                for ch in ast.iter_child_nodes(n):
                    q = qual
                    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        q = (qual + "." if qual else "") + ch.name
                    if (isinstance(ch, ast.Attribute) and ch.attr == self.attr) or (isinstance(ch, ast.Name) and ch.id == self.attr):
                        if not any(fnmatch.fnmatchcase("%s:%s" % (m.name, qual), f) for f in self.funcs):
                            bad.append("%s:%s line %d" % (m.name, qual, ch.lineno))
                    walk(ch, q)
            walk(m.tree, "")
        eng.obligs.append(dict(unit=self.key, name="only-in:" + ",".join(self.funcs), ok=not bad, result="unsat" if not bad else "found", detail="; ".join(bad), time=0.0, where="", trace=[]))
        return 1
