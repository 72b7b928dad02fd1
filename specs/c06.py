"""C06: the dependency closure of a target is exact."""
from pyv.spec import *
from .common import *

# an arbitrary set of names: whatever it is, if it is closed under dependencies the answer stays inside it
A = z3.Const("anyset", z3.ArraySort(StrS, B))
# a finite set that contains every dependency name of a registered target
U = z3.Const("depnames", z3.ArraySort(StrS, B))


# definitions, for the registry at the call: the dependency list of the target with a name, and whether there is one
DL = z3.Function("deplist_of_name", StrS, RefS)
EX = z3.Function("target_exists", StrS, B)


def definitions(h, core):
    n = z3.Const("df_n", StrS)
    return z3.ForAll([n], And(EX(n) == exists_(h, core, n), Implies(EX(n), DL(n) == deps_of(h, lookup(h, core, n)))), patterns=[DL(n), EX(n)])


def key_is_pair(k):
    return isa(TupT(ANY, ANY), k)


class S(Spec):
    schema = core_schema

    def closed_under(self, h, core, n, S):
        """every dependency of the target named n is in S"""
        j = z3.Int("cu_j")
        e = sel(h.larr(DL(n), STR), j)
        return z3.ForAll([j], Implies(And(0 <= j, j < h.llen(DL(n))), sel(S, e)), patterns=[e])

    def setup(self):
        self.add(canonical_path_contract(), error_contract(), get_contract())
        def name_of(c):
            t = c.a("tgt")
            if isinstance(t, V) and prune(t.t).kind == "ref":
                return c.old.fld("Target", "tgt", t.z)
            return c.t("tgt")
        self.name_of = name_of
        x, y = z3.Consts("c6_x c6_y", StrS)

        def names_finite(h, core):
            n, j = z3.Const("nf_n", StrS), z3.Int("nf_j")
            e = sel(h.larr(DL(n), STR), j)
            return z3.ForAll([n, j], Implies(And(EX(n), 0 <= j, j < h.llen(DL(n))), sel(U, e)), patterns=[e])

        def any_closed(h):
            n, j = z3.Const("ac_n", StrS), z3.Int("ac_j")
            e = sel(h.larr(DL(n), STR), j)
            return z3.ForAll([n, j], Implies(And(sel(A, n), 0 <= j, j < h.llen(DL(n))), sel(A, e)), patterns=[e])

        def req(c):
            core = c.t("self")
            return wf_core(c.old, core) + [("definitions", definitions(c.old, core)), ("names-finite", names_finite(c.old, core)), ("any-closed-set", any_closed(c.old))]

        def ens(c):
            core, n, acc = c.t("self"), name_of(c), c.t("accum")
            old, new = c.old.setc(acc, STR), c.new.setc(acc, STR)
            h = c.old
            return [
                ("known", EX(n)),
                ("keeps", z3.ForAll([x], Implies(sel(old, x), sel(new, x)), patterns=[sel(old, x)])),
                ("direct-dependencies-in", self.closed_under(h, core, n, new)),
                ("closed", z3.ForAll([x], Implies(And(sel(new, x), Not(sel(old, x))), And(EX(x), self.closed_under(h, core, x, new))), patterns=[sel(new, x)])),
                ("nothing-else", Implies(self.closed_under(h, core, n, A),
                                         z3.ForAll([x], Implies(sel(new, x), Or(sel(old, x), sel(A, x))), patterns=[sel(new, x)]))),
            ]
        self.impl = Contract("licant.core:Core.depends_as_set_impl", {"self": CORE, "tgt": STR, "accum": Set(STR)}, requires=req, ensures=ens,
                             modifies=lambda c: [("set", c.t("accum"), STR)], raises=[("SystemExit", None)])
        # termination: each call has more names, and there are finitely many
        card = z3.Function("card_str", z3.ArraySort(StrS, B), I)
        P, Q = z3.Consts("c6_P c6_Q", z3.ArraySort(StrS, B))

        def missing(h, acc):
            return z3.SetDifference(U, h.setc(acc, STR))
        self.impl.decreases = lambda c: card(missing(c.old, c.t("accum")))
        self.axioms = [z3.ForAll([P], card(P) >= 0, patterns=[card(P)]),
                       # finite sets: a set inside another that lacks one of its elements has fewer
                       z3.ForAll([P, Q], Implies(And(z3.IsSubset(P, Q), P != Q), card(P) < card(Q)), patterns=[z3.MultiPattern(card(P), card(Q))])]
        self.add(self.impl)
        # the same function, given a target object instead of a name
        self.impl_obj = Contract("licant.core:Core.depends_as_set_impl", {"self": CORE, "tgt": T, "accum": Set(STR)}, requires=req, ensures=ens,
                                 modifies=lambda c: [("set", c.t("accum"), STR)], raises=[("SystemExit", None)])
        self.impl_obj.decreases = lambda c: card(missing(c.old, c.t("accum"))) + 1
        self.impl.select = lambda eng, b: self.impl_obj if isinstance(b["tgt"], V) and prune(b["tgt"].t).kind == "ref" else None

        def cache_ok(h, core):
            k = z3.Const("ck_k", AnyS)
            d = sel(h.ddom(h.fld("Core", "depends_as_set_lazy_cache", core), ANY, List(STR)), k)
            return z3.ForAll([k], Implies(d, Not(key_is_pair(k))), patterns=[d])

        def top_req(c):
            return req(c) + [("cache", cache_ok(c.old, c.t("self")))]

        def top_ens(c):
            core, n, r = c.t("self"), name_of(c), c.rt()
            h = c.old
            inc = c.t("incroot", BOOL)
            j, k = z3.Ints("te_j te_k")
            arr, ln = c.new.larr(r, STR), c.new.llen(r)
            mem = lambda v: in_list(c.new, r, v)
            lt = z3.Function("str_lt", StrS, StrS, B)
            inr = lambda v: in_list(c.new, r, v)
            e = sel(arr, j)
            root = n
            dep = lambda m: DL(m)
            di = lambda m, i: sel(h.larr(dep(m), STR), i)
            w = z3.Int("te_w")
            return [
                ("sorted-without-duplicates", z3.ForAll([j, k], Implies(And(0 <= j, j < k, k < ln), And(lt(sel(arr, j), sel(arr, k)), sel(arr, j) != sel(arr, k))))),
                ("own-name", Implies(inc, inr(root))),
                ("contains-direct-dependencies", z3.ForAll([w], Implies(And(0 <= w, w < h.llen(dep(root))), inr(di(root, w))))),
                ("contains-dependencies-of-members", z3.ForAll([j, w], Implies(And(0 <= j, j < ln, 0 <= w, w < h.llen(dep(e))), inr(di(e, w))))),
                ("contains-nothing-else", Implies(self.closed_under(h, core, n, A),
                                                  z3.ForAll([j], Implies(And(0 <= j, j < ln), Or(sel(A, e), And(inc, e == root)))))),
                ("members-exist", z3.ForAll([j], Implies(And(0 <= j, j < ln), EX(e)))),
                ("cache", cache_ok(c.new, core)),
            ]
        top_mod = lambda c: [("dict", c.old.fld("Core", "depends_as_set_lazy_cache", c.t("self")), ANY, List(STR)), ("field", "Core", "depends_as_set_lazy_cache", [c.t("self")]),
                             ("set", "new", STR), ("list", "new", STR)]
        self.top = Contract("licant.core:Core.depends_as_set", {"self": CORE, "tgt": STR, "incroot": BOOL}, ret=List(STR), requires=top_req, ensures=top_ens,
                            modifies=top_mod, raises=[("SystemExit", None)])
        self.top_obj = Contract("licant.core:Core.depends_as_set", {"self": CORE, "tgt": T, "incroot": BOOL}, ret=List(STR), requires=top_req, ensures=top_ens,
                                modifies=top_mod, raises=[("SystemExit", None)])
        self.init = Contract("licant.core:Core.__init__", {"self": CORE, "debug": BOOL}, check_only=True,
                             ensures=lambda c: [("cache", cache_ok(c.new, c.t("self")))],
                             modifies=lambda c: [("field", "Core", a, [c.t("self")]) for a in core_schema["Core"]] + [("dict", "new", ANY, List(STR)), ("dict", "new", STR, T), ("dict", "new", STR, ANY),
                                                                                                                ("field", "NoneDictionary", "$dict", "new")])

    def invariants(self, c):
        if c.eng.verifying not in (self.impl, self.impl_obj) or c.kind != "for" or c.coll is None:
            return []
        h, old = c.h, c.old
        core, acc = (c.eng.to_term(c.arg(k), t) for k, t in (("self", CORE), ("accum", Set(STR))))
        t = c.arg("tgt")
        n = old.fld("Target", "tgt", t.z) if prune(t.t).kind == "ref" else t.z
        o, now = old.setc(acc, STR), h.setc(acc, STR)
        x = z3.Const("c6i_x", StrS)
        out = [("keeps", z3.ForAll([x], Implies(sel(o, x), sel(now, x)), patterns=[sel(o, x)])),
               ("closed", z3.ForAll([x], Implies(And(sel(now, x), Not(sel(o, x))), And(EX(x), self.closed_under(old, core, x, now))), patterns=[sel(now, x)])),
               ("nothing-else", Implies(self.closed_under(old, core, n, A),
                                        z3.ForAll([x], Implies(sel(now, x), Or(sel(o, x), sel(A, x))), patterns=[sel(now, x)])))]
        if c.elem is not None and c.src.kind == "seq" and c.src.array() is not None:
            j = z3.Int("c6i_j")
            e = sel(c.src.array(), j)
            out.append(("done-in", z3.ForAll([j], Implies(And(0 <= j, j < c.idx), sel(now, e)), patterns=[e])))
        return out


def units(prog):
    s = S(prog)
    return [(s, [s.contracts["licant.core:Core.get"], s.contracts["licant.util:error"], s.impl, s.impl_obj, s.top, s.top_obj, s.init,
                 PrivateField("depends_as_set_lazy_cache", ["licant.core:Core.__init__", "licant.core:Core.depends_as_set"])])]
