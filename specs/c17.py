"""C17: every source gets one output path, in order, inside the build directory."""
from .cxx_common import *

dirname = strfun("os.path.dirname/1", StrS, StrS)
pjoin = strfun("os.path.join/2", StrS, StrS, StrS)
normpath = strfun("os.path.normpath/1", StrS, StrS)
isabs = strfun("os.path.isabs/1", StrS, B)
stem = strfun("os.path.splitext0/1", StrS, StrS)
replaced = strfun("str_replace_3", StrS, StrS, StrS, StrS)
within = z3.Function("lies_within", StrS, StrS, B)         # within(directory, path): is it or lies below it
climbs = z3.Function("two_dots_occur_in", StrS, B)
isfile = z3.Function("last_component_is_no_dot", StrS, B)
plain = z3.Function("is_a_normal_relative_name", StrS, B)     # without two dots in a row, not the directory . itself


def cat(*ps):
    return cat_of([q for p in ps for q in cat_parts(piece(p))])


def prefixed(s, prefix):
    return s if prefix is None else If(prefix == lit(""), s, pjoin(dirname(s), cat(prefix, basename(s))))


def out_path(bd, s, ext):
    """where the output for a (prefixed) source belongs"""
    r = cat(stem(s), ".", ext)
    return If(isabs(s), cat(bd, r), normpath(pjoin(bd, replaced(r, lit(".."), lit("__")))))


class S(Spec):
    schema = {"CXXModuleOptions": {}}
    x, y, d, e = (z3.Const("pf_" + k, StrS) for k in "xyde")
    strcat = cat_of.__globals__["str_cat"]
    # facts about paths, trusted (and sampled against os.path by the executions)
    axioms = [
        z3.ForAll([x, e], isabs(strcat(stem(x), strcat(lit("."), e))) == isabs(x), patterns=[strcat(stem(x), strcat(lit("."), e))]),
        z3.ForAll([x], And(Not(climbs(replaced(x, lit(".."), lit("__")))), isabs(replaced(x, lit(".."), lit("__"))) == isabs(x), Implies(Not(climbs(x)), replaced(x, lit(".."), lit("__")) == x)), patterns=[replaced(x, lit(".."), lit("__"))]),
        z3.ForAll([d, x], Implies(And(Not(isabs(x)), Not(climbs(x))), within(d, normpath(pjoin(d, x)))), patterns=[normpath(pjoin(d, x))]),
        z3.ForAll([d, x], Implies(And(isabs(x), Not(climbs(x)), d != lit("")), within(d, strcat(d, x))), patterns=[strcat(d, x)]),
        z3.ForAll([x, e], Implies(And(Not(climbs(x)), isfile(x), Not(climbs(e))), Not(climbs(strcat(stem(x), strcat(lit("."), e))))), patterns=[strcat(stem(x), strcat(lit("."), e))]),
    ]

    def setup(self):
        self.attr_hooks[("CXXModuleOptions", "opts")] = lambda eng, o: KwV({"builddir": V(STR, z3.Const("mo_builddir", StrS))})
        srcs = lambda c: c.t("srcs")
        bdo = z3.Const("mo_builddir", StrS)
        self.units_ = []

        def req(c):
            return [("live", And(srcs(c) != null, c.old.alloc(srcs(c)), c.old.llen(srcs(c)) >= 0)), ("a-plain-extension", Not(climbs(c.t("ext"))))]
        for pi, pre in enumerate((lambda eng: Con(None), STR)):
            for bi, bd in enumerate((lambda eng: Con(None), STR)):
                def ens(c, pi=pi, bi=bi):
                    h, o, r = c.new, c.old, c.rt()
                    b = c.t("builddir") if bi else bdo
                    s0 = sel(o.larr(srcs(c), STR), J)
                    s = prefixed(s0, c.t("prefix") if pi else None)
                    e = sel(h.larr(r, STR), J)
                    n = o.llen(srcs(c))
                    rng = And(0 <= J, J < n)
                    return [("as-many-as-the-sources", h.llen(r) == n),
                            ("each-in-order-with-its-extension", z3.ForAll([J], Implies(rng, e == out_path(b, s, c.t("ext"))), patterns=[e])),
                            ("inside-the-build-directory", z3.ForAll([J], Implies(And(rng, Or(Not(isabs(s)), And(Not(climbs(s)), isfile(s), b != lit("")))), within(b, e)), patterns=[e])),
                            ("a-new-list", And(Not(o.alloc(r)), r != srcs(c)))]
                self.units_.append(Contract("licant.cxx_modules:build_paths", {"srcs": List(STR), "opts": Ref("CXXModuleOptions"), "ext": STR, "prefix": pre, "builddir": bd}, ret=List(STR), requires=req, ensures=ens,
                                            modifies=lambda c: [("list", "new", STR)], check_only=True))

    def invariants(self, c):
        """the list filled in the loop holds the outputs of the sources seen so far"""
        if c.idx is None:
            return []
        out = []
        fa = c.eng.fn_args
        srcs = fa["srcs"].z
        b = fa["builddir"].z if isinstance(fa["builddir"], V) else z3.Const("mo_builddir", StrS)
        p = fa["prefix"].z if isinstance(fa["prefix"], V) else None
        s = prefixed(sel(c.old.larr(srcs, STR), J), p)
        for nm, v in c.of_type("list"):
            if isinstance(prune(prune(v.t).args[0]), TVar) or prune(prune(v.t).args[0]) != STR or v.z is srcs:
                continue
            e = sel(c.h.larr(v.z, STR), J)
            out.append(("so-far:" + nm, And(c.h.llen(v.z) == c.idx, z3.ForAll([J], Implies(And(0 <= J, J < c.idx), e == out_path(b, s, fa["ext"].z)), patterns=[e]))))
        return out


class InjLemma:
    """Different normal relative sources get different paths: follows from the shape of the path."""
    bounded = None
    key = "lemma:different-sources-get-different-paths"

    def run(self, eng):
        s1, s2, bd, ext = (z3.Const("il_" + k, StrS) for k in ("s1", "s2", "bd", "ext"))
        x, y, d = (z3.Const("if_" + k, StrS) for k in "xyd")
        sc = cat_of.__globals__["str_cat"]
        facts = list(S.axioms) + [
            z3.ForAll([d, x, y], Implies(And(plain(x), plain(y), normpath(pjoin(d, x)) == normpath(pjoin(d, y))), x == y), patterns=[z3.MultiPattern(normpath(pjoin(d, x)), normpath(pjoin(d, y)))]),
            z3.ForAll([x, y], Implies(plain(x), And(Not(climbs(x)), Not(isabs(x)), Implies(Not(climbs(y)), plain(sc(stem(x), sc(lit("."), y)))))), patterns=[sc(stem(x), sc(lit("."), y))]),
            z3.ForAll([x, y, d], Implies(sc(x, d) == sc(y, d), x == y), patterns=[z3.MultiPattern(sc(x, d), sc(y, d))]),
        ]
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*facts)
        goals = {"relative": And(plain(s1), plain(s2)), "absolute": And(isabs(s1), isabs(s2))}
        y1 = z3.Const("if_y", StrS)
        s.add(z3.ForAll([d, x, y1], Implies(sc(d, x) == sc(d, y1), x == y1), patterns=[z3.MultiPattern(sc(d, x), sc(d, y1))]))
        import time
        eng.label = self.key
        for nm, g in goals.items():
            t = time.time()
            s.push()
            s.add(g, Not(climbs(ext)), stem(s1) != stem(s2), out_path(bd, s1, ext) == out_path(bd, s2, ext))
            r = s.check()
            s.pop()
            eng.obligs.append(dict(unit=self.key, name="different-" + nm, ok=r == z3.unsat, result=str(r), detail="", time=time.time() - t, where="", trace=[]))
        return 1


SLOW = ()
ASSUMPTIONS = ["the wanted extension holds no parent reference", "names that differ only in spelling (./a, a//b) are the same source; a relative and an absolute source are not compared"]
TRUSTED = ["five facts about os.path.join/normpath/isabs/splitext and str.replace, stated as axioms of the specification and sampled by the executions"]


def units(prog):
    s = S(prog)
    return [(s, s.units_ + [InjLemma()])]
