"""C16: combining module options follows each option's rule and changes neither input."""
from .cxx_common import *

MO = Ref("CXXModuleOptions", True)
SO = Ref("solver", True)
pjoin = strfun("os.path.join/2", StrS, StrS, StrS)
OPTS = Dict(STR, ANY)
PAIR = TupT(STR, STR)
RES = z3.Function("result_of_rule", FnS, AnyS, AnyS, RefS, RefS, RefS, AnyS)
typename = z3.Function("class_name_of", AnyS, StrS)

# option: (type, rule when merged with a base, rule when included)
KEEP, OWN, OWNFILES, ADD, ADDFILES, ADDLOC, OWNORBASE, TEXT, SUB, HEADERS = "keep own own-files add add-files add-local own-or-base text submodules headers".split()
RULES = {
    "srcdir": ("str", OWN, KEEP), "depends": ("list", OWN, KEEP), "objects": ("list", OWNFILES, ADDFILES), "sources": ("list", OWNFILES, ADDFILES), "qt_moc": ("list", OWNFILES, ADDFILES), "qt_ui": ("list", OWNFILES, ADDFILES),
    "libs": ("list", ADD, ADD), "libdirs": ("list", ADD, ADD), "target": ("str", OWNORBASE, KEEP), "include_paths": ("list", ADDLOC, ADDLOC), "cxxstd": ("str", OWNORBASE, OWNORBASE), "ccstd": ("str", OWNORBASE, OWNORBASE),
    "cxx_flags": ("str", TEXT, TEXT), "cc_flags": ("str", TEXT, TEXT), "ld_flags": ("str", TEXT, TEXT), "modules": ("list", OWN, ADD), "type": ("str", OWN, KEEP), "builddir": ("str", OWNORBASE, KEEP),
    "toolchain": ("toolchain", OWNORBASE, KEEP), "optimize": ("str", OWNORBASE, KEEP), "include_modules": ("list", SUB, KEEP), "defines": ("list", ADD, ADD), "ldscripts": ("list", ADDLOC, ADDLOC),
    "local_headers": ("list", HEADERS, HEADERS), "mdepends": ("list", OWN, KEEP), "debug": ("str", OWNORBASE, KEEP)}
DEFAULTS = {"srcdir": ".", "type": "objects"}


class Merge(Spec):
    """the combination of two option sets"""
    schema = {"CXXModuleOptions": {"opts": OPTS, "table": Dict(STR, SO)}, "solver": {"type": STR, "merge": FN, "include": FN, "default": ANY}}
    ghosts = {}

    def setup(self):
        S_, O_ = (lambda c: c.t("self")), (lambda c: c.t("other"))
        opts = lambda h, z: h.fld("CXXModuleOptions", "opts", z)
        table = lambda h, z: h.fld("CXXModuleOptions", "table", z)
        dom = lambda h, z: h.ddom(opts(h, z), STR, ANY)
        val = lambda h, z: h.dval(opts(h, z), STR, ANY)
        k = z3.Const("mg_k", StrS)
        none = lambda c: c.eng.to_any(Con(None))

        def new_opts(eng, args, kwargs, node):
            """CXXModuleOptions.__init__: an option set with these options, if they are all known and of the right type"""
            d = kwargs.get("**")
            if args or d is None or len(kwargs) != 1:
                raise Unsupported("construction of an option set")
            o = eng.alloc("CXXModuleOptions", MO)
            r = eng.new_dict(("opts-copy",))
            eng.dict_update(r, d)
            eng.hwrite("f:CXXModuleOptions.opts", OPTS, o.z, r.z)
            return o
        self.constructors["CXXModuleOptions"] = new_opts

        def live(h, z):
            m = z3.Const("lv_k", StrS)
            return And(z != null, h.alloc(z), h.alloc(opts(h, z)), opts(h, z) != null)

        def req(c):
            h = c.old
            s = S_(c)
            tv = sel(h.dval(table(h, s), STR, SO), k)
            return [("live", And(live(h, s), live(h, O_(c)), h.alloc(table(h, s)), table(h, s) != null)),
                    ("base-holds-known-options", z3.ForAll([k], Implies(sel(dom(h, s), k), And(sel(h.ddom(table(h, s), STR, SO), k), tv != null, h.alloc(tv))), patterns=[tv]))]

        def want(c, k, fnc):
            o, s, t = c.old, S_(c), O_(c)
            rule = sel(o.dval(table(o, s), STR, SO), k)
            own = If(sel(dom(o, t), k), sel(val(o, t), k), none(c))
            return RES(o.fld("solver", fnc, rule), sel(val(o, s), k), own, rule, s, t)

        def ens_for(fnc):
            def ens(c):
                h, o, r = c.new, c.old, c.rt()
                return [("a-new-option-set", And(r != null, Not(o.alloc(r)), Not(o.alloc(opts(h, r))))),
                        ("with-the-options-of-the-base", z3.ForAll([k], sel(dom(h, r), k) == sel(dom(o, S_(c)), k), patterns=[sel(dom(h, r), k)])),
                        ("each-by-its-rule", z3.ForAll([k], Implies(sel(dom(o, S_(c)), k), sel(val(h, r), k) == want(c, k, fnc)), patterns=[sel(val(h, r), k)])),
                        ("base-unchanged", And(opts(h, S_(c)) == opts(o, S_(c)), dom(h, S_(c)) == dom(o, S_(c)), val(h, S_(c)) == val(o, S_(c)))),
                        ("other-unchanged", And(opts(h, O_(c)) == opts(o, O_(c)), dom(h, O_(c)) == dom(o, O_(c)), val(h, O_(c)) == val(o, O_(c))))]
            return ens
        self.want, self.dom, self.val = want, dom, val
        self.units_ = []
        for fnc in ("merge", "include"):
            c = Contract("licant.cxx_modules:CXXModuleOptions.merge", {"self": MO, "other": MO, "fnc": lambda eng, f=fnc: Con(f)}, ret=MO, requires=req, ensures=ens_for(fnc), check_only=True,
                         modifies=lambda c: [("dict", "new", STR, ANY), ("field", "CXXModuleOptions", "opts", "new"), ("field", "CXXModuleOptions", "table", "new")])
            c.fnc = fnc
            self.units_.append(c)

        # ------------------------------------------------ what is refused
        tf = lambda h, z, k: h.fld("solver", "type", sel(h.dval(table(h, z), STR, SO), k))
        special = lambda k: Or(k == lit("__script__"), k == lit("__dir__"))

        def bad(c):
            h, s = c.old, S_(c)
            e = z3.Const("bd_k", StrS)
            return z3.Exists([e], self.wrong(h, s, e))

        def wrong(h, s, e):
            return And(sel(dom(h, s), e), Not(special(e)), Or(Not(sel(h.ddom(table(h, s), STR, SO), e)), typename(sel(val(h, s), e)) != tf(h, s, e)))
        self.wrong = wrong

        def creq(c):
            h, s = c.old, S_(c)
            tv = sel(h.dval(table(h, s), STR, SO), k)
            return [("live", And(live(h, s), h.alloc(table(h, s)), table(h, s) != null)), ("rules", z3.ForAll([k], Implies(sel(h.ddom(table(h, s), STR, SO), k), And(tv != null, h.alloc(tv))), patterns=[tv]))]
        self.check = Contract("licant.cxx_modules:CXXModuleOptions.check", {"self": MO}, requires=creq, check_only=True,
                              ensures=lambda c: [("every-option-is-known-and-of-its-type", z3.ForAll([k], Not(wrong(c.old, S_(c), k)), patterns=[sel(dom(c.old, S_(c)), k)]))],
                              raises=[("SystemExit", bad)])
        fl = self.add(Contract("licant.cxx_modules:cxx_module_field_list", {}, ret=ANY, assumed=True, doc="the table of rules, checked by a unit of its own"))
        FL = z3.Const("table_of_rules", RefS)
        fl.apply = lambda eng, args, fv, node: V(Dict(STR, SO), FL)
        fdom, fval = (lambda h: h.ddom(FL, STR, SO)), (lambda h: h.dval(FL, STR, SO))
        self.fdom, self.fval = fdom, fval
        flive = lambda h: [("rules", And(FL != null, h.alloc(FL), z3.ForAll([k], Implies(sel(fdom(h), k), And(sel(fval(h), k) != null, h.alloc(sel(fval(h), k)))), patterns=[sel(fval(h), k)])))]
        default = lambda h, k: h.fld("solver", "default", sel(fval(h), k))
        self.defaults = Contract("licant.cxx_modules:CXXModuleOptions.set_default_if_empty", {"self": MO}, check_only=True, requires=lambda c: [("live", live(c.old, S_(c)))] + flive(c.old),
                                 modifies=lambda c: [("dict", opts(c.old, S_(c)), STR, ANY)],
                                 ensures=lambda c: [("all-options", z3.ForAll([k], sel(dom(c.new, S_(c)), k) == Or(sel(dom(c.old, S_(c)), k), sel(fdom(c.old), k)), patterns=[sel(dom(c.new, S_(c)), k)])),
                                                    ("given-options-kept", z3.ForAll([k], Implies(sel(dom(c.old, S_(c)), k), sel(val(c.new, S_(c)), k) == sel(val(c.old, S_(c)), k)), patterns=[sel(val(c.new, S_(c)), k)])),
                                                    ("defaults", z3.ForAll([k], Implies(And(sel(fdom(c.old), k), Not(sel(dom(c.old, S_(c)), k))), sel(val(c.new, S_(c)), k) == default(c.old, k)), patterns=[sel(val(c.new, S_(c)), k)]))])
        self.default = default

    def call_fn(self, eng, f, args, kwargs, node):
        """the rule of an option: its result depends on the two values, the rule and the two option sets; it changes nothing (checked for every rule below)"""
        if kwargs or len(args) != 5:
            raise Unsupported("call of a rule")
        a = [eng.to_any(args[0]), eng.to_any(args[1]), eng.to_term(args[2], SO), eng.to_term(args[3], MO), eng.to_term(args[4], MO)]
        return V(ANY, RES(f.z, *a))

    def invariants(self, c):
        """the result holds each option seen so far by its rule, and no other"""
        fa = c.eng.fn_args
        if c.done is None:
            return []
        out = []
        k = z3.Const("in_k", StrS)
        v = c.eng.verifying
        cc = CallCtx(c.eng, dict(fa), c.old, c.h)
        cc.types = v.params
        if v in self.units_:
            for nm, d in c.of_type("dict"):
                t = prune(d.t)
                if isinstance(prune(t.args[0]), TVar) or isinstance(prune(t.args[1]), TVar) or tkey(t.args[1]) != "any":
                    continue
                x = sel(c.h.dval(d.z, STR, ANY), k)
                out.append(("keys:" + nm, z3.ForAll([k], sel(c.h.ddom(d.z, STR, ANY), k) == self.seen(c, k), patterns=[sel(c.h.ddom(d.z, STR, ANY), k)])))
                out.append(("rules:" + nm, z3.ForAll([k], Implies(self.seen(c, k), x == self.want(cc, k, v.fnc)), patterns=[x])))
        elif v is self.defaults:
            z = fa["self"].z
            h, o = c.h, c.old
            D, X = self.dom(h, z), self.val(h, z)
            seen = lambda k: c.done(k)
            out.append(("set-so-far", And(z3.ForAll([k], sel(D, k) == Or(sel(self.dom(o, z), k), seen(k)), patterns=[sel(D, k)]),
                                          z3.ForAll([k], Implies(sel(D, k), sel(X, k) == If(sel(self.dom(o, z), k), sel(self.val(o, z), k), self.default(o, k))), patterns=[sel(X, k)]))))
        elif v is self.check:
            out.append(("fine-so-far", z3.ForAll([k], Implies(self.seen(c, k), Not(self.wrong(c.old, fa["self"].z, k))), patterns=[sel(self.dom(c.old, fa["self"].z), k)])))
        return out

    def seen(self, c, k):
        t = c.src.elem
        if prune(t).kind == "tup":
            # items: the pair of a key and its value
            fa = c.eng.fn_args
            mk = sort_of(t).constructor(0)
            return c.done(mk(k, sel(self.val(c.old, fa["self"].z), k)))
        return c.done(k)


class Rules(Spec):
    """the rule of each option, called on any two values"""
    schema = {"CXXModuleOptions": {}, "solver": {"type": STR, "merge": FN, "include": FN, "default": ANY}, "toolchain": {}, "submodule": {"name": STR, "impl": ANY, "addopts": ANY}}

    def setup(self):
        self.made = {}
        self.add(Contract("licant.cxx_make:default_toolchain", {}, ret=Ref("toolchain"), assumed=True, doc="some toolchain"))

        def new_solver(eng, args, kwargs, node):
            """solver.__init__ by its contract"""
            a = dict(zip(["type", "merge", "include", "default"], args))
            a.update(kwargs)
            o = V(SO, eng.fresh("solver", RefS))
            self.made[o.z.get_id()] = (o.z, a)
            return o
        self.constructors["solver"] = new_solver
        self.srcdir = None
        D, SD = z3.Const("own_directory", StrS), z3.Const("own_srcdir", StrS)

        def own_opts(eng, o):
            d = {"__dir__": V(STR, D)}
            if self.srcdir:
                d["srcdir"] = V(STR, SD)
            return KwV(d)
        self.attr_hooks[("CXXModuleOptions", "opts")] = own_opts
        expand = strfun("os.path.expanduser/1", StrS, StrS)

        def after(eng, c):
            res = c.res
            if not isinstance(res, KwV):
                raise Unsupported("the table of rules is computed")
            keys = sorted(RULES)
            lo, hi = 0, len(keys)
            while hi - lo > 1:
                m = (lo + hi) // 2
                if eng.choose():
                    lo = m
                else:
                    hi = m
            key = keys[lo]
            ty, merge, include = RULES[key]
            fnc = ("merge", "include")[eng.choose()]
            kind = merge if fnc == "merge" else include
            given = bool(eng.choose())
            self.srcdir = bool(eng.choose()) if kind in (OWNFILES, ADDFILES) and given else True
            name = "%s/%s/%s" % (key, fnc, "given" if given else "not given")
            rec = self.made.get(res.d[key].z.get_id()) if key in res.d and isinstance(res.d[key], V) else None
            eng.prove(rec is not None, "option-has-a-rule:" + key)
            if rec is None:
                return
            rule = rec[1]
            eng.prove(isinstance(rule["type"], Con) and rule["type"].v == ty, "type-of-option:" + key)
            et = PAIR if kind == HEADERS or key == "local_headers" else STR if kind in (OWNFILES, ADDFILES, ADDLOC, SUB, ADD) and key not in ("modules",) else ANY
            vt = STR if ty == "str" else List(et) if ty == "list" else Ref("toolchain")
            if kind == SUB:
                vt = List(Ref("submodule"))
            base = V(vt, z3.Const("base_value", sort_of(vt)))
            ot = List(STR) if kind == SUB else vt
            own = V(ot, z3.Const("own_value", sort_of(ot))) if given else Con(None)
            h0 = HeapView(eng, dict(eng.heap))
            for v in (base, own):
                if isinstance(v, V) and is_reflike(v.t):
                    eng.assume(And(v.z != null, h0.alloc(v.z)))
                    if ty == "list":
                        eng.assume(h0.llen(v.z) >= 0)
            tb, tl = V(MO, z3.Const("base_options", RefS)), V(MO, z3.Const("own_options", RefS))
            eng.assume(And(tb.z != null, tl.z != null, h0.alloc(tb.z), h0.alloc(tl.z)))
            # the solver object as the rules see it
            sv = res.d[key]
            self.current = rule
            r = eng.call(rule[fnc], [base, own, sv, tb, tl], {}, None)
            r = eng.force(r)
            h = HeapView(eng, eng.heap)
            same = lambda x, y: eng.to_any(x) == eng.to_any(y)
            if ty != "list":
                want = base if kind == KEEP or (kind in (OWNORBASE, TEXT) and not given) else own
                if kind == OWN and not given:
                    want = rule["default"]
                    eng.prove(isinstance(want, Con) and want.v == DEFAULTS.get(key), "default:" + name)
                if kind == TEXT and given:
                    for x in words_are(eng, eng.to_term(r, STR), [("word", [base.z]), ("word", [own.z])]) if eng.proving() else []:
                        eng.prove(x[1], "both-texts:" + name, *x[2:])
                    return
                if isinstance(vt, Type) and vt.kind == "str":
                    eng.prove(eng.to_term(r, STR) == eng.to_term(want, STR), "value:" + name)
                else:
                    eng.prove(isinstance(r, V) and r.z == want.z, "value:" + name)
                return
            j = z3.Int("ru_j")
            # the expected entries
            nb, no = h0.llen(base.z), (h0.llen(own.z) if given else z3.IntVal(0))
            if kind in (KEEP,):
                no = z3.IntVal(0)
            if kind in (OWN, OWNFILES):
                nb = z3.IntVal(0)
            if not eng.is_list(r):
                eng.prove(False, "a-list:" + name, repr(r))
                return
            rt = prune(prune(r.t).args[0])
            n = eng.list_len(r)
            eng.prove(n == nb + no, "number-of-entries:" + name)
            if not isinstance(rt, TVar):
                bt = prune(prune(base.t).args[0])
                eng.prove(tkey(rt) == tkey(bt), "kind-of-entries:" + name)
                ra = h.larr(r.z, rt)
                e = sel(ra, j)
                if tkey(rt) == tkey(bt):
                    eng.prove(z3.ForAll([j], Implies(And(0 <= j, j < nb), e == sel(h0.larr(base.z, bt), j)), patterns=[e]), "base-entries-first:" + name)
                if given and kind != KEEP:
                    ow = prune(prune(own.t).args[0])
                    x = sel(h0.larr(own.z, ow), j)
                    join = lambda *p: p[0] if len(p) == 1 else pjoin(join(*p[:-1]), p[-1])
                    y = sel(ra, nb + j)
                    if kind in (OWNFILES, ADDFILES):
                        f = Or(y == join(D, SD, expand(x)), y == pjoin(D, pjoin(SD, expand(x)))) if self.srcdir else Or(y == join(D, expand(x)), y == join(D, lit(""), expand(x)))
                    elif kind == ADDLOC:
                        f = y == join(D, expand(x))
                    elif kind == HEADERS:
                        srt = sort_of(PAIR)
                        f0, f1 = srt.accessor(0, 0), srt.accessor(0, 1)
                        f = And(f0(y) == f0(x), f1(y) == pjoin(D, f1(x)))
                    elif kind == SUB:
                        f = And(y != null, h.fld("submodule", "name", y) == x)
                    else:
                        f = y == x
                    eng.prove(z3.ForAll([j], Implies(And(0 <= j, j < no), f), patterns=[x]), "own-entries-follow:" + name)
            for v, w in ((base, "base"), (own, "own")):
                if isinstance(v, V) and v.t.kind == "list":
                    t = prune(v.t.args[0])
                    eng.prove(And(h.llen(v.z) == h0.llen(v.z), h.larr(v.z, t) == h0.larr(v.z, t)), "%s-list-unchanged:%s" % (w, name))
        self.rules = Contract("licant.cxx_modules:cxx_module_field_list", {}, check_only=True, ghost_exit=after, modifies=lambda c: [("list", None, STR), ("list", None, PAIR), ("list", None, ANY), ("list", None, Ref("submodule"))] + [("field", "submodule", k) for k in ("name", "impl", "addopts")])
        self.solver = Contract("licant.cxx_modules:solver.__init__", {"self": SO, "type": STR, "merge": FN, "include": FN, "default": ANY}, check_only=True, modifies=lambda c: [("field", "solver", k, [c.t("self")]) for k in ("type", "merge", "include", "default")],
                               ensures=lambda c: [(k, c.new.fld("solver", k, c.t("self")) == c.t(k)) for k in ("type", "merge", "include", "default")])
        self.attr_hooks[("solver", "default")] = lambda eng, o: eng.force(self.made[o.z.get_id()][1]["default"])

    def invariants(self, c):
        return []


SLOW = ()
ASSUMPTIONS = ["the base of a combination holds known options (it was made by CXXModuleOptions and completed with defaults)", "file lists are given as lists (a single name instead of a list is not considered)",
               "options beyond those known today are not covered"]
TRUSTED = ["the rule called by merge is a function of its arguments (each rule is checked to change neither value)"]


def units(prog):
    m, r = Merge(prog), Rules(prog)
    return [(m, m.units_ + [m.check, m.defaults]), (r, [r.rules, r.solver])]
