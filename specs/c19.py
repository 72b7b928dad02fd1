"""C19: each source is compiled by the right compiler with exactly its options."""
from .cxx_common import *

TC = Ref("toolchain")
OPT = Ref("options")
FTR = Ref("FileTarget", True)
CXX = ("cpp", "cxx", "cc")
CC = ("c", "asm", "s", "S")
RULES = ("execrule", "dynlibrule", "statlibrule", "cxxobjrule", "ccobjrule", "cxxdeprule", "ccdeprule", "mocrule", "uicrule")
LISTS = ("include_paths", "defines", "ldscripts", "libdirs", "libs")
STRS = ("cxxstd", "ccstd", "debug", "cxx_flags", "cc_flags", "ld_flags", "optimize")
START, END = "-Wl,--start-group", "-Wl,--end-group"


class S(Spec):
    schema = {"options": dict({"toolchain": TC, "incopt": STR, "defopt": STR, "ldscripts": STR, "cxx_flags": STR, "cc_flags": STR, "ld_flags": STR, "ld_srcs_add": STR, "optimize": STR}, **{k: STR for k in RULES}),
              "toolchain": {k: ANY for k in ("cc", "cxx", "ld", "ar", "objdump", "objcopy", "moc", "uic")},
              "Core": core_schema["Core"], "Target": core_schema["Target"], "FileTarget": {},
              "Executor": {"rule": STR, "msgfield": STR}, "CXXModuleOptions": {}}
    ghosts = {"made": I, "added": I, "tgt": StrS, "build": RefS, "result": RefS}

    def setup(self):
        o = lambda c: c.t("self")
        f = lambda c, k: c.new.fld("options", k, o(c))

        def given(c, k, path=None):
            """(length, entry) of a list that may be missing"""
            lst = c.t(k, Opt(List(STR)))
            h = c.old
            return lst

        def each(c, pre, k):
            h = c.old
            z = c.t(k, Opt(List(STR)))
            return ("each", pre, If(z == null, 0, h.llen(z)), lambda j: sel(h.larr(z, STR), j))

        def each_l(h, pre, z, m=lambda x: x):
            return ("each", pre, h.llen(z), lambda j: m(sel(h.larr(z, STR), j)))

        def check(c, attr, expected):
            r = words_are(c.eng, f(c, attr), expected)
            return [("%s: %s" % (attr, x[0]), x[1]) for x in r]

        def const(c, z):
            return lit_text(z3.simplify(z))

        def rules(c):
            out = []

            def rule(attr, *a, **k):
                t = const(c, f(c, attr))
                e = "computed" if t is None else rule_is(t, *a, **k)
                out.append(("%s runs the right command" % attr + (": " + e if e else ""), z3.BoolVal(e is None)))
            tc = "{opts.toolchain.%s}"
            for lang, comp in (("cxx", "cxx"), ("cc", "cc")):
                fl = "{opts.%s_flags}" % lang
                rule(lang + "objrule", tc % comp, ["{opts.incopt}", "{opts.defopt}", fl, "{opts.optimize}"], [("-c", "{src}"), ("-o", "{tgt}")])
                rule(lang + "deprule", tc % comp, ["{opts.incopt}", "{opts.defopt}", fl], [("-MM", "{src}"), (">", "{tgt}")], optional=("{opts.optimize}",))
            rule("execrule", tc % "cxx", ["{opts.ld_flags}", "{srcs}", "{opts.ld_srcs_add}", "{opts.ldscripts}"], [("-o", "{tgt}")], optional=(START, END))
            rule("dynlibrule", tc % "cxx", ["{opts.ld_flags}", "{srcs}", "{opts.ld_srcs_add}", "{opts.ldscripts}"], [("-o", "{tgt}")], fixed=("--shared" if "--shared" in (const(c, f(c, "dynlibrule")) or "") else "-shared",), optional=(START, END))
            rule("statlibrule", tc % "ar", ["{srcs}"], [("rcs", "{tgt}")])
            return out
        lists = {k: Opt(List(STR)) for k in ("include_paths", "defines", "ldscripts")}
        live = lambda c: [("live-" + k, Or(c.t(k, Opt(List(STR))) == null, And(c.old.alloc(c.t(k, Opt(List(STR)))), c.old.llen(c.t(k, Opt(List(STR)))) >= 0))) for k in lists]

        def opt_ens(c):
            out = check(c, "incopt", [each(c, "-I", "include_paths")]) + check(c, "defopt", [each(c, "-D", "defines")]) + check(c, "ldscripts", [each(c, "-T", "ldscripts")])
            for k in ("cxx_flags", "cc_flags", "ld_flags", "ld_srcs_add", "optimize"):
                out.append((k + " as given", f(c, k) == c.t(k)))
            tc = c.t("toolchain", Opt(TC))
            out.append(("toolchain as given", Implies(tc != null, f(c, "toolchain") == tc)))
            return out + rules(c)
        mods = lambda c: [("field", "options", k, [o(c)]) for k in self.schema["options"]] + [("field", "toolchain", k, "new") for k in self.schema["toolchain"]] + [("list", "new", STR)]
        fresh_self = lambda c: [("self", o(c) != null)]
        self.globals["licant.cxx_make:DEFAULT_TOOLCHAIN"] = STR
        self.opt_init = Contract("licant.cxx_make:options.__init__",
                                 dict({"self": Ref("options", True), "toolchain": Opt(TC)}, **dict(lists, **{k: STR for k in ("cxx_flags", "cc_flags", "ld_flags", "ld_srcs_add", "optimize")})),
                                 requires=live, ensures=opt_ens, modifies=mods, raises=[("Exception", lambda c: c.t("toolchain", Opt(TC)) == null)], check_only=True)

        # ---------------------------------------------------- from the options of a module
        self.mo = {}

        def mo_opts(eng, ob):
            if not self.mo or self.mo.get("eng") is not eng:
                self.mo = {"eng": eng}
                for k in LISTS:
                    self.mo[k] = V(List(STR), z3.Const("mo_" + k, RefS))
                for k in STRS:
                    self.mo[k] = V(STR, z3.Const("mo_" + k, StrS))
                self.mo["toolchain"] = V(TC, z3.Const("mo_toolchain", RefS))
            return KwV({k: v for k, v in self.mo.items() if k != "eng"})
        self.attr_hooks[("CXXModuleOptions", "opts")] = mo_opts
        mz = lambda k: z3.Const("mo_" + k, StrS if k in STRS else RefS)

        def mo_req(c):
            return [("live-" + k, And(mz(k) != null, c.old.alloc(mz(k)), c.old.llen(mz(k)) >= 0)) for k in LISTS] + [("toolchain", And(mz("toolchain") != null, c.old.alloc(mz("toolchain"))))]

        def mo_ens(c):
            r = c.rt()
            h, o = c.new, c.old
            g = lambda k: h.fld("options", k, r)
            out = []

            def chk(attr, expected):
                for x in words_are(c.eng, g(attr), expected):
                    out.append(("%s: %s" % (attr, x[0]), x[1]))
            chk("incopt", [each_l(o, "-I", mz("include_paths"))])
            chk("defopt", [each_l(o, "-D", mz("defines"))])
            chk("ldscripts", [each_l(o, "-T", mz("ldscripts"))])
            for lang in ("cxx", "cc"):
                chk(lang + "_flags", [("word", ["-std=", mz(lang + "std")]), ("word", [mz("debug")]), ("word", [mz(lang + "_flags")])])
            chk("ld_srcs_add", [each_l(o, "-L", mz("libdirs"), expanduser), each_l(o, "-l", mz("libs"))])
            chk("ld_flags", [("word", [mz("ld_flags")])])
            chk("optimize", [("word", [mz("optimize")])])
            out.append(("toolchain", g("toolchain") == mz("toolchain")))
            return out
        self.from_mod = Contract("licant.cxx_modules:cxx_options_from_modopts", {"modopts": Ref("CXXModuleOptions")}, ret=OPT, requires=mo_req, ensures=mo_ens, check_only=True,
                                 modifies=lambda c: [("field", "options", k, "new") for k in self.schema["options"]] + [("list", "new", STR)])

        # ---------------------------------------------------- one target per source
        def new_ft(eng, args, kwargs, node):
            """FileTarget.__init__: a file target with these values"""
            a = dict(zip(["tgt", "deps", "force", "use_dirkeep"], args))
            a.update(kwargs)
            v = eng.verifying
            h = HeapView(eng, eng.heap)
            t = eng.alloc("FileTarget", FTR)
            eng.prove(eng.ghost("made") == 0, "one-target")
            eng.set_ghost("made", eng.ghost("made") + 1)
            want = self.want[v.key] if v.key in self.want else None
            if want is not None:
                want(eng, a, h)
            eng.set_ghost("tgt", eng.to_term(a["tgt"], STR))
            eng.set_ghost("result", t.z)
            return t
        self.constructors["FileTarget"] = new_ft

        def add(eng, ob, args, kwargs, node, func=None):
            t = args[0] if args else kwargs["target"]
            eng.prove(And(eng.ghost("added") == 0, eng.to_term(t, T) == eng.ghost("result")), "the-target-is-added-once")
            eng.prove(ob.z == eng.fn_args["core"].z, "to-the-given-core")
            eng.set_ghost("added", eng.ghost("added") + 1)
            return t
        self.virtuals[("Core", "add")] = add
        self.want = {}

        def rule_of(eng, b):
            ok = isinstance(b, V) and prune(b.t).kind == "ref" and prune(b.t).args[0] == "Executor"
            eng.prove(ok, "made-by-a-command")
            if not ok:
                raise PathEnd()
            return eng.to_term(eng.get_attr(b, "rule"), STR)

        def same_list(h, l, z):
            return Or(l == z, And(h.llen(l) == h.llen(z), z3.ForAll([J], Implies(And(0 <= J, J < h.llen(z)), sel(h.larr(l, STR), J) == sel(h.larr(z, STR), J)))))

        def is_ext(src, exts):
            return Or(*[lastpart(basename(src)) == lit(e) for e in exts])

        def lang_of(c_type, src):
            """(C++, C) from the given type or the extension"""
            none = c_type is None
            if none:
                return is_ext(src, CXX), is_ext(src, CC)
            return c_type == lit("cxx"), Or(c_type == lit("cc"), c_type == lit("asm"))

        def compile_(key, kind, extra=None):
            def want(eng, a, h):
                fa = eng.fn_args
                src, opts = fa["src"].z, fa["opts"].z
                ty = fa["type"].z if isinstance(fa["type"], V) else None
                cxx, cc = lang_of(ty, src)
                h = HeapView(eng, eng.heap)
                rule = rule_of(eng, a.get("build"))
                fl = lambda k: h.fld("options", k, opts)
                eng.prove(Or(cxx, cc), "known-language")
                eng.prove(rule == If(cxx, fl("cxx" + kind), fl("cc" + kind)), "by-the-rule-of-its-language")
                eng.prove(eng.to_term(a["src"], STR) == src, "its-source")
                eng.prove(eng.to_term(a["tgt"], STR) == fa["tgt"].z, "its-target")
                eng.prove(eng.to_term(a["opts"], OPT) == opts, "with-the-given-options")
                d = eng.to_term(a["deps"], List(STR))
                if isinstance(fa["deps"], V):
                    eng.prove(same_list(h, d, fa["deps"].z), "given-dependencies")
                else:
                    eng.prove(And(h.llen(d) == 1, sel(h.larr(d, STR), 0) == src), "depends-on-its-source")
                if "force" in fa.get("kwargs", KwV({})).d:
                    eng.prove("force" in a and eng.to_term(a["force"], BOOL) == fa["kwargs"].d["force"].z, "forced-as-asked")
            for ti, ty in enumerate((lambda eng: Con(None), STR)):
                for di, de in enumerate((lambda eng: Con(None), List(STR))):
                    p = {"src": STR, "tgt": STR, "opts": OPT, "type": ty, "deps": de, "core": CORE, "message": STR}
                    if extra:
                        p["kwargs"] = extra
                    bad = lambda c, ty=ty: Not(Or(*lang_of(c.t("type") if ty is STR else None, c.t("src"))))
                    c = Contract(key, p, ret=T, check_only=True, requires=lambda c, de=de: [("start", And(c.old.ghost("made") == 0, c.old.ghost("added") == 0)), ("live", And(c.t("opts") != null, c.old.alloc(c.t("opts")), c.t("core") != null, c.old.alloc(c.t("core"))))] + ([("live-deps", And(c.t("deps") != null, c.old.alloc(c.t("deps"))))] if True in [isinstance(de, Type)] else []),
                                 ensures=lambda c: [("one-target-added", And(c.new.ghost("made") == 1, c.new.ghost("added") == 1)), ("answered", c.rt() == c.new.ghost("result"))],
                                 raises=[("SystemExit", bad, lambda c: [("nothing-added", c.new.ghost("added") == 0)])],
                                 modifies=lambda c: [("ghost", g) for g in self.ghosts] + [("field", "Executor", k, "new") for k in ("rule", "msgfield")] + [("list", "new", STR)])
                    c.exact_raises = ("SystemExit",)
                    self.units_.append(c)
            self.want[key] = want
        self.units_ = []
        compile_("licant.cxx_make:object", "objrule")
        fk = lambda eng: KwV({"force": V(BOOL, z3.Const("kw_force", B))})
        compile_("licant.cxx_make:depend", "deprule", fk)

        def link(key, attr):
            def want(eng, a, h):
                fa = eng.fn_args
                h = HeapView(eng, eng.heap)
                rule = rule_of(eng, a.get("build"))
                srcs, opts = fa["srcs"].z, fa["opts"].z
                eng.prove(rule == h.fld("options", attr, opts), "by-the-rule-of-its-kind")
                eng.prove(eng.to_term(a["opts"], OPT) == opts, "with-the-given-options")
                eng.prove(eng.to_term(a["tgt"], STR) == fa["tgt"].z, "its-target")
                eng.prove(same_list(h, eng.to_term(a["deps"], List(STR)), srcs), "depends-on-its-sources")
                for x in words_are(eng, eng.to_term(a["srcs"], STR), [("each", "", h.llen(srcs), lambda j: sel(h.larr(srcs, STR), j))]):
                    eng.prove(x[1], "sources-in-order: " + x[0], *x[2:])
            c = Contract(key, {"tgt": STR, "srcs": List(STR), "opts": OPT, "core": CORE, "message": STR}, ret=T, check_only=True,
                         requires=lambda c: [("start", And(c.old.ghost("made") == 0, c.old.ghost("added") == 0)), ("live", And(c.t("opts") != null, c.old.alloc(c.t("opts")), c.t("core") != null, c.old.alloc(c.t("core")), c.t("srcs") != null, c.old.alloc(c.t("srcs")), c.old.llen(c.t("srcs")) >= 0))],
                         ensures=lambda c: [("one-target-added", And(c.new.ghost("made") == 1, c.new.ghost("added") == 1)), ("answered", c.rt() == c.new.ghost("result"))],
                         modifies=lambda c: [("ghost", g) for g in self.ghosts] + [("field", "Executor", k, "new") for k in ("rule", "msgfield")] + [("list", "new", STR)])
            self.want[key] = want
            self.units_.append(c)
        link("licant.cxx_make:executable", "execrule")
        link("licant.cxx_make:dynamic_library", "dynlibrule")
        link("licant.cxx_make:static_library", "statlibrule")

    def hook_str_method(self, eng, name, recv, args, kwargs, node):
        """whatever way a name is split at dots, the last part is the text after its last dot (all of it without a dot)"""
        if name in ("split", "rsplit", "rpartition") and args and isinstance(args[0], Con) and args[0].v == "." and not kwargs:
            z = eng.to_term(recv, STR)
            if name == "rpartition":
                return Tup([V(STR, eng.fresh("head", StrS)), V(STR, eng.fresh("sep", StrS)), V(STR, lastpart(z))])
            if name == "split" and len(args) > 1:
                return None
            l = eng.alloc("list", List(STR))
            n, arr = eng.fresh("parts", I), eng.fresh("part", z3.ArraySort(I, StrS))
            eng.assume(And(n >= 1, sel(arr, n - 1) == lastpart(z)))
            eng.list_write(l, n, arr)
            return l
        return None


SLOW = ()
ASSUMPTIONS = ["names and options hold no blanks of their own (an option with blanks is several words)", "a value in a module's options has the type check() asks for"]
TRUSTED = ["str.join, str.split and string concatenation"]


def units(prog):
    s = S(prog)
    return [(s, [s.opt_init, s.from_mod] + s.units_)]
