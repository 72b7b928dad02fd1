"""C13: the missing directories of a file to be made are registered and become its dependencies."""
import shlex
import string
from .common import *

normpath = strfun("os.path.normpath/1", StrS, StrS)
dirname = strfun("os.path.dirname/1", StrS, StrS)
expand = strfun("os.path.expanduser/1", StrS, StrS)
quoted = strfun("shlex.quote/1", StrS, StrS)
depth = z3.Function("number_of_path_components", StrS, I)
FT = Ref("FileTarget")
MC = Ref("MakeCore", True)
EXC = Ref("Executor", True)
DK = Ref("DirectoryKeeper", True)
FILE = Ref("File", True)
AB = z3.ArraySort(StrS, B)


def PAR(p):
    return normpath(dirname(p))


class S(Spec):
    """registration in a file core"""
    schema = {k: dict(v) for k, v in core_schema.items()}
    schema["FileTarget"] = {"build": FN, "force": BOOL, "isfile": BOOL, "quoted_tgt": STR, "clrmsg": STR, "$path": STR, "quoted_src": STR, "src": STR, "content": STR, "message": STR}
    schema["Target"].update({"clr": ANY, "dirkeep": ANY})
    schema["Executor"] = {"rule": STR, "msgfield": STR}
    schema["DirectoryKeeper"] = {"msgfield": STR}
    schema["File"] = {"path": STR}
    ext_classes = ("File",)
    ghosts = {"disk_ex": AB, "written": StrS, "writes": I, "dirs": I}

    def missing(self, h, p):
        return Not(sel(h.ghost("disk_ex"), PAR(p)))

    def isdir(self, eng, t):
        return eng.isinst(t, "DirectoryTarget")

    def reg(self, h, core, n):
        return sel(h.dval(targets(h, core), STR, T), n)

    def complete(self, eng, h, core):
        """every registered directory with a missing parent depends on its parent, which is registered"""
        n, i = z3.Const("co_n", StrS), z3.Int("co_i")
        t = self.reg(h, core, n)
        q = h.fld("FileTarget", "$path", t)
        d = deps_of(h, t)
        return ("directories-complete", z3.ForAll([n], Implies(And(has_exact(h, core, n), self.isdir(eng, t), self.missing(h, q)), And(exists_(h, core, PAR(q)), h.llen(d) >= 1, sel(h.larr(d, STR), 0) == PAR(q))), patterns=[t]))

    def kept(self, c, but=None):
        core = c.t("self")
        n = z3.Const("ke_n", StrS)
        o, h = c.old, c.new
        g = And(has_exact(h, core, n), self.reg(h, core, n) == self.reg(o, core, n))
        return ("other-registrations-kept", z3.ForAll([n], Implies(And(has_exact(o, core, n), BoolVal_(True) if but is None else n != but), g), patterns=[self.reg(h, core, n), has_exact(o, core, n)]))

    def setup(self):
        self.add(canonical_path_contract(), error_contract(), get_contract())
        S_ = lambda c: c.t("self")
        n = z3.Const("dk_n", StrS)
        i = z3.Int("dk_i")
        self.add(Contract("licant.core:Core.has", {"self": CORE, "tgt": STR}, ret=BOOL, requires=lambda c: wf_core(c.old, S_(c)), ensures=lambda c: [("answers-whether-a-lookup-succeeds", c.rt() == exists_(c.old, S_(c), c.t("tgt")))], doc="C10"))

        def add_ens(c):
            core, t = S_(c), c.t("target")
            m, h = targets(c.old, core), c.new
            nm = c.old.fld("Target", "tgt", t)
            return [("registered", And(targets(h, core) == m, h.ddom(m, STR, T) == z3.Store(c.old.ddom(m, STR, T), nm, True), h.dval(m, STR, T) == z3.Store(c.old.dval(m, STR, T), nm, t))), ("returned", c.rt() == t)]
        self.add(Contract("licant.core:Core.add", {"self": CORE, "target": T}, ret=T, requires=lambda c: wf_core(c.old, S_(c)), ensures=add_ens, doc="C10",
                          modifies=lambda c: [("dict", targets(c.old, S_(c)), STR, T), ("field", "Target", "core", [c.t("target")]), ("list", c.old.fld("Core", "help_showed_targets", S_(c)), T)]))

        def ext_exists(eng, recv, args, kwargs, node):
            """tells whether the path exists now"""
            return V(BOOL, sel(eng.ghost("disk_ex"), eng.to_term(args[0], STR)))
        self.externals["os.path.exists"] = ext_exists

        def new_file(cls):
            def f(eng, args, kwargs, node):
                """FileTarget.__init__ by its contract"""
                a = dict(zip(["tgt", "deps", "force", "use_dirkeep"], args))
                a.update(kwargs)
                if cls == "FileTarget" or cls == "DirectoryTarget":
                    k = a.get("use_dirkeep")
                    eng.prove(isinstance(k, Con) and not k.v, "directories-are-registered-in-this-core")
                p = eng.to_term(a["tgt"], STR)
                o = eng.alloc(cls, Ref(cls))
                eng.assume(cls_of(o.z) == eng.class_id(cls))
                eng.hwrite("f:Target.tgt", STR, o.z, canon(p))
                eng.hwrite("f:FileTarget.$path", STR, o.z, p)
                d = a["deps"]
                eng.hwrite("f:Target.deps", List(STR), o.z, eng.to_term(d, List(STR)))
                eng.hwrite("f:FileTarget.quoted_tgt", STR, o.z, quoted(canon(p)))
                for k in ("quoted_src", "src", "content"):
                    if k in a:
                        eng.hwrite("f:FileTarget." + k, STR, o.z, eng.to_term(a[k], STR))
                b = a.get("build")
                eng.prove(b is not None, "has-a-build-action")
                heap = dict(eng.heap)
                self.check_build(eng, cls, o, b, p)
                eng.heap.clear()
                eng.heap.update(heap)
                return o
            return f
        for cls in ("FileTarget", "DirectoryTarget"):
            self.constructors[cls] = new_file(cls)

        help_ = lambda h, core: h.fld("Core", "help_showed_targets", core)

        def core_ok(h, core):
            m = self.reg(h, core, n)
            return wf_core(h, core) + [("help-list-apart", And(help_(h, core) != null, h.alloc(help_(h, core)), z3.ForAll([n], Implies(has_exact(h, core, n), deps_of(h, m) != help_(h, core)), patterns=[m])))]
        req = lambda c: core_ok(c.old, S_(c)) + [self.complete(c.eng, c.old, S_(c))]
        mods = lambda c: [("dict", targets(c.old, S_(c)), STR, T), ("field", "Target", "core", "new"), ("field", "Target", "tgt", "new"), ("field", "Target", "deps", "new"), ("list", c.old.fld("Core", "help_showed_targets", S_(c)), T), ("list", "new", STR),
                          ("list", "new", T)] + [("field", "FileTarget", k, "new") for k in ("$path", "quoted_tgt", "quoted_src", "src", "content")] + [("field", "Target", k, "new") for k in ("clr", "dirkeep")] + [("ghost", "writes"), ("ghost", "written"), ("field", "File", "path", "new")] + [("field", "Executor", k, "new") for k in ("rule", "msgfield")] + [("field", "DirectoryKeeper", "msgfield", "new")]

        def isnew(c, n):
            return And(has_exact(c.new, S_(c), n), Not(has_exact(c.old, S_(c), n)))

        def dir_shape(c, t):
            """a directory target as it must be"""
            h = c.new
            q = h.fld("FileTarget", "$path", t)
            d = deps_of(h, t)
            return And(self.isdir(c.eng, t), Not(sel(h.ghost("disk_ex"), q)), h.fld("Target", "tgt", t) == canon(q), h.alloc(d),
                       If(self.missing(h, q), And(h.llen(d) == 1, sel(h.larr(d, STR), 0) == PAR(q)), h.llen(d) == 0))

        def dirs(c, path):
            h, core = c.new, S_(c)
            t = self.reg(h, core, n)
            return [self.kept(c), self.complete(c.eng, h, core), ("its-directory-is-registered", Implies(self.missing(c.old, path), exists_(h, core, PAR(path)))),
                    ("new-are-missing-directories", z3.ForAll([n], Implies(isnew(c, n), dir_shape(c, t)), patterns=[t])),
                    ("wf", And(*[g for _, g in core_ok(h, core)]))]

        def dk_ens(c):
            p, r = c.t("path"), c.rt()
            h = c.new
            return dirs(c, p) + [("its-directory-if-missing", If(self.missing(c.old, p), And(h.llen(r) == 1, sel(h.larr(r, STR), 0) == PAR(p)), h.llen(r) == 0)), ("answer-live", And(r != null, h.alloc(r), Not(c.old.alloc(r)))),
                                 ("nothing-registered-if-it-exists", Implies(Not(self.missing(c.old, p)), And(h.ddom(targets(c.old, S_(c)), STR, T) == c.old.ddom(targets(c.old, S_(c)), STR, T), h.dval(targets(c.old, S_(c)), STR, T) == c.old.dval(targets(c.old, S_(c)), STR, T))))]
        self.dk = self.add(Contract("licant.make:MakeCore.dirkeep", {"self": MC, "path": STR}, ret=List(STR), requires=req, modifies=mods, ensures=dk_ens))
        self.dk.decreases = lambda c: depth(c.t("path"))
        p = z3.Const("ax_p", StrS)
        # the climb ends: "/" and "." exist, every other directory name has fewer components
        self.axioms = [z3.ForAll([p], depth(p) >= 0, patterns=[depth(p)])]
        self.dk_climb = lambda c: ("climbing", z3.ForAll([p], Implies(self.missing(c.old, p), depth(PAR(p)) < depth(p)), patterns=[PAR(p)]))
        self.dk.requires = lambda c: req(c) + [self.dk_climb(c)]

        def top(key, params, main, extra_deps, doc, pre=lambda c: []):
            """a file is registered, after its directories"""
            def ens(c):
                h, core, t = c.new, S_(c), c.rt()
                path = expand(c.t(main))
                e = sel(h.larr(deps_of(h, t), STR), i)
                user, lo = c.t("deps"), c.old
                x = z3.Const("te_x", StrS)
                k = z3.Int("te_k")
                D, ln, arr = deps_of(h, t), h.llen(deps_of(h, t)), h.larr(deps_of(h, t), STR)
                # lists joined in any order: the declared ones stand together, the added ones before or behind them
                N = len(extra_deps) + 1
                isdep = lambda v: Or(*[And(0 <= z, z < ln, sel(arr, z) == v) for z in list(range(N)) + [ln - 1 - m for m in range(N)]])
                at = lambda k, v: Or(*[And(k + m < ln, sel(arr, k + m) == v) for m in range(N + 1)])
                tn = self.reg(h, core, n)
                return [("registered-under-its-path", And(t != null, has_exact(h, core, canon(path)), self.reg(h, core, canon(path)) == t, h.fld("FileTarget", "$path", t) == path, cls_of(t) == c.eng.class_id("FileTarget"))),
                        ("declared-dependencies", z3.ForAll([k], Implies(And(0 <= k, k < lo.llen(user)), at(k, sel(lo.larr(user, STR), k))), patterns=[sel(lo.larr(user, STR), k)]))] + \
                       [("depends-on-" + nm, isdep(g(c))) for nm, g in extra_deps] + \
                       [("depends-on-its-directory-if-missing", Implies(self.missing(c.old, path), And(isdep(PAR(path)), Or(exists_(h, core, PAR(path)))))),
                        ("no-other-dependency", z3.ForAll([i], Implies(And(0 <= i, i < h.llen(deps_of(h, t))), Or(*[And(0 <= i - m, i - m < lo.llen(user), e == sel(lo.larr(user, STR), i - m)) for m in range(N + 1)], And(self.missing(c.old, path), e == PAR(path)), *[e == g(c) for nm, g in extra_deps])), patterns=[e])),
                        self.kept(c, canon(path)), self.complete(c.eng, h, core),
                        ("new-are-missing-directories", z3.ForAll([n], Implies(And(isnew(c, n), n != canon(path), *[n != canon(g(c)) for nm, g in extra_deps]), dir_shape(c, tn)), patterns=[tn]))]
            return self.add(Contract(key, params, ret=T, requires=lambda c: self.dk.requires(c) + [("deps", And(c.old.alloc(c.t("deps")), c.t("deps") != null, c.t("deps") != help_(c.old, S_(c)))), ("not-a-directory-target", Implies(has_exact(c.old, S_(c), canon(expand(c.t(main)))), Not(self.isdir(c.eng, self.reg(c.old, S_(c), canon(expand(c.t(main))))))))] + pre(c), modifies=mods, ensures=ens, check_only=True))
        self.touch = top("licant.make:MakeCore.touch", {"self": MC, "out": STR, "content": STR, "deps": List(STR)}, "out", [], "")
        src = lambda c: expand(c.t("src"))
        self.copy = top("licant.make:MakeCore.copy", {"self": MC, "src": STR, "dst": STR, "deps": List(STR), "message": STR}, "dst", [("its-source", src)], "",
                        lambda c: [("expanded", expand(src(c)) == src(c))])
        self.ftf = top("licant.make:MakeCore.ftarget", {"self": MC, "tgt": STR, "build": FN, "deps": List(STR), "exec": lambda eng: Con(None), "message": STR}, "tgt", [], "")
        self.fte = top("licant.make:MakeCore.ftarget", {"self": MC, "tgt": STR, "build": lambda eng: Con(None), "deps": List(STR), "exec": STR, "message": STR}, "tgt", [], "")

        def src_ens(c):
            h, core, t = c.new, S_(c), c.rt()
            s = expand(c.t("src"))
            had = exists_(c.old, core, c.t("src"))
            return [self.kept(c), self.complete(c.eng, h, core), ("wf", And(*[g for _, g in core_ok(h, core)])),
                    ("nothing-else", z3.ForAll([n], Implies(isnew(c, n), And(n == canon(s), Not(had))), patterns=[self.reg(h, core, n)])),
                    ("registered", If(had, t == lookup(c.old, core, c.t("src")), And(has_exact(h, core, canon(s)), self.reg(h, core, canon(s)) == t, h.llen(deps_of(h, t)) == 0)))]
        # a source is registered unless something is registered under its name already; it replaces nothing
        self.source = self.add(Contract("licant.make:MakeCore.source", {"self": MC, "src": STR}, ret=T, modifies=mods, ensures=src_ens,
                                        requires=lambda c: req(c) + [("expanded", expand(c.t("src")) == c.t("src"))]))
        self.makedir = None

    # ------------------------------------------------------------ what the build actions do
    def check_build(self, eng, cls, o, b, p):
        v = eng.verifying
        if cls == "DirectoryTarget":
            ok = isinstance(b, V) and prune(b.t).kind == "ref" and prune(b.t).args[0] == "DirectoryKeeper"
            eng.prove(ok, "a-directory-is-made-by-a-directory-keeper")
            return
        h = HeapView(eng, eng.heap)
        if v is self.touch:
            eng.set_ghost("writes", z3.IntVal(0))
            eng.call(b, [o], {}, None)
            eng.prove(And(eng.ghost("writes") == 1, eng.ghost("written") == eng.fn_args["content"].z), "writes-the-given-text-to-its-file")
        elif v is self.copy:
            rule = self.rule_of(eng, b)
            self.check_cp(eng, rule, o)
        elif v is self.ftf:
            eng.prove(isinstance(b, V) and prune(b.t).kind == "fn" and z3.is_true(z3.simplify(b.z == eng.fn_args["build"].z)), "made-by-the-given-function")
        elif v is self.fte:
            eng.prove(eng.to_term(self.rule_of(eng, b), STR) == eng.fn_args["exec"].z, "made-by-the-given-command")

    def rule_of(self, eng, b):
        ok = isinstance(b, V) and prune(b.t).kind == "ref" and prune(b.t).args[0] == "Executor"
        eng.prove(ok, "made-by-a-command")
        if not ok:
            raise PathEnd()
        return eng.get_attr(b, "rule")

    def check_cp(self, eng, rule, o):
        """the command is cp, given the source and the target by their quoted names"""
        if not isinstance(rule, Con):
            raise Unsupported("computed command")
        text, vals = "", []
        for lit_, field, spec, conv in string.Formatter().parse(rule.v):
            text += lit_
            if field is not None:
                text += "\x01%d\x01" % len(vals)
                vals.append(field if not spec and conv is None else None)
        toks = shlex.split(text)
        k = toks.index("--") if "--" in toks else -1
        ok = toks[:1] == ["cp"] and k > 0 and len(toks) == k + 3 and "'" not in text and not any(x in text for x in ";|&<>`$*?()\n\"") and all(x in ("-f", "-p", "-v") for x in toks[1:k])
        eng.prove(ok, "copies-one-file", rule.v)
        if not ok:
            raise PathEnd()
        vs = []
        for x in toks[k + 1:]:
            eng.prove(x.startswith("\x01") and x.endswith("\x01") and x.count("\x01") == 2 and vals[int(x[1:-1])] is not None, "named-by-a-value")
            vs.append(eng.to_term(eng.get_attr(o, vals[int(x[1:-1])]), STR))
        eng.prove(vs[0] == quoted(expand(eng.fn_args["src"].z)), "copies-the-source")
        h = HeapView(eng, eng.heap)
        eng.prove(vs[1] == quoted(h.fld("Target", "tgt", o.z)), "to-the-target")

    def __init__(self, prog):
        Spec.__init__(self, prog)

        def ext_open(eng, recv, args, kwargs, node):
            """opens the named file; with mode w it is emptied"""
            mode = args[1] if len(args) > 1 else kwargs.get("mode")
            eng.prove(isinstance(mode, Con) and mode.v in ("w", "w+", "wt"), "opened-for-writing-anew")
            f = eng.alloc("File", FILE)
            eng.hwrite("f:File.path", STR, f.z, eng.to_term(args[0], STR))
            h = HeapView(eng, eng.heap)
            self.cur = f
            return f

        def ext_write(eng, recv, args, kwargs, node):
            """writes the text"""
            h = HeapView(eng, eng.heap)
            eng.set_ghost("writes", eng.ghost("writes") + 1)
            eng.set_ghost("written", eng.to_term(args[-1], STR))
            f = recv if recv is not None else args[0]
            t = getattr(self, "cur_target", None)
            eng.prove(h.fld("File", "path", f.z) == eng.to_term(self.cur_name(eng), STR), "writes-its-own-file")
            return V(INT, eng.fresh("written_n", I))
        self.externals.update({"builtins.open": ext_open, "File.write": ext_write, "File.__enter__": lambda eng, r, a, k, n: a[0] if a else r, "File.__exit__": lambda eng, r, a, k, n: Con(None), "File.close": lambda eng, r, a, k, n: Con(None)})

    def cur_name(self, eng):
        return V(STR, canon(expand(eng.fn_args["out"].z)))


def BoolVal_(x):
    return z3.BoolVal(x)


class K(Spec):
    """the directory keeper"""
    schema = {k: dict(v) for k, v in core_schema.items()}
    schema["DirectoryKeeper"] = {"msgfield": STR}
    ghosts = {"disk_ex": AB, "recorded": AB}

    def setup(self):
        tgt = lambda h, t: h.fld("Target", "tgt", t)
        tt = Ref("DirectoryTarget")

        def makedirs(eng, recv, args, kwargs, node):
            """afterwards the path and the directories above it exist"""
            p = eng.to_term(args[0], STR)
            e = kwargs.get("exist_ok")
            eng.prove(isinstance(e, Con) and e.v is True, "no-failure-if-it-was-made-meanwhile")
            old = eng.ghost("disk_ex")
            new = eng.fresh("disk_ex", AB)
            x = z3.Const("mk_x", StrS)
            eng.assume(And(sel(new, p), z3.ForAll([x], Implies(sel(old, x), sel(new, x)), patterns=[sel(new, x)])))
            eng.set_ghost("disk_ex", new)
            return Con(None)
        self.externals["os.makedirs"] = makedirs
        self.externals["os.path.exists"] = lambda eng, r, a, k, n: V(BOOL, sel(eng.ghost("disk_ex"), eng.to_term(a[0], STR)))
        rec = lambda eng, o, *a: V(BOOL, sel(eng.ghost("recorded"), tgt(HeapView(eng, eng.heap), o.z)))
        self.virtuals[("FileTarget", "exists")] = rec
        self.virtuals[("FileTarget", "is_exist")] = rec

        def upd(eng, o, *a):
            n = tgt(HeapView(eng, eng.heap), o.z)
            eng.set_ghost("recorded", z3.Store(eng.ghost("recorded"), n, sel(eng.ghost("disk_ex"), n)))
            return Con(None)
        self.virtuals[("FileTarget", "update_info")] = upd
        t = lambda c: c.old.fld("Target", "tgt", c.t("target"))
        x = z3.Const("kk_x", StrS)
        self.keep = Contract("licant.make:DirectoryKeeper.__call__", {"self": DK, "target": tt, "kwargs": lambda eng: KwV({})}, check_only=True, ret=ANY,
                             modifies=lambda c: [("ghost", "disk_ex"), ("ghost", "recorded")],
                             ensures=lambda c: [("the-directory-exists", Or(sel(c.old.ghost("recorded"), t(c)), sel(c.new.ghost("disk_ex"), t(c)))),
                                                ("nothing-vanishes", z3.ForAll([x], Implies(sel(c.old.ghost("disk_ex"), x), sel(c.new.ghost("disk_ex"), x)))),
                                                ("is-no-failure", c.rt(ANY) != c.eng.to_any(Con(False)))])


class F(Spec):
    """FileTarget.__init__: the declared dependencies and values are those given"""
    schema = {k: dict(v) for k, v in S.schema.items()}
    extra_attributes_ignored = True
    globals = {"licant.core:_default_core": CORE}
    ghosts = {}

    def setup(self):
        self.add(canonical_path_contract(), error_contract())
        star = strfun("str_in", StrS, StrS, B)
        self.externals["os.path.exists"] = lambda eng, r, a, k, n: V(BOOL, eng.fresh("exists", B))
        anymods = [("dict", None, STR, T), ("field", "Target", "core"), ("list", "new", T), ("list", "new", STR), ("field", "Target", "tgt", "new"), ("set", "new", STR)]
        self.add(Contract("licant.make:source", {"tgt": STR, "deps": ANY}, ret=ANY, assumed=True, modifies=lambda c: anymods, doc="registers a source target in the default core"))
        j = z3.Int("fi_j")
        S_ = lambda c: c.t("self")

        def mods(c):
            s = S_(c)
            out = list(anymods)
            for k in ("Target", "FileTarget"):
                for f in self.schema[k]:
                    if (k, f) != ("Target", "core"):
                        out.append(("field", k, f, [s]))
            return out
        from pyv.interp import str_in
        self.str_in = str_in

        def nostar(c):
            e = sel(c.old.larr(c.t("deps"), STR), j)
            return ("names-without-wildcards", z3.ForAll([j], Implies(And(0 <= j, j < c.old.llen(c.t("deps"))), Not(str_in(lit("*"), e))), patterns=[e]))

        def ens(c):
            o, h, s = c.old, c.new, S_(c)
            d, g = deps_of(h, s), c.t("deps")
            e = sel(h.larr(d, STR), j)
            return [("named-by-the-resolved-path", h.fld("Target", "tgt", s) == canon(c.t("tgt"))), ("as-many-dependencies", h.llen(d) == o.llen(g)),
                    ("the-given-dependencies-in-order", z3.ForAll([j], Implies(And(0 <= j, j < o.llen(g)), e == sel(o.larr(g, STR), j)), patterns=[e])),
                    ("quoted", h.fld("FileTarget", "quoted_tgt", s) == quoted(canon(c.t("tgt")))),
                    ("build-action", h.fld("FileTarget", "build", s) == self.vals["build"].z), ("source", h.fld("FileTarget", "src", s) == self.vals["src"].z), ("quoted-source", h.fld("FileTarget", "quoted_src", s) == self.vals["quoted_src"].z),
                    ("content", h.fld("FileTarget", "content", s) == self.vals["content"].z)]

        def kw(eng):
            self.vals = {"build": V(FN, z3.Const("kw_build", FnS)), "src": V(STR, z3.Const("kw_src", StrS)), "quoted_src": V(STR, z3.Const("kw_qs", StrS)), "content": V(STR, z3.Const("kw_content", StrS)), "message": V(STR, z3.Const("kw_msg", StrS))}
            return KwV(dict(self.vals))
        self.init = Contract("licant.make:FileTarget.__init__", {"self": FT, "tgt": STR, "deps": List(STR), "force": BOOL, "use_dirkeep": lambda eng: Con(False), "kwargs": kw}, check_only=True,
                             requires=lambda c: [("core", c.old.alloc(z3.Const("glob:licant.core._default_core", RefS))), ("live", And(c.old.alloc(c.t("deps")), c.t("deps") != null)), nostar(c)], ensures=ens, modifies=mods)

    def invariants(self, c):
        """lists built from the given one hold its elements in order"""
        if c.idx is None:
            return []
        out = []
        h, o = c.h, c.old
        g = c.eng.to_term(c.eng.fn_args["deps"], List(STR))
        j = z3.Int("fv_j")
        for nm, v in c.of_type("list"):
            if c.eng.verifying is self.init and not isinstance(prune(prune(v.t).args[0]), TVar) and prune(prune(v.t).args[0]) == STR:
                e = sel(h.larr(v.z, STR), j)
                out.append(("so-far:" + nm, And(h.llen(v.z) == c.idx, z3.ForAll([j], Implies(And(0 <= j, j < c.idx), e == sel(o.larr(g, STR), j)), patterns=[e]))))
                out.append(("all:" + nm, And(h.llen(v.z) == o.llen(g), z3.ForAll([j], Implies(And(0 <= j, j < o.llen(g)), e == sel(o.larr(g, STR), j)), patterns=[e]))))
        return out


SLOW = ()
ASSUMPTIONS = ["the file system does not change while targets are registered", "the file core is not the default core", "names contain no * (it would be expanded)",
               "nobody registers another target under the name of a missing directory"]
TRUSTED = ["the directories above a path that is not / or . have fewer components", "cp -- a b makes b a copy of a", "os.makedirs"]


def units(prog):
    s, k, f = S(prog), K(prog), F(prog)
    return [(s, [s.dk, s.source, s.touch, s.copy, s.ftf, s.fte]), (k, [k.keep]), (f, [f.init])]
