"""C23: where programs, headers and libraries are installed, and under which names."""
from .common import *
from pyv import load as LD
import ast as A

ENV = z3.Const("os.environ", RefS)
pjoin = strfun("os.path.join/2", StrS, StrS, StrS)
relpath = strfun("os.path.relpath/2", StrS, StrS, StrS)
abspath = strfun("os.path.abspath/1", StrS, StrS)
basename = strfun("os.path.basename/1", StrS, StrS)
str_in_ = z3.Function("str_in", StrS, StrS, B)
np_ = z3.Function("parts_of_list", StrS, I)
pa_ = z3.Function("part_of_list", StrS, z3.ArraySort(I, StrS))
ON = opt_dt(STR)
some = lambda z: ON[2](z)
some_val = lambda z: ON[3](z)
none = ON[1]
J = z3.Int("in_j")
UL, UB, WL = "/usr/local/bin", "/usr/bin", "\\usr\\local\\bin"
ASB = z3.ArraySort(StrS, B)
ngl = z3.Function("files_matching", StrS, StrS, I)
agl = z3.Function("file_matching", StrS, StrS, z3.ArraySort(I, StrS))


def join(*p):
    return p[0] if len(p) == 1 else pjoin(join(*p[:-1]), p[-1])


def joined(z, *p):
    """os.path.join in one or several steps"""
    return Or(z == join(*p), z == pjoin(p[0], join(*p[1:])))


def ls(x):
    return lit(x)


class EnvSpec(Spec):
    globals = {"licant.install:error_in_install_library": BOOL}
    ext_values = {"os.environ": lambda eng: V(Dict(STR, STR), ENV), "sys.platform": lambda eng: V(STR, z3.Const("sys.platform", StrS))}

    # of the empty text
    axioms = [And(np_(lit("")) == 1, sel(pa_(lit("")), 0) == lit(""), *[Not(str_in_(lit(x), lit(""))) for x in (UL, UB, WL)])]
    schema = {"Core": core_schema["Core"], "Target": core_schema["Target"]}

    def env(self, h):
        return h.ddom(ENV, STR, STR), h.dval(ENV, STR, STR)

    def live(self, h):
        return [("environment", And(ENV != null, h.alloc(ENV)))]

    def hook_str_method(self, eng, name, recv, args, kwargs, node):
        if name == "split" and len(args) == 1 and not kwargs and isinstance(args[0], Con) and args[0].v == ":":
            z = eng.to_term(recv, STR)
            l = eng.alloc("list", List(STR))
            eng.assume(np_(z) >= 1)
            eng.list_write(l, np_(z), pa_(z))
            return l
        return None


class Find(EnvSpec):
    """the three directories"""

    def setup(self):
        err = lambda h: h.glob("licant.install", "error_in_install_library")

        def parts(h):
            d, v = self.env(h)
            t = If(sel(d, ls("PATH")), sel(v, ls("PATH")), ls(""))
            return np_(t), pa_(t)

        def any_(h, s):
            n, a = parts(h)
            return z3.Exists([J], And(0 <= J, J < n, str_in_(ls(s), sel(a, J))))

        def first(h, s, r):
            n, a = parts(h)
            k = z3.Int("in_k")
            return z3.Exists([k], And(0 <= k, k < n, str_in_(ls(s), sel(a, k)), r == some(sel(a, k)), z3.ForAll([J], Implies(And(0 <= J, J < k), Not(str_in_(ls(s), sel(a, J)))))))

        def pre(c):
            d, v = self.env(c.old)
            return sel(d, ls("PREFIX")), sel(v, ls("PREFIX"))

        def app(c):
            P, pv = pre(c)
            o, r = c.old, c.rt(Opt(STR))
            n, a = parts(o)
            entry = z3.Exists([J], And(0 <= J, J < n, sel(a, J) == ls(UL)))
            e0, e1 = err(o), err(c.new)
            np = Not(P)
            return [("below-the-prefix", Implies(P, And(r == some(pjoin(pv, ls("bin"))), e1 == e0))),
                    ("usr-local-bin-if-an-entry", Implies(And(np, entry), And(r == some(ls(UL)), e1 == e0))),
                    ("else-the-first-entry-containing-it-with-backslashes", Implies(And(np, Not(entry), any_(o, WL)), And(first(o, WL, r), e1 == e0))),
                    ("else-the-first-entry-containing-usr-local-bin", Implies(And(np, Not(entry), Not(any_(o, WL)), any_(o, UL)), And(first(o, UL, r), e1 == e0))),
                    ("else-the-first-entry-containing-usr-bin", Implies(And(np, Not(entry), Not(any_(o, WL)), Not(any_(o, UL)), any_(o, UB)), And(first(o, UB, r), e1 == e0))),
                    ("else-refused", Implies(And(np, Not(entry), Not(any_(o, WL)), Not(any_(o, UL)), Not(any_(o, UB))), And(r == none, e1)))]
        req = lambda c: self.live(c.old)
        mods = lambda c: [("global", "licant.install.error_in_install_library", BOOL), ("list", "new", STR)]
        self.app = Contract("licant.install:find_application_path", {}, ret=Opt(STR), requires=req, modifies=mods, ensures=app, check_only=True)

        def fixed(sub, other):
            def ens(c):
                P, pv = pre(c)
                return [("below-the-prefix", Implies(P, c.rt() == pjoin(pv, ls(sub)))), ("else-the-system-directory", Implies(Not(P), c.rt() == ls(other)))]
            return ens
        self.hdr = Contract("licant.install:find_headers_path", {}, ret=STR, requires=req, ensures=fixed("include", "/usr/local/include"), check_only=True)
        self.lib = Contract("licant.install:find_libraries_path", {}, ret=STR, requires=req, ensures=fixed("lib", "/usr/lib"), check_only=True)

    def invariants(self, c):
        """in a loop over the entries that looks for a text, no earlier entry contains it"""
        if c.idx is None or c.src is None or c.src.kind != "seq" or c.src.array is None:
            return []
        return [("none-so-far:" + s, z3.ForAll([J], Implies(And(0 <= J, J < c.idx), Not(str_in_(ls(s), sel(c.src.array(), J)))))) for s in (UL, UB, WL)]


class Body(EnvSpec):
    """what the module does when it is loaded"""
    globals = {"licant.install:error_in_install_library": BOOL, "licant.install:path": Opt(STR), "licant.install:headers_path": STR, "licant.install:libraries_path": STR}

    def setup(self):
        A_ = z3.Const("found_application_path", opt_dt(STR)[0])
        H_, L_ = z3.Consts("found_headers_path found_libraries_path", StrS)
        refused = z3.Const("refused", B)
        E = "licant.install:error_in_install_library"
        self.add(Contract("licant.install:find_application_path", {}, ret=Opt(STR), modifies=lambda c: [("global", "licant.install.error_in_install_library", BOOL)], ensures=lambda c: [("r", c.rt(Opt(STR)) == A_), ("e", c.new.glob("licant.install", "error_in_install_library") == Or(refused, c.old.glob("licant.install", "error_in_install_library")))], assumed=True, doc="proved above"))
        self.add(Contract("licant.install:find_headers_path", {}, ret=STR, ensures=lambda c: [("r", c.rt() == H_)], assumed=True, doc="proved above"))
        self.add(Contract("licant.install:find_libraries_path", {}, ret=STR, ensures=lambda c: [("r", c.rt() == L_)], assumed=True, doc="proved above"))
        m = self.prog.modules["licant.install"]
        m.assigned_global.update(("path", "headers_path", "libraries_path"))
        body = [st for st in m.tree.body if not isinstance(st, (A.FunctionDef, A.AsyncFunctionDef, A.ClassDef, A.Import, A.ImportFrom))]
        names = sorted({n.split(":")[1] for n in self.globals})
        fd = A.FunctionDef(name="<module>", args=A.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[A.Global(names=names)] + body, decorator_list=[], returns=None, type_comment=None, type_params=[])
        A.fix_missing_locations(fd)
        m.names["<module>"] = ("func", LD.Func(m, "<module>", fd))
        g = lambda h, n, t=STR: h.glob("licant.install", n)
        self.body = Contract("licant.install:<module>", {}, requires=lambda c: self.live(c.old), check_only=True, modifies=lambda c: [("global", k.replace(":", "."), t) for k, t in self.globals.items()],
                             ensures=lambda c: [("programs", g(c.new, "path", Opt(STR)) == A_), ("headers", g(c.new, "headers_path") == H_), ("libraries", g(c.new, "libraries_path") == L_), ("refused-only-without-a-directory", g(c.new, "error_in_install_library", BOOL) == refused)])


class Inst(EnvSpec):
    """the targets an installation registers"""
    globals = {"licant.install:error_in_install_library": BOOL, "licant.install:path": Opt(STR), "licant.install:headers_path": STR, "licant.install:libraries_path": STR}
    ghosts = {"copies": I, "csrc": ASB, "sets": I, "setof": RefS, "setname": StrS, "srcs": ASB, "ct": z3.ArraySort(I, StrS)}

    def setup(self):
        g = lambda h, n, t=STR: h.glob("licant.install", n)
        self.prog.modules["licant.install"].assigned_global.update(("path", "headers_path", "libraries_path"))
        self.err = lambda h: g(h, "error_in_install_library", BOOL)
        self.globals["licant.core:_default_core"] = CORE
        self.add(Contract("licant.core:default_core", {}, ret=CORE, assumed=True))

        def copy(eng, args, fv, node):
            """registers a copy"""
            h = HeapView(eng, eng.heap)
            src, tgt = eng.to_term(args["src"], STR), eng.to_term(args["tgt"], STR)
            eng.prove(Not(self.err(self.o)), "nothing-installed-when-refused")
            for nm, f in self.where_to(eng, src, tgt):
                eng.prove(f, nm)
            eng.set_ghost("ct", z3.Store(eng.ghost("ct"), eng.ghost("copies"), tgt))
            eng.set_ghost("copies", eng.ghost("copies") + 1)
            eng.set_ghost("csrc", z3.Store(eng.ghost("csrc"), src, True))
            self.copied(eng, args)
            return V(STR, tgt)
        c = self.add(Contract("licant.make:copy", {"tgt": STR, "src": STR, "adddeps": List(STR)}, ret=STR, assumed=True, doc="C13: registers a target that copies src to tgt and returns its name"))
        c.apply = copy
        s = self.add(Contract("licant.make:source", {"tgt": STR}, assumed=True, doc="registers a source"))
        s.apply = lambda eng, args, fv, node: (eng.set_ghost("srcs", z3.Store(eng.ghost("srcs"), eng.to_term(args["tgt"], STR), True)), Con(None))[1]
        f = self.add(Contract("licant.make:fileset", {"tgt": STR, "targets": List(STR)}, ret=STR, assumed=True, doc="registers a file set and returns its name"))

        def fileset(eng, args, fv, node):
            """registers a file set"""
            l = args["targets"]
            eng.set_ghost("sets", eng.ghost("sets") + 1)
            eng.set_ghost("setname", eng.to_term(args["tgt"], STR))
            eng.set_ghost("setof", eng.to_term(l, List(STR)))
            return args["tgt"]
        f.apply = fileset
        self.parts()

    def copied(self, eng, args):
        pass

    def base(self, c):
        self.o = c.old
        g = lambda h, n, t=STR: h.glob("licant.install", n)
        return self.live(c.old) + [("a-directory-unless-refused", Or(self.err(c.old), g(c.old, "path") != none)), ("start", And(c.old.ghost("copies") == 0, c.old.ghost("sets") == 0, c.old.ghost("csrc") == z3.K(StrS, False), c.old.ghost("srcs") == z3.K(StrS, False)))]

    mods = lambda self, c: [("ghost", k) for k in self.ghosts] + [("list", "new", STR), ("list", "new", List(STR))]


FOUND = z3.Const("matching_files", ASB)
NRAW = z3.Int("number_of_header_copies")
RAW = z3.Const("header_copies", z3.ArraySort(I, StrS))
HSET = z3.Const("file_set_of_the_headers", StrS)
COPYOF = z3.Function("copy_of_library", StrS, StrS)
K0, J0 = z3.Ints("any_pattern any_match")
X0 = z3.Const("any_matching_file", StrS)


class App(Inst):
    def where_to(self, eng, src, tgt):
        a = eng.fn_args
        return [("the-program-itself", src == a["src"].z), ("below-the-program-directory", tgt == pjoin(some_val(self.o.glob("licant.install", "path")), a["dst"].z))]

    def parts(self):
        def ens(named_):
            def f(c):
                h = c.new
                e = self.err(c.old)
                p = pjoin(some_val(c.old.glob("licant.install", "path")), c.t("dst"))
                l = h.ghost("setof")
                r = c.rt(Opt(STR))
                name = c.t("tgt") if named_ else p
                aset = And(h.ghost("sets") == 1, h.llen(l) == 1, sel(h.larr(l, STR), 0) == p, h.ghost("setname") == name)
                return [("refused-with-nothing", Implies(e, And(r == none, h.ghost("copies") == 0, h.ghost("sets") == 0))),
                        ("one-copy", Implies(Not(e), And(h.ghost("copies") == 1, r == some(name)))),
                        ("the-copy-is-not-replaced", Implies(Not(e), If(name == p, h.ghost("sets") == 0, aset)) if not named_ else Implies(And(Not(e), name != p), aset))]
            return f
        self.units_ = [Contract("licant.install:install_application", {"src": STR, "dst": STR, "tgt": t}, ret=Opt(STR), requires=self.base, ensures=ens(bool(k)), modifies=self.mods, check_only=True) for k, t in enumerate((lambda eng: Con(None), STR))]


class Shared(Inst):
    def where_to(self, eng, src, tgt):
        a = eng.fn_args
        name = basename(a["src"].z) if not isinstance(a["newname"], V) else a["newname"].z
        return [("the-library-itself", src == a["src"].z), ("below-the-library-directory", tgt == pjoin(self.o.glob("licant.install", "libraries_path"), name))]

    def parts(self):
        def ens(named_):
            def f(c):
                h, e, r = c.new, self.err(c.old), c.rt(Opt(STR))
                name = c.t("newname") if named_ else basename(c.t("src"))
                return [("refused-with-nothing", Implies(e, And(r == none, h.ghost("copies") == 0))), ("one-copy", Implies(Not(e), And(h.ghost("copies") == 1, r == some(pjoin(c.old.glob("licant.install", "libraries_path"), name)))))]
            return f
        self.units_ = [Contract("licant.install:install_shared_library", {"src": STR, "newname": t}, ret=Opt(STR), requires=self.base, ensures=ens(bool(k)), modifies=self.mods, check_only=True) for k, t in enumerate((lambda eng: Con(None), STR))]


class Headers(Inst):
    def where_to(self, eng, src, tgt):
        a = eng.fn_args
        d = a["srcdir"].z
        hp, td = self.o.glob("licant.install", "headers_path"), a["tgtdir"].z
        found = z3.Const("wanted_header", StrS)
        rel = [relpath(src, x) for x in (abspath(d), abspath(abspath(d)), d)]
        return [("keeps-its-relative-path-below-the-headers-directory", Or(*[joined(tgt, hp, td, r) for r in rel]))]

    axioms = EnvSpec.axioms + [z3.ForAll([z3.Const("ab_x", StrS)], abspath(abspath(z3.Const("ab_x", StrS))) == abspath(z3.Const("ab_x", StrS)), patterns=[abspath(abspath(z3.Const("ab_x", StrS)))])]

    def copied(self, eng, args):
        eng.prove(sel(FOUND, eng.to_term(args["src"], STR)), "installs-only-matching-files")
        eng.prove(eng.to_term(args["adddeps"], List(STR)) == eng.fn_args["adddeps"].z, "after-the-additional-dependencies")

    def parts(self):
        a = lambda h, l, t=STR: h.larr(l, t)
        rg = self.add(Contract("licant.util:recursive_glob", {"treeroot": STR, "pattern": STR}, ret=List(STR), assumed=True, doc="a new list of the files below a directory whose names match a pattern"))

        def glob(eng, args, fv, node):
            d, p = eng.to_term(args["treeroot"], STR), eng.to_term(args["pattern"], STR)
            l = eng.alloc("list", List(STR))
            eng.assume(ngl(d, p) >= 0)
            eng.list_write(l, ngl(d, p), agl(d, p))
            return l
        rg.apply = glob
        k = z3.Int("hd_k")

        def matching(c, f):
            """of every file that matches one of the patterns"""
            p = c.t("patterns")
            pk = sel(a(c.old, p), k)
            d = abspath(c.t("srcdir"))
            return z3.ForAll([k, J], Implies(And(0 <= k, k < c.old.llen(p), 0 <= J, J < ngl(d, pk)), f(sel(agl(d, pk), J))), patterns=[sel(agl(d, pk), J)])

        def one(c):
            """any one such file"""
            p = c.t("patterns")
            pk = sel(a(c.old, p), K0)
            d = abspath(c.t("srcdir"))
            return And(0 <= K0, K0 < c.old.llen(p), 0 <= J0, J0 < ngl(d, pk), X0 == sel(agl(d, pk), J0))

        def req(c):
            p, l = c.t("patterns"), c.t("adddeps")
            return self.base(c) + [("live", And(p != null, c.old.alloc(p), c.old.llen(p) >= 0, l != null, c.old.alloc(l), c.old.llen(l) >= 0)), ("headers-are-not-refused", Not(self.err(c.old))), ("found", matching(c, lambda x: sel(FOUND, x)))]

        def ens(c):
            h, r = c.new, c.rt(TupT(STR, List(STR)))
            mk = tup_dt(TupT(STR, List(STR)))[2]
            l = mk[1](r)
            return [("every-matching-file-is-installed", Implies(one(c), sel(h.ghost("csrc"), X0))),
                    ("the-list-holds-the-copies", And(h.llen(l) == h.ghost("copies"), z3.ForAll([J], Implies(And(0 <= J, J < h.llen(l)), sel(a(h, l), J) == sel(h.ghost("ct"), J)), patterns=[sel(a(h, l), J)]))),
                    ("one-file-set-of-them", And(h.ghost("sets") == 1, h.ghost("setof") == l, mk[0](r) == h.ghost("setname")))]
        self.matching = matching
        self.units_ = [Contract("licant.install:install_headers", {"tgtdir": STR, "srcdir": STR, "patterns": List(STR), "adddeps": List(STR)}, ret=TupT(STR, List(STR)), requires=req, ensures=ens, modifies=self.mods, check_only=True)]

    def invariants(self, c):
        if c.idx is None or c.src is None or c.src.kind != "seq" or c.src.array is None:
            return []
        h, out = c.h, []
        arr = c.src.array()
        k, m = z3.Int("iv_k"), z3.Int("iv_m")
        el = prune(c.src.elem)
        if el.kind == "str":
            e = sel(arr, J)
            out += [("copied-so-far", z3.ForAll([J], Implies(And(0 <= J, J < c.idx), sel(h.ghost("csrc"), e)), patterns=[e])), ("as-many", h.ghost("copies") == c.idx)]
        for nm, v in c.of_type("list"):
            t = prune(prune(v.t).args[0])
            if isinstance(t, TVar) or t.kind != "str" or any(isinstance(x, V) and x.z.eq(v.z) for x in c.eng.fn_args.values()) or not any(nm in x for x in c.entry):
                continue
            e = sel(h.larr(v.z, STR), J)
            out += [("copies:" + nm, z3.ForAll([J], Implies(And(0 <= J, J < h.llen(v.z)), e == sel(h.ghost("ct"), J)), patterns=[e])), ("found:" + nm, z3.ForAll([J], Implies(And(0 <= J, J < h.llen(v.z)), sel(FOUND, e)), patterns=[e])),
                    ("as-long:" + nm, h.llen(v.z) == h.ghost("copies"))]
            if el.kind == "list":
                l = sel(arr, K0)
                out.append(("all-of-the-earlier:" + nm, Implies(And(0 <= K0, K0 < c.idx, 0 <= J0, J0 < h.llen(l), sel(h.larr(l, STR), J0) == X0), z3.Exists([m], And(0 <= m, m < h.llen(v.z), sel(h.larr(v.z, STR), m) == X0)))))
        return out


class Library(Inst):
    """a library: its headers, its files, and what uninstalling them removes"""
    ghosts = {"sets": I, "setof": RefS, "setname": StrS, "nh": I, "nl": I, "libs": z3.ArraySort(I, StrS), "nun": I, "nadd": I, "un": RefS}
    schema = dict(EnvSpec.schema, MakeFileTarget={})
    axioms = EnvSpec.axioms

    def parts(self):
        a = lambda h, l, t=STR: h.larr(l, t)
        del self.contracts["licant.make:copy"]
        h = self.add(Contract("licant.install:install_headers", {"tgtdir": STR, "srcdir": STR, "patterns": List(STR), "adddeps": List(STR)}, ret=TupT(STR, List(STR)), assumed=True, doc="proved above: the file set of the headers and the list of their copies"))

        def headers(eng, args, fv, node):
            fa, o = eng.fn_args, self.o
            z = lambda k: eng.to_term(args[k], STR)
            eng.prove(Not(self.err(o)), "nothing-installed-when-refused")
            eng.prove(And(z("tgtdir") == fa["hroot"].z, z("srcdir") == fa["headers"].z, eng.to_term(args["patterns"], List(STR)) == fa["headers_patterns"].z), "the-headers-of-the-library")
            d = eng.to_term(args["adddeps"], List(STR))
            self.exactly(eng, d, [("the-library-files", n, arr) for n, arr in self.libfiles(eng)], "headers-after-")
            eng.set_ghost("nh", eng.ghost("nh") + 1)
            l = eng.alloc("list", List(STR))
            eng.assume(NRAW >= 0)
            eng.list_write(l, NRAW, RAW)
            return Tup([V(STR, HSET), l])
        h.apply = headers
        s = self.add(Contract("licant.install:install_shared_library", {"src": STR, "newname": Opt(STR)}, ret=STR, assumed=True, doc="proved above: copies the library and returns the name of its copy"))

        def shared(eng, args, fv, node):
            z = eng.to_term(args["src"], STR)
            k = eng.ghost("nl")
            eng.prove(eng.to_term(args["newname"], Opt(STR)) == none, "under-its-own-name")
            lf = self.libfiles(eng)
            eng.prove(And(k < lf[0][0], z == lf[0][1](k)) if lf else False, "the-next-library-file")
            eng.set_ghost("libs", z3.Store(eng.ghost("libs"), k, COPYOF(z)))
            eng.set_ghost("nl", k + 1)
            return V(STR, COPYOF(z))
        s.apply = shared

        def construct(eng, args, kwargs, node):
            """the uninstall target"""
            fa = eng.fn_args
            clean = self.prog.find("licant.make:MakeFileTarget.clean")
            isclean = lambda v: isinstance(v, FuncV) and v.func is clean
            eng.prove(not args and set(kwargs) == {"tgt", "build", "makefile", "deps", "weakdeps"} or not args and set(kwargs) == {"tgt", "build", "makefile", "deps", "weakdeps", "core"}, "of-known-parts")
            eng.prove("uninstall" in fa and isinstance(fa["uninstall"], V) and eng.to_term(kwargs["tgt"], STR) == fa["uninstall"].z, "under-the-given-name")
            eng.prove(isclean(kwargs.get("build")) and isclean(kwargs.get("makefile")), "uninstalling-cleans")
            eng.prove(eng.list_len(eng.force(kwargs["deps"])) == 0, "without-dependencies")
            w = eng.to_term(kwargs["weakdeps"], List(STR))
            self.exactly(eng, w, [("the-header-copies", NRAW, lambda j: sel(RAW, j))] + [("the-library-copies", n, lambda j, f=f: COPYOF(f(j))) for n, f in self.libfiles(eng)], "removes-exactly-")
            eng.set_ghost("nun", eng.ghost("nun") + 1)
            o = eng.alloc("MakeFileTarget", Ref("MakeFileTarget", True))
            eng.set_ghost("un", o.z)
            return o
        self.constructors["MakeFileTarget"] = construct

        def add(eng, o, args, kwargs, node, func=None):
            eng.prove(And(eng.to_term(args[0], T) == eng.ghost("un"), eng.ghost("nun") == 1), "registers-the-uninstall-target")
            eng.set_ghost("nadd", eng.ghost("nadd") + 1)
            return args[0]
        self.virtuals[("Core", "add")] = add

        def ens(k, u):
            def f(c):
                h, e, r = c.new, self.err(c.old), c.rt(Opt(STR))
                G = h.ghost
                l = G("setof")
                n = {0: z3.IntVal(0), 1: z3.IntVal(1), 2: c.old.llen(c.t("libtgt")) if k == 2 else None}[k]
                m = a(h, l)
                out = [("refused-with-nothing", Implies(e, And(r == none, *[G(x) == 0 for x in ("nh", "nl", "sets", "nun", "nadd")]))),
                       ("headers-and-every-library-file", Implies(Not(e), And(G("nh") == 1, G("nl") == n))),
                       ("one-file-set-of-all", Implies(Not(e), And(G("sets") == 1, r == some(c.t("tgt")), G("setname") == c.t("tgt"), h.llen(l) == 1 + n, sel(m, 0) == HSET, z3.ForAll([J], Implies(And(0 <= J, J < n), sel(m, J + 1) == sel(G("libs"), J)))))),
                       ("uninstall-registered-if-wanted", Implies(Not(e), G("nadd") == (If(c.t("uninstall") != lit(""), 1, 0) if u else 0)))]
                return out
            return f

        def req(c, k):
            o = c.old
            p = c.t("headers_patterns")
            self.o = o
            out = self.live(o) + [("live", And(p != null, o.alloc(p), o.llen(p) >= 0)), ("start", And(*[o.ghost(x) == 0 for x in ("nh", "nl", "sets", "nun", "nadd")]))]
            if k == 2:
                l = c.t("libtgt")
                out.append(("live-libraries", And(l != null, o.alloc(l), o.llen(l) >= 0)))
            elif k == 1:
                out.append(("a-library-name", c.t("libtgt") != lit("")))
            return out
        self.units_ = []
        for k, lt in enumerate((lambda eng: Con(None), STR, List(STR))):
            for u, un in enumerate((lambda eng: Con(None), STR)):
                self.units_.append(Contract("licant.install:install_library", {"tgt": STR, "hroot": STR, "headers": STR, "headers_patterns": List(STR), "uninstall": un, "libtgt": lt}, ret=Opt(STR), requires=lambda c, k=k: req(c, k), ensures=ens(k, u), modifies=self.mods, check_only=True))

    def libfiles(self, eng):
        """(number, element of index) of the library files to install"""
        v = eng.fn_args["libtgt"]
        if not isinstance(v, V):
            return []
        if prune(v.t).kind == "str":
            return [(z3.IntVal(1), lambda j: v.z)]
        return [(self.o.llen(v.z), lambda j: sel(self.o.larr(v.z, STR), j))]

    def exactly(self, eng, l, blocks, name):
        """the list holds exactly the entries of the blocks, in any order of the blocks"""
        if not eng.proving():
            return
        h = HeapView(eng, eng.heap)
        eng.prove(h.llen(l) == sum((b[1] for b in blocks), z3.IntVal(0)), name + "nothing-more-or-less")
        for order in ([], [1]):
            good, off = True, z3.IntVal(0)
            bs = blocks[::-1] if order else blocks
            for nm, n, f in bs:
                good = good and eng.valid(z3.ForAll([J], Implies(And(0 <= J, J < n), sel(h.larr(l, STR), off + J) == f(J))))
                off = off + n
            if good:
                break
        eng.prove(good, name + "-and-".join(b[0] for b in blocks))

    def invariants(self, c):
        if c.idx is None:
            return []
        h, out = c.h, [("one-each", c.h.ghost("nl") == c.idx), ("none", c.h.ghost("nl") == c.at_entry.ghost("nl"))]
        lf = self.libfiles(c.eng)
        if not lf:
            return out
        f = lf[0][1]
        out.append(("copies", z3.ForAll([J], Implies(And(0 <= J, J < h.ghost("nl")), sel(h.ghost("libs"), J) == COPYOF(f(J))), patterns=[sel(h.ghost("libs"), J)])))
        for nm, v in c.of_type("list"):
            t = prune(prune(v.t).args[0])
            if isinstance(t, TVar) or t.kind != "str" or any(isinstance(x, V) and x.z.eq(v.z) for x in c.eng.fn_args.values()):
                continue
            e = sel(h.larr(v.z, STR), J)
            out += [("copies:" + nm, And(h.llen(v.z) == c.idx, z3.ForAll([J], Implies(And(0 <= J, J < c.idx), e == COPYOF(f(J))), patterns=[e]))), ("files:" + nm, And(h.llen(v.z) == c.idx, z3.ForAll([J], Implies(And(0 <= J, J < c.idx), e == f(J)), patterns=[e])))]
        return out


def units(prog):
    f, b, a, s, h, l = Find(prog), Body(prog), App(prog), Shared(prog), Headers(prog), Library(prog)
    return [(f, [f.app, f.hdr, f.lib]), (b, [b.body]), (a, a.units_), (s, s.units_), (h, h.units_), (l, l.units_)]


SLOW = ()
ASSUMPTIONS = ["the environment does not change while the module is loaded", "the header directories are set (installing headers is never refused by itself)",
               "a target name given for a program differs from the path of its copy"]
TRUSTED = ["the module body is checked as a function of its statements other than imports and definitions", "os.path.abspath of an absolute path is that path"]
