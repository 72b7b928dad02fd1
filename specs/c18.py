"""C18: objects and dependency lists depend on their source, the additional dependencies and every header of the dependency list."""
from .cxx_common import *

OPT = Ref("options")
hn = z3.Function("headers_listed", StrS, I)                          # how many headers the dependency list names
ha = z3.Function("header_listed", StrS, z3.ArraySort(I, StrS))
readable = z3.Function("has_a_dependency_list", StrS, B)             # it exists and is not empty
AB = z3.ArraySort(StrS, B)


def blocks_are(eng, h, l, blocks, name):
    """The list l consists of exactly these blocks (length, array), in any order."""
    if not eng.proving():
        return
    total = sum((b[0] for b in blocks), z3.IntVal(0))
    eng.prove(h.llen(l) == total, "no-dependency-missing-or-added" + name)
    for k, (n, entry, what) in enumerate(blocks):
        if lit_const(n, 0):
            continue
        others = [b[0] for i, b in enumerate(blocks) if i != k]
        good = False
        for m in sorted(range(1 << len(others)), key=lambda m: bin(m ^ ((1 << k) - 1)).count('1')):
            off = sum((o for i, o in enumerate(others) if m >> i & 1), z3.IntVal(0))
            f = z3.ForAll([J], Implies(And(0 <= J, J < n), sel(h.larr(l, STR), off + J) == entry(J)), patterns=[entry(J)] if not lit_const(n, 1) else None) if not lit_const(n, 1) else sel(h.larr(l, STR), off) == entry(z3.IntVal(0))
            if eng.valid(f):
                good = True
                break
        eng.prove(good, "depends-on-" + what + name)


def lit_const(n, v):
    return z3.is_int_value(n) and n.as_long() == v


class S(Spec):
    schema = {"options": {}, "Core": core_schema["Core"], "Target": core_schema["Target"], "FileTarget": {}}
    ghosts = {"nd": I, "no": I, "reg": AB}
    globals = {"licant.core:_default_core": CORE}

    def setup(self):
        glen = lambda c, k: c.old.llen(c.t(k))
        a = lambda h, l: h.larr(l, STR)
        idx = {}

        def core_():
            return z3.Const("glob:licant.core._default_core", RefS)
        self.add(Contract("licant.core:default_core", {}, ret=CORE, ensures=lambda c: [("the-default-core", And(c.rt() == core_(), c.rt() != null))], assumed=True))
        self.virtuals[("Core", "has")] = lambda eng, o, args, kwargs, node, func=None: V(BOOL, sel(eng.ghost("reg"), eng.to_term(args[0] if args else kwargs["tgt"], STR)))

        def register(eng, n):
            eng.set_ghost("reg", z3.Store(eng.ghost("reg"), n, True))

        def mk(kind):
            def apply(eng, args, fv, node):
                fa = eng.fn_args
                h = HeapView(eng, eng.heap)
                o = self.old_view
                src, tgt = args["src"], args["tgt"]
                k = eng.ghost("nd" if kind == "depend" else "no")
                z = lambda v: eng.to_term(v, STR)
                S_, O_, D_ = (fa[x].z for x in ("srcs", "objs", "deps"))
                s_k, d_k = sel(o.larr(S_, STR), k), sel(o.larr(D_, STR), k)
                eng.prove(And(k < o.llen(S_), z(src) == s_k), kind + "-for-the-next-source")
                eng.prove(z(tgt) == (d_k if kind == "depend" else sel(o.larr(O_, STR), k)), kind + "-at-its-path")
                eng.prove(eng.to_term(args["opts"], OPT) == fa["cxxopts"].z, kind + "-with-the-options-of-the-module")
                ty = args.get("type")
                eng.prove(ty is None or isinstance(ty, Con) and ty.v is None, kind + "-by-its-extension")
                ad = fa["adddeps"].z
                hl = hn(d_k) if eng.branch(readable(d_k)) else z3.IntVal(0)
                blocks = [(z3.IntVal(1), lambda j: s_k, "its-source"), (o.llen(ad), lambda j: sel(o.larr(ad, STR), j), "the-additional-dependencies"),
                          (hl, lambda j: sel(ha(d_k), j), "every-header")]
                if kind == "object":
                    blocks.insert(1, (z3.IntVal(1), lambda j: d_k, "its-dependency-list"))
                blocks_are(eng, h, eng.to_term(args["deps"], List(STR)), blocks, ":" + kind)
                kw = args.get("kwargs")
                f = kw.d.get("force") if isinstance(kw, KwV) else args.get("force")
                if kind == "depend":
                    eng.prove(eng.truth(f) == Not(readable(d_k)) if f is not None else readable(d_k), "forced-exactly-if-there-is-no-list")
                eng.set_ghost("nd" if kind == "depend" else "no", k + 1)
                register(eng, z(tgt))
                return V(T, eng.fresh("target", RefS))
            return apply
        for kind in ("depend", "object"):
            c = Contract("licant.cxx_make:" + kind, {"src": STR, "tgt": STR, "opts": OPT, "deps": List(STR)}, ret=T, assumed=True, doc="C19, C10: registers a target with this source, target and these dependencies")
            c.apply = mk(kind)
            self.add(c)
        src = Contract("licant.make:source", {"tgt": STR}, ret=T, assumed=True, doc="C13: registers a source unless something is registered under its name")

        def src_apply(eng, args, fv, node):
            register(eng, eng.to_term(args["tgt"], STR))
            return V(T, eng.fresh("target", RefS))
        src.apply = src_apply
        self.add(src)
        rd = Contract("licant.util:cxx_read_depends", {"path": STR}, ret=Opt(List(STR)), modifies=lambda c: [("list", "new", STR)],
                      ensures=lambda c: [("none-without-a-list", (c.rt(Opt(List(STR))) != null) == readable(c.t("path"))),
                                         ("the-headers", Implies(readable(c.t("path")), And(Not(c.old.alloc(c.rt())), c.new.alloc(c.rt()), c.new.llen(c.rt()) == hn(c.t("path")), z3.ForAll([J], sel(a(c.new, c.rt()), J) == sel(ha(c.t("path")), J)), hn(c.t("path")) >= 0)))], assumed=True, doc="C18, second part")
        self.add(rd)
        lists = ("srcs", "objs", "deps", "adddeps")

        def setup(eng):
            self.old_view = HeapView(eng, dict(eng.heap))

        def req(c):
            self.old_view = c.old
            return [("live-" + k, And(c.t(k) != null, c.old.alloc(c.t(k)), glen(c, k) >= 0)) for k in lists] + [("as-many-paths-as-sources", And(glen(c, "srcs") == glen(c, "objs"), glen(c, "srcs") == glen(c, "deps"))),
                    ("start", And(c.old.ghost("nd") == 0, c.old.ghost("no") == 0)), ("core", And(core_() != null, c.old.alloc(core_())))]
        x = z3.Const("lk_x", StrS)

        def ens(c):
            n = glen(c, "srcs")
            return [("two-targets-for-each-source", And(c.new.ghost("nd") == n, c.new.ghost("no") == n))] + self.known(c.old, c.new.ghost("reg"), c.old.ghost("reg"), c.t("srcs"), c.t("deps"), n)
        self.link = Contract("licant.cxx_modules:link_objects", {"srcs": List(STR), "objs": List(STR), "deps": List(STR), "cxxopts": OPT, "adddeps": List(STR)}, requires=req, ensures=ens,
                             modifies=lambda c: [("ghost", g) for g in self.ghosts] + [("list", "new", STR)], check_only=True)

    def known(self, o, reg, reg0, srcs, deps, n):
        i, j = z3.Int("kn_i"), z3.Int("kn_j")
        x = z3.Const("kn_x", StrS)
        s, d = sel(o.larr(srcs, STR), i), sel(o.larr(deps, STR), i)
        return [("registrations-kept", z3.ForAll([x], Implies(sel(reg0, x), sel(reg, x)), patterns=[sel(reg, x)])),
                ("sources-are-registered", z3.ForAll([i], Implies(And(0 <= i, i < n), sel(reg, s)), patterns=[s])),
                ("headers-are-registered", z3.ForAll([i, j], Implies(And(0 <= i, i < n, readable(d), 0 <= j, j < hn(d)), sel(reg, sel(ha(d), j))), patterns=[sel(ha(d), j)]))]

    def invariants(self, c):
        """one of each target for each source so far; the headers seen so far are registered"""
        if c.idx is None:
            return []
        fa = c.eng.fn_args
        srcs, deps = fa["srcs"].z, fa["deps"].z
        h, o = c.h, c.old
        over_headers = c.src is not None and prune(c.src.elem).kind == "str" and c.at_entry.ghost("nd").get_id() != o.ghost("nd").get_id()
        if not over_headers:
            return [("one-each", And(h.ghost("nd") == c.idx, h.ghost("no") == c.idx))] + self.known(o, h.ghost("reg"), o.ghost("reg"), srcs, deps, c.idx)
        e = c.at_entry
        j = z3.Int("iv_j")
        d = sel(o.larr(deps, STR), h.ghost("nd"))
        return [("same-counts", And(h.ghost("nd") == e.ghost("nd"), h.ghost("no") == e.ghost("no"))), ("this-source", sel(h.ghost("reg"), sel(o.larr(srcs, STR), h.ghost("nd"))))] + self.known(o, h.ghost("reg"), o.ghost("reg"), srcs, deps, h.ghost("nd")) + [
                ("headers-so-far", z3.ForAll([j], Implies(And(0 <= j, j < c.idx), sel(h.ghost("reg"), sel(ha(d), j))), patterns=[sel(ha(d), j)]))]


content = z3.Function("content_of_file", StrS, StrS)
nfound = z3.Function("names_in_text", StrS, I)
found = z3.Function("name_in_text", StrS, z3.ArraySort(I, StrS))
on_disk = z3.Function("exists_on_disk", StrS, B)
NAMECHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./-"
SEPARATORS = " \t\r\n\\:"


def finds_names(pattern):
    """Does findall of the pattern yield exactly the longest runs of name characters in a rule?  Decided over the structure of the pattern: one or more of a class of characters."""
    from re import _parser as P, _constants as K
    try:
        t = list(P.parse(pattern))
    except Exception:
        return "is no pattern"
    if len(t) != 1 or t[0][0] is not K.MAX_REPEAT or t[0][1][0] != 1 or t[0][1][1] is not K.MAXREPEAT or len(t[0][1][2]) != 1 or t[0][1][2][0][0] is not K.IN:
        return "is not one or more characters of a class"
    one = re.compile("[" + pattern[1:pattern.rindex("]")] + "]")
    for ch in NAMECHARS:
        if not one.fullmatch(ch):
            return "does not match %r" % ch
    for ch in SEPARATORS:
        if one.fullmatch(ch):
            return "matches %r" % ch
    return None


class R(Spec):
    """reading a dependency list"""
    schema = {"Pattern": {}, "File": {"path": STR}}
    ext_classes = ("Pattern", "File")

    def setup(self):
        pats = {}

        def compiled(eng, recv, args, kwargs, node):
            """a compiled pattern"""
            if len(args) != 1 or not isinstance(args[0], Con):
                raise Unsupported("pattern")
            o = eng.alloc("Pattern", Ref("Pattern", True))
            pats[o.z.get_id()] = (o.z, args[0].v)
            return o

        def find(eng, pattern, text):
            bad = finds_names(pattern)
            eng.prove(bad is None, "the-pattern-finds-the-names" + ("" if bad is None else " (%s)" % bad))
            z = eng.to_term(text, STR)
            l = eng.alloc("list", List(STR))
            eng.assume(nfound(z) >= 0)
            eng.list_write(l, nfound(z), found(z))
            return l

        def findall(eng, recv, args, kwargs, node):
            """all longest matches in order"""
            p = pats.get(recv.z.get_id())
            if p is None:
                raise Unsupported("unknown pattern")
            return find(eng, p[1], args[0])

        def refindall(eng, recv, args, kwargs, node):
            """all longest matches in order"""
            return find(eng, args[0].v, args[1])

        def ext_open(eng, recv, args, kwargs, node):
            """opens an existing file for reading"""
            p = eng.to_term(args[0], STR)
            eng.prove(on_disk(p), "it-exists")
            m = args[1] if len(args) > 1 else kwargs.get("mode", Con("r"))
            eng.prove(isinstance(m, Con) and m.v in ("r", "rt"), "opened-for-reading")
            f = eng.alloc("File", Ref("File", True))
            eng.hwrite("f:File.path", STR, f.z, p)
            return f
        self.externals.update({"re.compile": compiled, "Pattern.findall": findall, "re.findall": refindall, "builtins.open": ext_open,
                               "File.read": lambda eng, r, a, k, n: V(STR, content(HeapView(eng, eng.heap).fld("File", "path", r.z))),
                               "File.close": lambda eng, r, a, k, n: Con(None), "File.__enter__": lambda eng, r, a, k, n: a[0] if a else r, "File.__exit__": lambda eng, r, a, k, n: Con(None),
                               "os.path.exists": lambda eng, r, a, k, n: V(BOOL, on_disk(eng.to_term(a[0], STR))), "os.path.isfile": lambda eng, r, a, k, n: V(BOOL, on_disk(eng.to_term(a[0], STR)))})
        pz = lambda c: c.t("path")
        rd = lambda c: And(on_disk(pz(c)), content(pz(c)) != lit(""))

        def ens(c):
            r = c.rt(Opt(List(STR)))
            t = content(pz(c))
            n = If(nfound(t) >= 2, nfound(t) - 2, 0)
            e = sel(c.new.larr(r, STR), J)
            return [("none-without-a-list", (r != null) == rd(c)),
                    ("every-name-after-the-source", Implies(rd(c), And(Not(c.old.alloc(r)), c.new.alloc(r), c.new.llen(r) == n))),
                    ("in-order", z3.ForAll([J], Implies(And(rd(c), 0 <= J, J < n), e == sel(found(t), J + 2)), patterns=[e]))]
        self.read = Contract("licant.util:cxx_read_depends", {"path": STR}, ret=Opt(List(STR)), ensures=ens, check_only=True, modifies=lambda c: [("list", "new", STR), ("field", "File", "path", "new")])


SLOW = ()
ASSUMPTIONS = ["a dependency list is the single rule the compiler writes (object: source header ...), with names of letters, digits and _ . / -", "a file does not vanish between the two looks at it"]
TRUSTED = ["re.findall yields the longest runs of a class of characters in order"]


def units(prog):
    s, r = S(prog), R(prog)
    return [(s, [s.link]), (r, [r.read])]
