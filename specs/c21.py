"""C21: a library is included once, from the right place; the registry keeps the rest."""
from pyv.spec import *
from .common import *

D = Dict(STR, STR)
AB = z3.ArraySort(StrS, B)
AS = z3.ArraySort(StrS, StrS)
join = strfun("os.path.join/2", StrS, StrS, StrS)
dirname = strfun("os.path.dirname/1", StrS, StrS)
basename = strfun("os.path.basename/1", StrS, StrS)
abspath = strfun("os.path.abspath/1", StrS, StrS)
expuser = strfun("os.path.expanduser/1", StrS, StrS)
exists0 = z3.Function("file_exists", StrS, B)
L = "licant.libs"
U = "licant.licant_libs"


class S(Spec):
    schema = {"ScriptQueue": {"stack": List(STR)}, "File": {"path": STR, "mode": STR}, "OptionParser": {"$n": INT}, "Values": {}, "Core": {"runtime": Ref("NoneDictionary")}, "NoneDictionary": {"$dict": Dict(STR, ANY)}}
    ext_classes = ("File", "OptionParser", "Values")
    globals = {L + ":libs": Opt(D), L + ":included": D, L + ":glibs": D, L + ":llibs": D, "licant.scripter:scriptq": Ref("ScriptQueue", True), U + ":paths": D}
    # what the registry files hold (names and values), how often the script of a library was started, where from, and by which include the last one
    ghosts = {"disk_dom": z3.ArraySort(StrS, AB), "disk_val": z3.ArraySort(StrS, AS), "runs": z3.ArraySort(StrS, I), "ran": AS, "lib": StrS}
    ext_values = {"sys.argv": lambda eng: V(List(STR), z3.Const("sys.argv", RefS))}

    def gpath(self):
        return lit("/var/lib/licant")

    def lpath(self):
        return expuser(lit("~/.licant"))

    # the registry as it is to be used: entries of the user override those of the system
    def reg_has(self, h, k):
        u = And(exists0(self.lpath()), sel(sel(h.ghost("disk_dom"), self.lpath()), k))
        s = And(exists0(self.gpath()), sel(sel(h.ghost("disk_dom"), self.gpath()), k))
        return Or(u, s)

    def reg_val(self, h, k):
        u = And(exists0(self.lpath()), sel(sel(h.ghost("disk_dom"), self.lpath()), k))
        return If(u, sel(sel(h.ghost("disk_val"), self.lpath()), k), sel(sel(h.ghost("disk_val"), self.gpath()), k))

    def wf(self, h):
        libs, inc, gl, ll = h.glob(L, "libs"), h.glob(L, "included"), h.glob(L, "glibs"), h.glob(L, "llibs")
        k = z3.Const("wf_k", StrS)
        dom, val = h.ddom(libs, STR, STR), h.dval(libs, STR, STR)
        return [("live", And(inc != null, h.alloc(inc), gl != null, h.alloc(gl), ll != null, h.alloc(ll), Implies(libs != null, h.alloc(libs)), inc != gl, inc != ll, inc != libs)),
                ("nothing-loaded-before", Implies(libs == null, z3.ForAll([k], And(Not(sel(h.ddom(gl, STR, STR), k)), Not(sel(h.ddom(ll, STR, STR), k)))))),
                ("registry-loaded", Implies(libs != null, z3.ForAll([k], And(sel(dom, k) == self.reg_has(h, k), Implies(sel(dom, k), sel(val, k) == self.reg_val(h, k))), patterns=[sel(dom, k), sel(val, k)])))]

    def once(self, h):
        inc = h.glob(L, "included")
        k = z3.Const("on_k", StrS)
        r = sel(h.ghost("runs"), k)
        return [("script-runs-once-per-included-library", z3.ForAll([k], r == If(sel(h.ddom(inc, STR, STR), k), 1, 0), patterns=[r, sel(h.ddom(inc, STR, STR), k)]))]

    def grows(self, o, h):
        i0, i1 = o.glob(L, "included"), h.glob(L, "included")
        k = z3.Const("gr_k", StrS)
        d0, d1 = o.ddom(i0, STR, STR), h.ddom(i1, STR, STR)
        return [("included-stays-included", z3.ForAll([k], Implies(sel(d0, k), And(sel(d1, k), sel(h.ghost("ran"), k) == sel(o.ghost("ran"), k))), patterns=[sel(d1, k)]))]

    MODS = lambda self: [("global", L + "." + n, self.globals[L + ":" + n]) for n in ("libs", "glibs", "llibs")] + \
        [("dict", None, STR, STR), ("ghost", "runs"), ("ghost", "ran"), ("field", "File", "path", "new"), ("field", "File", "mode", "new")]

    def setup(self):
        # ---------------------------------------------------------------- files
        def ext_open(eng, recv, args, kwargs, node):
            """opening a registry file for writing empties it; it may fail, and then nothing is changed"""
            mode = args[1] if len(args) > 1 else kwargs.get("mode", Con("r"))
            if not isinstance(mode, Con):
                raise Unsupported("open with unknown mode")
            p = eng.to_term(args[0], STR)
            f = eng.alloc("File", Ref("File", True))
            if "w" in mode.v:
                if eng.choose():
                    raise PyRaise("OSError", Con("cannot be written"))
                eng.set_ghost("disk_dom", z3.Store(eng.ghost("disk_dom"), p, z3.EmptySet(StrS)))
                self.written = True
            elif mode.v not in ("r", "rt"):
                raise Unsupported("open with mode %s" % mode.v)
            elif eng.choose():
                raise PyRaise("OSError", Con("cannot be read"))
            eng.hwrite("f:File.path", STR, f.z, p)
            eng.hwrite("f:File.mode", STR, f.z, lit(mode.v[:1]))
            return f

        def ext_load(eng, recv, args, kwargs, node):
            """gives the entries of the file, a map from names to paths"""
            p = HeapView(eng, eng.heap).fld("File", "path", args[0].z)
            d = eng.new_dict(("json",), STR, STR)
            if eng.choose():
                raise PyRaise("ValueError", Con("wrong format"))
            eng.hwrite("D:dom:str:str", D, d.z, sel(eng.ghost("disk_dom"), p))
            eng.hwrite("D:val:str:str", D, d.z, sel(eng.ghost("disk_val"), p))
            return d

        def ext_dump(eng, recv, args, kwargs, node):
            """writes the entries to the file"""
            h = HeapView(eng, eng.heap)
            f = args[1].z
            eng.prove(h.fld("File", "mode", f) == lit("w"), "file-is-open-for-writing")
            p = h.fld("File", "path", f)
            d = args[0]
            eng.set_ghost("disk_dom", z3.Store(eng.ghost("disk_dom"), p, eng.dict_dom(d)))
            eng.set_ghost("disk_val", z3.Store(eng.ghost("disk_val"), p, eng.dict_val(d)))
            return Con(None)

        def ext_exists(eng, recv, args, kwargs, node):
            """does not change during the run, except by writing the registry file"""
            return V(BOOL, exists0(eng.to_term(args[0], STR)))
        nop = lambda eng, recv, args, kwargs, node: recv if recv is not None else Con(None)
        self.externals.update({"builtins.open": ext_open, "json.load": ext_load, "json.dump": ext_dump, "os.path.exists": ext_exists, "json.dumps": lambda eng, r, a, k, n: V(STR, eng.fresh("text", StrS)),
                               "File.__enter__": nop, "File.__exit__": lambda eng, r, a, k, n: Con(None), "File.close": lambda eng, r, a, k, n: Con(None),
                               "os.makedirs": lambda eng, r, a, k, n: Con(None), "os.symlink": lambda eng, r, a, k, n: Con(None)})
        # ---------------------------------------------------------------- include
        G = lambda h: h.glob(L, "included")

        def runs_script(eng, c):
            k = eng.fn_args["lib"].z
            eng.set_ghost("runs", z3.Store(eng.ghost("runs"), k, sel(eng.ghost("runs"), k) + 1))
            eng.set_ghost("ran", z3.Store(eng.ghost("ran"), k, c.t("path")))
        self.execute = Contract("licant.scripter:ScriptQueue.execute", {"self": Ref("ScriptQueue", True), "path": STR}, assumed=True, pre_call=runs_script,
                                doc="the script runs (C22); it may include libraries, by the contract of include; it may end the program",
                                requires=lambda c: self.wf(c.old) + self.once(c.old), ensures=lambda c: self.wf(c.new) + self.once(c.new) + self.grows(c.old, c.new),
                                modifies=lambda c: self.MODS(), raises=[("SystemExit", None)])
        self.about = Contract(L + ":print_about_lib", {"lib": STR, "path": STR}, assumed=True, doc="prints only", optional=True)
        self.add(self.execute, self.about)
        self.init = self.add(Contract(L + ":init", {}, requires=lambda c: self.wf(c.old) + [("first", c.old.glob(L, "libs") == null)],
                                      ensures=lambda c: self.wf(c.new) + [("loaded", c.new.glob(L, "libs") != null)] + [("included-kept", And(G(c.new) == G(c.old), c.new.ddom(G(c.old), STR, STR) == c.old.ddom(G(c.old), STR, STR)))],
                                      modifies=lambda c: [("global", L + "." + n, self.globals[L + ":" + n]) for n in ("libs", "glibs", "llibs")] + [("dict", "new", STR, STR), ("field", "File", "path", "new"), ("field", "File", "mode", "new")],
                                      raises=[("ValueError", None), ("OSError", None)]))

        def was(c):
            return sel(c.old.ddom(G(c.old), STR, STR), c.t("lib"))

        def inc_ens(c, where=None):
            o, h, k = c.old, c.new, c.t("lib")
            d = opt_dt(STR)
            if where is None:
                p = c.t("path", Opt(STR))
                where = If(d[4](p), self.reg_val(o, k), d[3](p))
                ok = Or(was(c), Not(d[4](p)), self.reg_has(o, k))
            else:
                ok = True
            x = z3.Const("ie_x", StrS)
            return self.wf(h) + self.once(h) + self.grows(o, h) + [
                ("included", sel(h.ddom(G(h), STR, STR), k)), ("script-run-once", sel(h.ghost("runs"), k) == 1),
                ("from-the-right-place", Implies(Not(was(c)), sel(h.ghost("ran"), k) == where)),
                ("registered", ok)]
        failed = lambda c: [("nothing-else-ran", True)]
        inc = dict(requires=lambda c: self.wf(c.old) + self.once(c.old), modifies=lambda c: self.MODS(), raises=[("SystemExit", None), ("ValueError", None), ("OSError", None)])
        self.include = self.add(Contract(L + ":include", {"lib": STR, "path": Opt(STR), "local_tunel": lambda eng: Con(None)}, ensures=inc_ens, **inc))
        tun = lambda eng: Tup([V(STR, z3.Const("tunel_link", StrS)), V(STR, z3.Const("tunel_script", StrS))])
        inc["raises"] = inc["raises"] + [("KeyError", lambda c: Not(self.reg_has(c.old, c.t("lib"))))]
        self.tunnel = Contract(L + ":include", {"lib": STR, "path": lambda eng: Con(None), "local_tunel": tun},
                               ensures=lambda c: inc_ens(c, join(z3.Const("tunel_link", StrS), z3.Const("tunel_script", StrS))), **inc)
        # ---------------------------------------------------------------- the registry command
        flag = lambda n: z3.Bool("given:" + n)
        ARGS = z3.Const("command_arguments", RefS)

        def ext_parser(eng, recv, args, kwargs, node):
            """option parsing as documented: store_true options"""
            eng.ext_state["options"] = {}
            return eng.alloc("OptionParser", Ref("OptionParser", True))

        def ext_add(eng, recv, args, kwargs, node):
            names = [a.v for a in args if isinstance(a, Con)]
            act, dflt = kwargs.get("action"), kwargs.get("default")
            if len(names) != len(args) or not isinstance(act, Con) or act.v != "store_true" or not isinstance(dflt, Con) or dflt.v is not False:
                raise Unsupported("option %r" % (names,))
            long = [n for n in names if n.startswith("--")]
            dest = kwargs["dest"].v if "dest" in kwargs else long[0].lstrip("-").replace("-", "_")
            eng.ext_state["options"][dest] = names
            return Con(None)

        def ext_parse(eng, recv, args, kwargs, node):
            """an unknown option ends the program"""
            if eng.choose():
                raise PyRaise("SystemExit", Con(2))
            v = eng.alloc("Values", Ref("Values", True))
            a = V(List(STR), ARGS)
            eng.assume(And(ARGS != null, eng.list_len(a) >= 0))
            return Tup([v, a])

        def option(name):
            def f(eng, o):
                names = eng.ext_state["options"].get(name)
                if names is None:
                    raise PyRaise("AttributeError")
                short = [n for n in names if not n.startswith("--")]
                return V(BOOL, flag(short[0] if short else names[0]))
            return f
        for n in ("user", "remove", "list"):
            self.attr_hooks[("Values", n)] = option(n)

        def ext_error(eng, recv, args, kwargs, node):
            raise PyRaise("SystemExit", Con(2))

        def ext_glob(eng, recv, args, kwargs, node):
            """the files a pattern matches"""
            return V(List(STR), z3.Const("matching_files", RefS))
        self.externals.update({"optparse.OptionParser": ext_parser, "OptionParser.add_option": ext_add, "OptionParser.parse_args": ext_parse, "OptionParser.error": ext_error,
                               "OptionParser.print_help": lambda eng, r, a, k, n: Con(None), "glob.glob": ext_glob})

        def F():
            return If(flag("-u"), self.lpath(), self.gpath())

        def content(h, f, k):
            return And(exists0(f) if h is self._old else True, sel(sel(h.ghost("disk_dom"), f), k)), sel(sel(h.ghost("disk_val"), f), k)

        def first_name(o, i):
            """the name under which a found file is registered: its base name up to the first dot"""
            return z3.Function("before_first_dot", StrS, StrS)(basename(sel(o.larr(z3.Const("matching_files", RefS), STR), i)))

        def util_ens(c):
            o, h = c.old, c.new
            self._old = o
            f = F()
            k, p = z3.Consts("ut_k ut_p", StrS)
            n = o.llen(ARGS)
            a0, a1 = sel(o.larr(ARGS, STR), 0), sel(o.larr(ARGS, STR), 1)
            oh, ov = content(o, f, k)
            nh, nv = content(h, f, k)
            add = And(Not(flag("-r")), n == 2)
            same = And(nh == oh, Implies(nh, nv == ov))
            i = z3.Int("ut_i")
            named = z3.Exists([i], And(0 <= i, i < o.llen(z3.Const("matching_files", RefS)), first_name(o, i) == k))
            return [("only-with-arguments", Or(And(flag("-r"), n == 1), And(Not(flag("-r")), Or(n == 1, n == 2)))),
                    ("not-a-listing", Not(flag("-l"))),
                    ("removes-exactly-that-entry", Implies(flag("-r"), z3.ForAll([k], If(k == a0, Not(nh), same)))),
                    ("adds-exactly-that-entry", Implies(add, z3.ForAll([k], If(k == a0, And(nh, nv == abspath(a1)), same)))),
                    ("adds-only-the-found", Implies(And(Not(flag("-r")), n == 1), z3.ForAll([k], Or(named, same)))),
                    ("adds-the-found", Implies(And(Not(flag("-r")), n == 1), z3.ForAll([k], Implies(named, nh)))),
                    ("other-files-unchanged", z3.ForAll([p], Implies(p != f, And(sel(h.ghost("disk_dom"), p) == sel(o.ghost("disk_dom"), p), sel(h.ghost("disk_val"), p) == sel(o.ghost("disk_val"), p))))),
                    ]

        def untouched(c):
            p = z3.Const("un_p", StrS)
            return [("no-file-changed", z3.ForAll([p], And(sel(c.new.ghost("disk_dom"), p) == sel(c.old.ghost("disk_dom"), p), sel(c.new.ghost("disk_val"), p) == sel(c.old.ghost("disk_val"), p))))]
        umods = lambda c: [("global", U + ".paths", D), ("dict", None, STR, STR), ("ghost", "disk_dom"), ("ghost", "disk_val"), ("field", "File", "path", "new"), ("field", "File", "mode", "new"),
                           ("field", "OptionParser", "$n", "new")]
        MF = z3.Const("matching_files", RefS)
        self.util = Contract(U + ":licant_libs_utility", {}, requires=lambda c: [("live", And(c.old.alloc(ARGS), c.old.alloc(c.old.glob(U, "paths")), c.old.alloc(MF), c.old.llen(MF) >= 0))], ensures=util_ens,
                             modifies=umods, raises=[("SystemExit", None, untouched), ("OSError", None, untouched)], check_only=True)
        self.util.any_status = True

        def str_hook(eng, recv, args, kwargs, node):
            """the first part of a split at a dot is what stands before the first dot"""
            if not (isinstance(args[0], Con) and args[0].v == "." and len(args) == 1):
                raise Unsupported("split")
            a = eng.new_list([V(STR, z3.Function("before_first_dot", StrS, StrS)(eng.to_term(recv, STR)))], ("split", id(node)), STR)
            return a
        self.externals["str.split"] = str_hook

    def invariants(self, c):
        out = []
        if c.eng.verifying is self.util and c.idx is not None:
            h = c.h
            P = c.h.glob(U, "paths")
            k = z3.Const("iu_k", StrS)
            i = z3.Int("iu_i")
            f = If(z3.Bool("given:-u"), self.lpath(), self.gpath())
            o = c.old
            oh, ov = And(exists0(f), sel(sel(o.ghost("disk_dom"), f), k)), sel(sel(o.ghost("disk_val"), f), k)
            nh, nv = sel(h.ddom(P, STR, STR), k), sel(h.dval(P, STR, STR), k)
            nm = z3.Function("before_first_dot", StrS, StrS)(basename(sel(c.src.array(), i)))
            named = z3.Exists([i], And(0 <= i, i < c.idx, nm == k))
            out.append(("kept", z3.ForAll([k], Or(named, And(nh == oh, Implies(nh, nv == ov))))))
            out.append(("added", z3.ForAll([k], Implies(named, nh))))
        return out


SLOW = ()
ASSUMPTIONS = ["registry files hold maps from names to strings; writing one does not fail halfway", "the path of the user's registry and the existence of the registry files do not change during the run",
               "scripts change the list of included libraries only by calling include"]
TRUSTED = ["licant.scripter.ScriptQueue.execute (contract proved as C22)", "optparse as documented for store_true options"]


def units(prog):
    s = S(prog)
    return [(s, [s.init, s.include, s.tunnel, s.util, PrivateField("included", ["licant.libs:*"])])]
