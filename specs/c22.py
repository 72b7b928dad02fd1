"""C22: nested scripts run relative to their own directory and restore it."""
from pyv.spec import *
from .common import *

SQ = Ref("ScriptQueue", True)
text_of = z3.Function("text_of_file", StrS, StrS)
join = strfun("os.path.join/2", StrS, StrS, StrS)
dirname = strfun("os.path.dirname/1", StrS, StrS)


def argv_of(eng):
    v = V(List(STR), z3.Const("sys.argv", RefS))
    eng.assume(eng.list_len(v) > 0)
    return v


class S(Spec):
    schema = {"ScriptQueue": {"stack": List(STR)}, "File": {"path": STR}, "NoneDictionary": {"$dict": Dict(STR, ANY)}, "Core": {"runtime": Ref("NoneDictionary")}}
    ext_classes = ("File",)
    ext_values = {"sys.argv": lambda eng: argv_of(eng)}
    # the scripts this call has executed itself, in order
    ghosts = {"runs": I, "ran": z3.ArraySort(I, StrS)}

    def stack(self, h, q):
        return h.fld("ScriptQueue", "stack", q)

    def top(self, h, q):
        s = self.stack(h, q)
        return sel(h.larr(s, STR), h.llen(s) - 1)

    def same(self, o, h, q, more=0):
        """the stack is as it was"""
        s = self.stack(o, q)
        i = z3.Int("st_i")
        return And(self.stack(h, q) == s, h.llen(s) == o.llen(s) + more, z3.ForAll([i], Implies(And(0 <= i, i < o.llen(s)), sel(h.larr(s, STR), i) == sel(o.larr(s, STR), i)), patterns=[sel(h.larr(s, STR), i)]))

    def setup(self):
        def ext_open(eng, recv, args, kwargs, node):
            """the file's text is a function of its path during the run"""
            if len(args) > 1 and not (isinstance(args[1], Con) and args[1].v in ("r", "rt")):
                raise Unsupported("open for writing")
            f = eng.alloc("File", Ref("File", True))
            eng.hwrite("f:File.path", STR, f.z, eng.to_term(args[0], STR))
            return f

        def ext_read(eng, recv, args, kwargs, node):
            return V(STR, text_of(HeapView(eng, eng.heap).fld("File", "path", recv.z)))

        def nop(eng, recv, args, kwargs, node):
            return Con(None) if "exit" in str(node) else recv

        def ext_exec(eng, recv, args, kwargs, node):
            """any code may run; it may use the script queue, but only through its methods (whose contracts are proved here), and it may raise or end the program"""
            q = eng.fn_args["self"].z
            h, o = HeapView(eng, eng.heap), eng.fn_old
            # the executed text is the text of the current script
            eng.prove(h.llen(self.stack(h, q)) > 0, "a-script-is-current")
            eng.prove(eng.to_term(args[0], STR) == text_of(self.top(h, q)), "current-script-is-the-one-executed")
            eng.prove(self.same(o, h, q, 1), "outer-scripts-below")
            n = eng.ghost("runs")
            eng.set_ghost("ran", z3.Store(eng.ghost("ran"), n, self.top(h, q)))
            eng.set_ghost("runs", n + 1)
            k = eng.choose()
            if k:
                raise PyRaise("Exception" if eng.choose() else "SystemExit", Con("error status"), eng.where())
            return Con(None)
        self.externals.update({"builtins.open": ext_open, "File.read": ext_read, "builtins.exec": ext_exec, "File.close": nop, "File.__enter__": nop, "File.__exit__": nop,
                               "builtins.globals": lambda eng, recv, args, kwargs, node: Con(None),
                               "builtins.compile": lambda eng, recv, args, kwargs, node: args[0]})
        self.add(Contract("licant.make:source", {"tgt": STR}, assumed=True, doc="registers the script as a source file; does not touch the script queue"))
        self.add(error_contract())
        self.add(Contract("licant.util:error_exception", {"str": STR, "ex": ANY}, raises=[("SystemExit", None)], ensures=lambda c: [("does-not-return", z3.BoolVal(False))]))
        self.contracts["licant.util:error_exception"].no_normal = True
        core = Contract("licant.core:default_core", {}, ret=Ref("Core"), assumed=True)
        self.add(core)

        def req(c):
            s = self.stack(c.old, c.t("self"))
            return [("a-script-is-running", And(s != null, c.old.alloc(s), c.old.llen(s) > 0))]
        mods = lambda c: [("list", self.stack(c.old, c.t("self")), STR), ("ghost", "runs"), ("ghost", "ran"), ("list", "new", STR), ("field", "File", "path", "new")]

        def kept(c):
            i = z3.Int("kp_i")
            return z3.ForAll([i], Implies(i < c.old.ghost("runs"), sel(c.new.ghost("ran"), i) == sel(c.old.ghost("ran"), i)), patterns=[sel(c.new.ghost("ran"), i)])

        def one(path):
            def ens(c):
                n = c.old.ghost("runs")
                return [("current-script-restored", self.same(c.old, c.new, c.t("self"))),
                        ("executed-once", And(c.new.ghost("runs") == n + 1, sel(c.new.ghost("ran"), n) == path(c), kept(c)))]
            return ens
        ended = [("SystemExit", None)]
        self.inner = Contract("licant.scripter:ScriptQueue.__execute", {"self": SQ, "path": STR}, requires=req, ensures=one(lambda c: c.t("path")), modifies=mods, raises=ended)
        self.inner.any_status = False
        self.inner.optional = True
        self.execute = Contract("licant.scripter:ScriptQueue.execute", {"self": SQ, "path": STR}, requires=req, modifies=mods, raises=ended,
                                ensures=one(lambda c: join(dirname(self.top(c.old, c.t("self"))), c.t("path"))))
        self.last = Contract("licant.scripter:ScriptQueue.last", {"self": SQ}, ret=STR, requires=req, ensures=lambda c: [("reports-current-script", c.rt() == self.top(c.old, c.t("self")))])
        self.curdir = Contract("licant.scripter:ScriptQueue.curdir", {"self": SQ}, ret=STR, requires=req,
                               ensures=lambda c: [("reports-directory-of-current-script", c.rt() == dirname(self.top(c.old, c.t("self"))))])
        found = z3.Function("files_found", StrS, RefS)
        self.find = Contract("licant.util:find_recursive", {"root": STR, "pattern": STR, "hide": ANY, "debug": BOOL}, ret=List(STR), assumed=True, modifies=lambda c: [("list", "new", STR)],
                             ensures=lambda c: [("found", And(c.rt() == found(c.t("root")), Not(c.old.alloc(c.rt()))))], doc="lists files below a directory")

        def rec_ens(c):
            i = z3.Int("re_i")
            l = found(join(dirname(self.top(c.old, c.t("self"))), c.t("root")))
            n = c.old.ghost("runs")
            return [("current-script-restored", self.same(c.old, c.new, c.t("self"))),
                    ("each-found-script-once", And(c.new.ghost("runs") == n + c.new.llen(l), z3.ForAll([i], Implies(And(n <= i, i < n + c.new.llen(l)), sel(c.new.ghost("ran"), i) == sel(c.new.larr(l, STR), i - n)),
                                                                                                   patterns=[sel(c.new.ghost("ran"), i)])))]
        self.rec = Contract("licant.scripter:ScriptQueue.execute_recursive", {"self": SQ, "root": STR, "pattern": STR, "hide": ANY, "debug": BOOL}, requires=req, modifies=mods, raises=ended, ensures=rec_ens)
        self.add(self.inner, self.execute, self.last, self.curdir, self.find, self.rec)
        argv = lambda eng, recv, args, kwargs, node: None
        self.init = Contract("licant.scripter:ScriptQueue.__init__", {"self": SQ}, check_only=True, modifies=lambda c: [("field", "ScriptQueue", "stack", [c.t("self")]), ("list", "new", STR)],
                             ensures=lambda c: [("starts-with-one-script", And(self.stack(c.new, c.t("self")) != null, c.new.llen(self.stack(c.new, c.t("self"))) == 1))])

    def invariants(self, c):
        out = []
        if c.eng.verifying is self.rec and c.idx is not None:
            q = c.eng.fn_args["self"].z
            i = z3.Int("iv_i")
            n = c.at_entry.ghost("runs")
            r = c.h.ghost("ran")
            out.append(("stack", self.same(c.old, c.h, q)))
            out.append(("runs", c.h.ghost("runs") == n + c.idx))
            out.append(("ran", z3.ForAll([i], Implies(And(n <= i, i < n + c.idx), sel(r, i) == sel(c.src.array(), i - n)), patterns=[sel(r, i)])))
        return out


SLOW = ()
ASSUMPTIONS = ["os.path.join and os.path.dirname are fixed functions of their arguments", "the text of a script file does not change while scripts run",
               "scripts change the script queue only by calling its methods"]
TRUSTED = ["licant.make.source", "licant.util.find_recursive"]


def units(prog):
    s = S(prog)
    return [(s, [s.inner, s.execute, s.last, s.curdir, s.rec, s.init, s.contracts["licant.util:error_exception"],
                 PrivateField("stack", ["licant.scripter:ScriptQueue.*", "licant.modules:*"])])]
