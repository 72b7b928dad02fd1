"""Contracts about running a shell command for a target."""
from .files_common import *

PROC = Ref("Popen", True)
BT = Ref("ByteText", True)
fmt = z3.Function("formatted_with", StrS, AnyS, StrS)     # a template with the placeholders replaced by the named values
dict_of = z3.Function("dict_of", RefS, AnyS)              # the attributes of a target
text_of = z3.Function("text_of_bytes", RefS, StrS)
quiet_msg = z3.Function("is_quite", AnyS, B)
msg_of = z3.Function("attribute_of", RefS, StrS, AnyS)
OUT, ERR, STATUS = z3.Const("command_stdout", RefS), z3.Const("command_stderr", RefS), z3.Int("command_status")


class ExecSpec(FileSpec):
    """do_execute; the command itself may change the disk but not the program's records."""
    records = True

    def setup(self):
        self.schema = dict(self.schema)
        self.schema.update({"Popen": {"done": BOOL}, "ByteText": {}, "Lock": {}, "Executor": {"rule": STR, "msgfield": STR}})
        self.ext_classes = tuple(self.ext_classes) + ("Popen", "ByteText", "Lock")
        # how often a command was run, which, whether its output was read, which texts were printed, whether printing failed
        self.ghosts = dict(self.ghosts)
        self.ghosts.update({"runs": I, "cmd": StrS, "ended": B, "printed": z3.ArraySort(StrS, B), "printfail": B, "acts": I, "status": AnyS})
        FileSpec.setup(self)

    def more(self):
        def start(eng, rule, kwargs):
            sh = kwargs.get("shell")
            eng.prove(isinstance(sh, Con) and sh.v is True, "run-by-the-shell")
            if any(k not in ("shell", "stdout", "stderr", "capture_output", "check", "stdin", "executable", "close_fds", "bufsize") for k in kwargs) or "executable" in kwargs or "stdin" in kwargs:
                raise Unsupported("options of a command: %s" % sorted(kwargs))
            piped = lambda k: isinstance(kwargs.get(k), ExtV) and kwargs[k].name == "subprocess.PIPE"
            cap = isinstance(kwargs.get("capture_output"), Con) and kwargs["capture_output"].v is True
            eng.prove(cap or (piped("stdout") and piped("stderr")), "output-is-captured")
            r = eng.to_term(rule, STR)
            eng.prove(eng.ghost("runs") == 0, "the-command-is-run-once")
            eng.set_ghost("runs", eng.ghost("runs") + 1)
            eng.set_ghost("cmd", r)
            # the command may do anything to files
            eng.set_ghost("disk_ex", eng.fresh("disk_ex", AB))
            eng.set_ghost("disk_mt", eng.fresh("disk_mt", AR))
            p = eng.alloc("Popen", PROC)
            eng.hwrite("f:Popen.done", BOOL, p.z, z3.BoolVal(False))
            return p

        def ext_popen(eng, recv, args, kwargs, node):
            """runs the text as a shell command, which ends with some exit status after writing any bytes to its two streams"""
            if len(args) != 1 or "check" in kwargs or "capture_output" in kwargs:
                raise Unsupported("Popen")
            return start(eng, args[0], kwargs)

        def done(eng, p):
            eng.hwrite("f:Popen.done", BOOL, p.z, z3.BoolVal(True))

        def ext_run(eng, recv, args, kwargs, node):
            """runs the text as a shell command, waits for its end and collects its output"""
            ch = kwargs.get("check")
            p = start(eng, args[0], kwargs)
            done(eng, p)
            if ch is not None and not (isinstance(ch, Con) and ch.v is False):
                raise Unsupported("run with check")
            return p

        def ext_comm(eng, recv, args, kwargs, node):
            """reads both streams to their end and waits for the end of the command"""
            if args or kwargs:
                raise Unsupported("communicate with arguments")
            done(eng, recv)
            return Tup([V(BT, OUT), V(BT, ERR)])

        def ext_wait(eng, recv, args, kwargs, node):
            """waits for the end of the command, which does not come before its output has been read"""
            eng.prove(HeapView(eng, eng.heap).fld("Popen", "done", recv.z), "output-is-read-before-waiting")
            return V(INT, STATUS)

        def rc(eng, o):
            if eng.branch(HeapView(eng, eng.heap).fld("Popen", "done", o.z)):
                return V(INT, STATUS)
            return Con(None)

        def stream(z):
            def f(eng, o):
                eng.prove(HeapView(eng, eng.heap).fld("Popen", "done", o.z), "output-is-complete")
                return V(BT, z)
            return f
        self.attr_hooks[("Popen", "returncode")] = rc
        self.attr_hooks[("Popen", "stdout")] = stream(OUT)
        self.attr_hooks[("Popen", "stderr")] = stream(ERR)

        def ext_decode(eng, recv, args, kwargs, node):
            """the text of the bytes; fails on bytes that are not UTF-8 unless they are replaced"""
            a = list(args)
            enc = a[0] if a else kwargs.get("encoding", Con("utf-8"))
            err = a[1] if len(a) > 1 else kwargs.get("errors", Con("strict"))
            if not isinstance(enc, Con) or enc.v.lower().replace("_", "-") not in ("utf-8", "utf8") or not isinstance(err, Con):
                raise Unsupported("decode")
            if err.v == "strict" and eng.choose():
                raise PyRaise("UnicodeDecodeError", None, eng.where())
            if err.v not in ("strict", "replace", "backslashreplace"):
                return V(STR, z3.Function("text_of_bytes_" + err.v, RefS, StrS)(recv.z))
            return V(STR, text_of(recv.z))

        def ext_print(eng, recv, args, kwargs, node):
            """writes the texts to the program's own output; writing text that is not literal may fail"""
            lits = all(isinstance(a, (Con, ExcV)) for a in args)
            if not lits and eng.choose():
                eng.set_ghost("printfail", z3.BoolVal(True))
                raise PyRaise("Exception", None, eng.where())
            for a in args:
                if isinstance(a, V) and eng.is_str(a):
                    eng.set_ghost("printed", z3.Store(eng.ghost("printed"), eng.to_term(a, STR), z3.BoolVal(True)))
            return Con(None)
        nop = lambda eng, recv, args, kwargs, node: Con(None)
        lock = lambda eng, recv, args, kwargs, node: eng.alloc("Lock", Ref("Lock", True))
        self.externals.update({"subprocess.Popen": ext_popen, "subprocess.run": ext_run, "Popen.communicate": ext_comm, "Popen.wait": ext_wait, "ByteText.decode": ext_decode, "builtins.print": ext_print,
                               "sys.stdout.write": ext_print, "sys.stderr.write": ext_print, "sys.stdout.flush": nop, "sys.stderr.flush": nop, "threading.RLock": lock, "threading.Lock": lock, "Lock.__enter__": nop, "Lock.__exit__": nop,
                               "Lock.acquire": nop, "Lock.release": nop})
        A = lambda c: c.t("target")
        printed = lambda h, t: sel(h.ghost("printed"), t)

        def ens(c):
            h, o = c.new, c.old
            rule = self.rule_of(c)
            p = z3.Const("ex_p", StrS)
            out = [("the-command-was-run-once", And(h.ghost("runs") == 1, h.ghost("cmd") == fmt(rule, dict_of(A(c))))),
                   ("true-exactly-on-status-0", c.rt() == (STATUS == 0)),
                   ("output-is-forwarded", Implies(Not(h.ghost("printfail")), And(printed(h, text_of(OUT)), printed(h, text_of(ERR)))))]
            return out + self.after(c)
        self.ens = ens
        live = lambda c: [("live", And(A(c) != null, c.old.alloc(A(c)), c.old.fld("Target", "core", A(c)) != null, c.old.alloc(c.old.fld("Target", "core", A(c))),
                                       c.old.alloc(c.old.fld("Core", "runtime", c.old.fld("Target", "core", A(c)))), c.old.fld("Core", "runtime", c.old.fld("Target", "core", A(c))) != null)),
                          ("nothing-run", And(c.old.ghost("runs") == 0, Not(c.old.ghost("printfail")))),
                          ("the-cache", And(self.G(c.old) != null, c.old.alloc(self.G(c.old))))] + self.wf_cache(c.old)
        mods = lambda c: [("dict", self.cache(c.old), STR, FI), ("field", "fileinfo", "exist", "new"), ("field", "fileinfo", "mtime", "new"), ("field", "stat_result", "path", "new"), ("field", "Popen", "done", "new")] + \
            [("ghost", g) for g in ("runs", "cmd", "printed", "printfail", "disk_ex", "disk_mt")]
        P = lambda t: {"target": t, "rule": STR, "msgfield": STR, "prefix": Opt(STR)}
        D = "licant.make:do_execute"
        E = Ref("Executor", True)
        self.is_file = None
        self.rule_of = lambda c: c.t("rule") if "rule" in c.args else c.old.fld("Executor", "rule", c.t("self"))
        self.do_ft = self.add(Contract(D, P(FT), ret=BOOL, requires=live, ensures=ens, modifies=mods))
        self.do_plain = [Contract(D, P(Ref(k, True)), ret=BOOL, requires=live, ensures=ens, modifies=mods, check_only=True) for k in ("Target", "UpdatableTarget")]
        X = "licant.make:Executor.__call__"
        PX = {"self": E, "target": FT}

        def kw(eng):
            return KwV({})
        self.ex_call = Contract(X, {"self": E, "target": FT, "kwargs": kw}, ret=BOOL, requires=live, ensures=ens, modifies=mods, check_only=True)
        R = lambda c: c.t("self")
        self.ex_init = Contract("licant.make:Executor.__init__", {"self": E, "rule": STR, "msgfield": STR}, check_only=True, modifies=lambda c: [("field", "Executor", "rule", [R(c)]), ("field", "Executor", "msgfield", [R(c)])],
                                ensures=lambda c: [("keeps-the-command", c.new.fld("Executor", "rule", R(c)) == c.t("rule"))])

        self.upd_once = Contract("licant.make:FileTarget.update", {"self": FT}, ret=ANY, check_only=True, modifies=lambda c: mods(c) + [("ghost", "acts"), ("ghost", "status")],
                                 requires=lambda c: self.wf_cache(c.old) + [("nothing-run", c.old.ghost("acts") == 0), ("live", c.old.alloc(c.t("self"))), ("the-cache", And(self.G(c.old) != null, c.old.alloc(self.G(c.old))))],
                                 ensures=lambda c: [("the-action-is-run-once", c.new.ghost("acts") == 1), ("its-result", c.rt(ANY) == c.new.ghost("status"))],
                                 raises=[("Exception", None, lambda c: [("the-action-is-run-once", c.new.ghost("acts") == 1)])])

    def call_fn(self, eng, f, args, kwargs, node):
        """a build action: changes the disk, may raise"""
        h = HeapView(eng, eng.heap)
        me = eng.fn_args["self"].z
        eng.prove(f.z == h.fld("FileTarget", "build", me), "the-target's-own-action")
        eng.prove(len(args) == 1 and not kwargs and isinstance(args[0], V) and z3.is_true(z3.simplify(args[0].z == me)), "for-the-target")
        eng.set_ghost("acts", eng.ghost("acts") + 1)
        eng.set_ghost("disk_ex", eng.fresh("disk_ex", AB))
        eng.set_ghost("disk_mt", eng.fresh("disk_mt", AR))
        if eng.choose():
            raise PyRaise("Exception", None, "the build action")
        r = eng.fresh("status", AnyS)
        eng.set_ghost("status", r)
        return V(ANY, r)

    def after(self, c):
        if not self.records:
            return []
        t = c.args["target"].t
        if prune(t).args[0] != "FileTarget":
            return []
        n = c.old.fld("Target", "tgt", c.t("target"))
        return [("recorded-state-is-that-on-disk", self.is_current(c.new, n)), ("other-records-unchanged", self.same_records(c.old, c.new, n))]

    def hook_str_method(self, eng, name, recv, args, kwargs, node):
        if name == "format" and set(kwargs) == {"**"} and not args:
            d = kwargs["**"]
            return V(STR, fmt(eng.to_term(recv, STR), eng.to_any(d)))
        if name == "format_map" and len(args) == 1:
            return V(STR, fmt(eng.to_term(recv, STR), eng.to_any(args[0])))
        return None

    def hook_getattr(self, eng, o, n, default):
        """the message of a target: an attribute that may be missing, None, a text or the quiet mark"""
        t = prune(o.t) if isinstance(o, V) else None
        if t is None or t.kind != "ref" or isinstance(n, Con) and eng.field_decl(t.args[0], n.v):
            return None
        m = msg_of(o.z, eng.to_term(n, STR))
        if isinstance(default, Con) and default.v is None:
            if eng.branch(m == eng.to_any(Con(None))):
                return Con(None)
            return V(ANY, m)
        raise Unsupported("getattr")

    def hook_isinstance(self, eng, v, names):
        return None

    def hook_any_attr(self, eng, o, attr):
        """the message is a text"""
        if attr == "format":
            return ExtV("str.format", V(STR, eng.fresh("message", StrS)))
        return None
