"""Contracts about the file cache and the disk that several properties share."""
from pyv.spec import *
from .common import *

FI = Ref("fileinfo", True)
FC = Ref("FileCache", True)
FT = Ref("FileTarget")
CACHE = Dict(STR, FI)
AB = z3.ArraySort(StrS, B)
AR = z3.ArraySort(StrS, z3.RealSort())

file_schema = {k: dict(v) for k, v in core_schema.items()}
file_schema["fileinfo"] = {"exist": BOOL, "mtime": REAL}
file_schema["FileCache"] = {"cache": CACHE}
file_schema["stat_result"] = {"path": STR}
file_schema["FileTarget"] = {"build": FN, "force": BOOL, "isfile": BOOL, "quoted_tgt": STR, "clrmsg": STR}


def shapes(prog):
    """the class of the recorded state, by the name it has in the source"""
    return [k for k in prog.classes if k.split(".")[-1] == "fileinfo"]


class FileSpec(Spec):
    schema = file_schema
    ext_classes = ("stat_result",)
    globals = {"licant.cache:fcache": FC}
    # what the disk holds: which paths exist, and their modification times
    ghosts = {"disk_ex": AB, "disk_mt": AR}

    def cache(self, h, c=None):
        return h.fld("FileCache", "cache", h.glob("licant.cache", "fcache") if c is None else c)

    def seen(self, h, p, c=None):
        return sel(h.ddom(self.cache(h, c), STR, FI), p)

    def info(self, h, p, c=None):
        return sel(h.dval(self.cache(h, c), STR, FI), p)

    def rec_ex(self, h, p, c=None):
        return h.fld("fileinfo", "exist", self.info(h, p, c))

    def rec_mt(self, h, p, c=None):
        return h.fld("fileinfo", "mtime", self.info(h, p, c))

    def now_ex(self, h, p):
        return sel(h.ghost("disk_ex"), p)

    def now_mt(self, h, p):
        return If(self.now_ex(h, p), sel(h.ghost("disk_mt"), p), z3.RealVal(0))

    # the state used for decisions: the recorded one, or that on disk at the first lookup
    def ex(self, h, p, c=None):
        return If(self.seen(h, p, c), self.rec_ex(h, p, c), self.now_ex(h, p))

    def mt(self, h, p, c=None):
        return If(self.seen(h, p, c), self.rec_mt(h, p, c), self.now_mt(h, p))

    def is_current(self, h, p, c=None):
        return And(self.seen(h, p, c), self.rec_ex(h, p, c) == self.now_ex(h, p), self.rec_mt(h, p, c) == self.now_mt(h, p))

    def wf_cache(self, h, c=None):
        p = z3.Const("wfc_p", StrS)
        i = self.info(h, p, c)
        return [("cache", And(self.cache(h, c) != null, h.alloc(self.cache(h, c)))),
                ("records", z3.ForAll([p], Implies(self.seen(h, p, c), And(i != null, h.alloc(i))), patterns=[i]))]

    def same_records(self, o, h, but=None, c=None):
        """what is recorded for other paths is unchanged"""
        p = z3.Const("sr_p", StrS)
        i = self.info(h, p, c)
        same = And(self.seen(h, p, c) == self.seen(o, p, c), Implies(self.seen(o, p, c), And(self.rec_ex(h, p, c) == self.rec_ex(o, p, c), self.rec_mt(h, p, c) == self.rec_mt(o, p, c))))
        return z3.ForAll([p], same if but is None else Implies(p != but, same), patterns=[i, sel(h.ddom(self.cache(h, c), STR, FI), p)])

    def same_view(self, o, h):
        """no decision changes"""
        p = z3.Const("sv_p", StrS)
        return z3.ForAll([p], And(self.ex(h, p) == self.ex(o, p), self.mt(h, p) == self.mt(o, p), Implies(self.seen(o, p), self.seen(h, p))), patterns=[self.info(h, p), sel(h.ddom(self.cache(h), STR, FI), p)])

    RECMODS = [("dict", None, STR, FI), ("field", "fileinfo", "exist", "new"), ("field", "fileinfo", "mtime", "new")]

    def setup(self):
        for k in ("f", "mt"):
            pass

        def ext_exists(eng, recv, args, kwargs, node):
            """tells whether the path exists now"""
            return V(BOOL, sel(eng.ghost("disk_ex"), eng.to_term(args[0], STR)))

        def ext_stat(eng, recv, args, kwargs, node):
            """fails if the path does not exist, else gives its modification time now"""
            p = eng.to_term(args[0], STR)
            if not eng.branch(sel(eng.ghost("disk_ex"), p)):
                raise PyRaise("FileNotFoundError", None, eng.where())
            r = eng.alloc("stat_result", Ref("stat_result", True))
            eng.hwrite("f:stat_result.path", STR, r.z, p)
            return r

        def ext_getmtime(eng, recv, args, kwargs, node):
            """the same as os.stat(path).st_mtime"""
            p = eng.to_term(args[0], STR)
            if not eng.branch(sel(eng.ghost("disk_ex"), p)):
                raise PyRaise("FileNotFoundError", None, eng.where())
            return V(REAL, sel(eng.ghost("disk_mt"), p))
        self.attr_hooks[("stat_result", "st_mtime")] = lambda eng, o: V(REAL, sel(eng.ghost("disk_mt"), HeapView(eng, eng.heap).fld("stat_result", "path", o.z)))
        self.externals.update({"os.path.exists": ext_exists, "os.stat": ext_stat, "os.path.getmtime": ext_getmtime})
        S = lambda c: c.t("self")
        own = [("field", "stat_result", "path", "new")]
        self.fi_init = Contract("licant.cache:FileCache.fileinfo.__init__", {"self": FI, "path": STR}, check_only=True,
                                modifies=lambda c: [("field", "fileinfo", "exist", [S(c)]), ("field", "fileinfo", "mtime", [S(c)])] + own,
                                ensures=lambda c: [("existence-on-disk", c.new.fld("fileinfo", "exist", S(c)) == self.now_ex(c.old, c.t("path"))),
                                                   ("time-on-disk", c.new.fld("fileinfo", "mtime", S(c)) == self.now_mt(c.old, c.t("path")))])
        own_cache = lambda c: [("dict", self.cache(c.old, S(c)), STR, FI), ("field", "fileinfo", "exist", "new"), ("field", "fileinfo", "mtime", "new")] + own
        wfc = lambda c: self.wf_cache(c.old, S(c)) + [("live", c.old.alloc(S(c)))]
        self.upd = Contract("licant.cache:FileCache.update_info", {"self": FC, "path": STR}, requires=wfc, modifies=own_cache,
                            ensures=lambda c: self.wf_cache(c.new, S(c)) + [("recorded-state-is-that-on-disk", self.is_current(c.new, c.t("path"), S(c))), ("other-records-unchanged", self.same_records(c.old, c.new, c.t("path"), S(c)))])
        self.gi = Contract("licant.cache:FileCache.get_info", {"self": FC, "path": STR}, ret=FI, requires=wfc, modifies=own_cache,
                           ensures=lambda c: self.wf_cache(c.new, S(c)) + [("recorded-state-is-returned", And(self.seen(c.new, c.t("path"), S(c)), c.rt() == self.info(c.new, c.t("path"), S(c)), c.rt() != null)),
                                                                           ("first-lookup-records-the-disk", Implies(Not(self.seen(c.old, c.t("path"), S(c))), self.is_current(c.new, c.t("path"), S(c)))),
                                                                           ("an-earlier-record-is-kept", Implies(self.seen(c.old, c.t("path"), S(c)), self.same_records(c.old, c.new, None, S(c)))),
                                                                           ("other-records-unchanged", self.same_records(c.old, c.new, c.t("path"), S(c)))])
        self.fc_init = Contract("licant.cache:FileCache.__init__", {"self": FC}, check_only=True, modifies=lambda c: [("field", "FileCache", "cache", [S(c)]), ("dict", "new", STR, FI)],
                                ensures=lambda c: [("nothing-recorded-at-first", And(self.cache(c.new, S(c)) != null, Not(c.old.alloc(self.cache(c.new, S(c)))), z3.ForAll([z3.Const("fi_p", StrS)], Not(self.seen(c.new, z3.Const("fi_p", StrS), S(c))))))])
        self.add(self.upd, self.gi)
        # ---- the same, through a file target
        G = lambda h: h.glob("licant.cache", "fcache")
        tgt = lambda c: c.old.fld("Target", "tgt", S(c))
        wfg = lambda c: self.wf_cache(c.old) + [("live", c.old.alloc(S(c))), ("the-cache", And(G(c.old) != null, c.old.alloc(G(c.old))))]
        mods = lambda c: [("dict", self.cache(c.old), STR, FI), ("field", "fileinfo", "exist", "new"), ("field", "fileinfo", "mtime", "new")] + own
        look = lambda c: self.wf_cache(c.new) + [("decisions-unchanged", self.same_view(c.old, c.new)), ("looked-up", self.seen(c.new, tgt(c)))]
        self.t_upd = self.add(Contract("licant.make:FileTarget.update_info", {"self": FT}, requires=wfg, modifies=mods,
                                       ensures=lambda c: self.wf_cache(c.new) + [("recorded-state-is-that-on-disk", self.is_current(c.new, tgt(c))), ("other-records-unchanged", self.same_records(c.old, c.new, tgt(c)))]))
        self.t_ex = self.add(Contract("licant.make:FileTarget.is_exist", {"self": FT}, ret=BOOL, requires=wfg, modifies=mods, ensures=lambda c: look(c) + [("recorded-existence", c.rt() == self.ex(c.old, tgt(c)))]))
        self.t_exists = self.add(Contract("licant.make:FileTarget.exists", {"self": FT}, ret=BOOL, requires=wfg, modifies=mods, ensures=lambda c: look(c) + [("recorded-existence", c.rt() == self.ex(c.old, tgt(c)))]))
        self.t_mt = self.add(Contract("licant.make:FileTarget.mtime", {"self": FT}, ret=REAL, requires=wfg, modifies=mods, ensures=lambda c: look(c) + [("recorded-time", c.rt(REAL) == self.mt(c.old, tgt(c)))]))
        self.wfg, self.recmods, self.tgt_of, self.G = wfg, mods, tgt, G
        self.more()

    def more(self):
        pass

    def file_units(self):
        return [self.fi_init, self.fc_init, self.upd, self.gi, self.t_upd, self.t_ex, self.t_exists, self.t_mt]
