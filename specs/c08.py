"""C08: a file is out of date exactly when forced, missing or older than a file it needs."""
from .files_common import *

MT = z3.Function("newest_time", RefS, z3.RealSort())
MFT = Ref("MakeFileTarget")


def isfile(eng, t):
    return eng.isinst(t, "MakeFileTarget")


def deplist_contract(assumed=False):
    """the targets the declared names stand for, in order"""
    def ens(c):
        o, h, s = c.old, c.new, c.t("self")
        d = deps_of(o, s)
        i = z3.Int("dl_i")
        e = sel(h.larr(c.rt(), T), i)
        return [("as-many-as-declared", h.llen(c.rt()) == o.llen(d)),
                ("the-declared-targets", z3.ForAll([i], Implies(And(0 <= i, i < o.llen(d)), And(exists_(o, o.fld("Target", "core", s), sel(o.larr(d, STR), i)), e == lookup(o, o.fld("Target", "core", s), sel(o.larr(d, STR), i)))), patterns=[e]))]
    return Contract("licant.core:Target.get_deplist", {"self": T}, ret=List(T), requires=lambda c: wf_core(c.old, c.old.fld("Target", "core", c.t("self"))) + [("live", And(c.old.alloc(c.t("self")), c.old.alloc(deps_of(c.old, c.t("self")))))],
                    modifies=lambda c: [("list", "new", T)], ensures=ens, raises=[("SystemExit", None)])


class S(FileSpec):
    ghosts = dict(FileSpec.ghosts, kept=B)
    def more(self):
        self.add(canonical_path_contract(), error_contract(), get_contract())
        self.deplist = self.add(deplist_contract())
        S_ = lambda c: c.t("self")

        def times(h):
            p = z3.Const("tm_p", StrS)
            return z3.ForAll([p], self.mt(h, p) >= 0, patterns=[self.info(h, p), sel(h.ghost("disk_mt"), p)])

        DEP = z3.Function("dependency", I, RefS)        # definition: the i-th dependency of the target at hand

        def dep(h, s, i):
            return DEP(i)

        def definition(h, s):
            i = z3.Int("df_i")
            n = sel(h.larr(deps_of(h, s), STR), i)
            return z3.ForAll([i], DEP(i) == lookup(h, h.fld("Target", "core", s), n), patterns=[DEP(i), n])
        self.dep = dep
        self.name = lambda h, s, i: sel(h.larr(deps_of(h, s), STR), i)

        def req(c):
            h, s = c.old, S_(c)
            return self.wfg(c) + wf_core(h, h.fld("Target", "core", s)) + [("times", times(h)), ("separate", self.cache(h) != targets(h, h.fld("Target", "core", s))), ("definition", definition(h, s)), ("own-dependencies", And(deps_of(h, s) != null, h.alloc(deps_of(h, s))))]

        mods = lambda c: self.recmods(c) + [("list", "new", T)]
        keep = lambda c: self.wf_cache(c.new) + [("decisions-unchanged", self.same_view(c.old, c.new))]
        ended = [("SystemExit", None)]

        def v_mtime(eng, o, args, kwargs, node, func):
            """the time of any target that has one: by the contracts of the three classes that define it"""
            h = HeapView(eng, eng.heap)
            if not eng.branch(isfile(eng, o.z)):
                raise PyRaise("AttributeError", Con("mtime"), eng.where())
            eng.prove(self.same_view(eng.fn_old, h), "decisions-unchanged-so-far")
            for n, f in self.wf_cache(h):
                eng.prove(f, "pre:" + n)
            c = Contract("mtime", {}, modifies=lambda c: [("dict", self.cache(h), STR, FI), ("field", "fileinfo", "exist", "new"), ("field", "fileinfo", "mtime", "new"), ("list", "new", T)])
            eng.havoc(c, CallCtx(eng, {}, h))
            n = HeapView(eng, eng.heap)
            for _, f in self.wf_cache(n):
                eng.assume(f)
            eng.assume(self.same_view(h, n))
            dirt = eng.isinst(o.z, "DirectoryTarget")
            eng.assume(Implies(dirt, MT(o.z) == 0))
            eng.assume(Implies(And(eng.isinst(o.z, "FileTarget"), Not(dirt)), MT(o.z) == self.mt(n, n.fld("Target", "tgt", o.z))))
            if "FileTarget" not in eng.mro(prune(o.t).args[0]) and eng.choose():
                raise PyRaise("SystemExit", Con("error status"), "a lookup that fails")
            return V(REAL, MT(o.z))
        self.virtuals[("Target", "mtime")] = v_mtime

        def fs_ens(c):
            o, s, r = c.old, S_(c), c.rt(REAL)
            i, j = z3.Ints("fs_i fs_j")
            n = o.llen(deps_of(o, s))
            member = lambda k: And(0 <= k, k < n, isfile(c.eng, dep(o, s, k)))
            return keep(c) + [("not-older-than-any-member", z3.ForAll([i], Implies(member(i), MT(dep(o, s, i)) <= r), patterns=[self.dep(o, s, i)])),
                              ("newest-member", Or(r == 0, z3.Exists([j], And(member(j), MT(dep(o, s, j)) == r)))), ("not-negative", r >= 0)]
        self.fs = Contract("licant.make:MakeFileTarget.mtime", {"self": MFT}, ret=REAL, requires=req, modifies=mods, ensures=fs_ens, raises=ended, check_only=True)
        self.dt = Contract("licant.make:DirectoryTarget.mtime", {"self": Ref("DirectoryTarget")}, ret=REAL, requires=req, modifies=mods, ensures=lambda c: keep(c) + [("counts-as-time-0", c.rt(REAL) == 0)], raises=ended, check_only=True)

        def if_ens(c):
            o, s = c.old, S_(c)
            j = z3.Int("if_j")
            n = o.llen(deps_of(o, s))
            tgt = o.fld("Target", "tgt", s)
            newer = z3.Exists([j], And(0 <= j, j < n, isfile(c.eng, dep(o, s, j)), MT(dep(o, s, j)) > self.mt(o, tgt)))
            i = z3.Int("if_i")
            return keep(c) + [("if-forced", Implies(o.fld("FileTarget", "force", s), c.rt())), ("if-missing", Implies(Not(self.ex(o, tgt)), c.rt())),
                              ("if-older", z3.ForAll([i], Implies(And(0 <= i, i < n, isfile(c.eng, dep(o, s, i)), MT(dep(o, s, i)) > self.mt(o, tgt)), c.rt()), patterns=[self.dep(o, s, i)])),
                              ("only-then", Implies(c.rt(), Or(o.fld("FileTarget", "force", s), Not(self.ex(o, tgt)), newer)))]

        self.cond = Contract("licant.make:FileTarget.internal_update_if", {"self": FT}, ret=BOOL, requires=lambda c: req(c) + [("not-a-directory", Not(c.eng.isinst(S_(c), "DirectoryTarget")))], modifies=mods, ensures=if_ens, raises=ended, check_only=True)
        self.dcond = Contract("licant.make:DirectoryTarget.internal_update_if", {"self": Ref("DirectoryTarget")}, ret=BOOL, requires=req, modifies=mods, raises=ended, check_only=True,
                              ensures=lambda c: keep(c) + [("exactly-if-missing", c.rt() == Not(self.ex(c.old, c.old.fld("Target", "tgt", S_(c)))))])
        # ---- a new file target's own condition is this one
        COND = z3.Function("own_condition_of", RefS, B)

        def opaque_kw(eng):
            k = KwV({})
            k.rest = V(ANY, eng.fresh("kwargs", AnyS))
            return k

        def base_init(eng, args, fv, node):
            """the base class keeps the given condition: it is the one of the target it is asked for"""
            s = args["self"]
            kw = args.get("kwargs")
            f = kw.d.get("update_if") if isinstance(kw, KwV) else None
            if f is None:
                eng.prove(False, "a-condition-is-given")
                return Con(None)
            x = V(FT, eng.fresh("some_target", RefS))
            r = eng.truth(eng.call(f, [x], {}, node))
            eng.prove((z3.BoolVal(r) if isinstance(r, bool) else r) == COND(x.z), "the-condition-asked-is-the-target's-own")
            eng.set_ghost("kept", z3.BoolVal(True))
            return Con(None)
        self.virtuals[("FileTarget", "internal_update_if")] = lambda eng, o, args, kwargs, node, func: V(BOOL, COND(o.z))
        self.add(Contract("licant.make:MakeFileTarget.__init__", {"self": MFT}, apply=base_init))
        self.add(Contract("licant.make:dirkeep", {"dirpath": STR}, assumed=True, ret=ANY, modifies=lambda c: [], doc="registers directories (C13)"))
        self.externals["os.path.normpath"] = lambda eng, r, a, k, n: V(STR, strfun("os.path.normpath/1", StrS, StrS)(eng.to_term(a[0], STR)))
        self.externals["shlex.quote"] = lambda eng, r, a, k, n: V(STR, strfun("shlex.quote/1", StrS, StrS)(eng.to_term(a[0], STR)))
        self.ft_init = Contract("licant.make:FileTarget.__init__", {"self": FT, "tgt": STR, "deps": List(STR), "force": BOOL, "use_dirkeep": BOOL, "kwargs": opaque_kw}, check_only=True,
                                modifies=lambda c: [("field", "FileTarget", n, [S_(c)]) for n in ("force", "isfile", "clrmsg", "quoted_tgt")] + [("list", "new", STR), ("ghost", "kept")],
                                requires=lambda c: [("not-yet", Not(c.old.ghost("kept")))],
                                ensures=lambda c: [("forced-as-asked", c.new.fld("FileTarget", "force", S_(c)) == c.t("force")), ("condition-kept", c.new.ghost("kept"))])
        u = self.upd_init = Contract("licant.core:UpdatableTarget.__init__", {"self": Ref("UpdatableTarget"), "tgt": STR, "deps": List(STR), "update_if": FN, "default_action": STR, "kwargs": opaque_kw}, check_only=True,
                                     modifies=lambda c: [("field", "Target", "update_if", [S_(c)]), ("field", "Target", "need_update", [S_(c)])],
                                     ensures=lambda c: [("keeps-the-condition", c.new.fld("Target", "update_if", S_(c)) == c.t("update_if", FN))])
        self.add(Contract("licant.core:Target.__init__", {"self": T}, assumed=True, doc="sets other attributes", modifies=lambda c: [("field", "Target", "update_if", [S_(c)])]))
        # ---- which targets are files
        self.isf = [Contract("licant.core:Target.is_file", {"self": Ref("Target", True)}, ret=BOOL, ensures=lambda c: [("not-a-file", Not(c.rt()))], check_only=True),
                    Contract("licant.make:MakeFileTarget.is_file", {"self": MFT}, ret=BOOL, ensures=lambda c: [("a-file", c.rt())], check_only=True)]

    def invariants(self, c):
        out = []
        if c.eng.verifying in (self.fs, self.cond) and c.idx is not None:
            s = c.eng.fn_args["self"].z
            o, eng = c.eng.fn_old, c.eng
            i = z3.Int("iv_i")
            j = z3.Int("iv_j")
            out += self.wf_cache(c.h) + [("view", self.same_view(o, c.h)), ("registry", c.h.ddom(targets(o, o.fld("Target", "core", s)), STR, T) == o.ddom(targets(o, o.fld("Target", "core", s)), STR, T)),
                                         ("registered", c.h.dval(targets(o, o.fld("Target", "core", s)), STR, T) == o.dval(targets(o, o.fld("Target", "core", s)), STR, T))]
            for v in c.of_type("real", "int"):
                m = z3.ToReal(v[1].z) if v[1].z.sort() == z3.IntSort() else v[1].z
                ok = lambda k: And(0 <= k, k < c.idx, isfile(eng, self.dep(o, s, k)))
                out += [("upper:%s" % v[0], z3.ForAll([i], Implies(ok(i), MT(self.dep(o, s, i)) <= m), patterns=[self.dep(o, s, i)])), ("nonneg:%s" % v[0], m >= 0),
                        ("attained:%s" % v[0], Or(m == 0, z3.Exists([j], And(ok(j), MT(self.dep(o, s, j)) == m))))]
            own = self.mt(o, o.fld("Target", "tgt", s))
            out.append(("none-newer-yet", z3.ForAll([i], Implies(And(0 <= i, i < c.idx, isfile(eng, self.dep(o, s, i))), MT(self.dep(o, s, i)) <= own), patterns=[self.dep(o, s, i)])))
        return out


SLOW = ()
ASSUMPTIONS = ["file times are not negative (no file dates from before 1970)", "file sets do not contain themselves", "the disk does not change while the condition is evaluated"]
TRUSTED = []


def units(prog):
    s = S(prog)
    return [(s, s.file_units() + [s.deplist, s.fs, s.dt, s.cond, s.dcond, s.ft_init, s.upd_init] + s.isf)]
