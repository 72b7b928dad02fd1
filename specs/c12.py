"""C12: cleaning deletes the existing built files of the closure, and nothing else."""
import shlex
import string
from .files_common import *

CLO = z3.Const("closure_names", z3.ArraySort(StrS, B))        # the names in the dependency closure of the target at hand (C06)
HASCLR = z3.Function("has_a_delete_action", RefS, B)          # a source has none
CLRF = z3.Function("delete_action_of", RefS, FnS)
MFT = Ref("MakeFileTarget")
quoted = strfun("shlex.quote/1", StrS, StrS)
ANYT = z3.Function("any_target", RefS, B)                      # an arbitrary set of targets
AI = z3.ArraySort(RefS, I)


class S(FileSpec):
    """MakeFileTarget.clean"""
    ghosts = dict(FileSpec.ghosts, clrs=AI)

    def more(self):
        self.add(canonical_path_contract(), error_contract(), get_contract())
        S_ = lambda c: c.t("self")
        i = z3.Int("cl_i")
        n, p = z3.Consts("cl_n cl_p", StrS)
        t = z3.Const("cl_t", RefS)

        def clo_ens(c):
            h, core, r = c.new, S_(c), c.rt()
            e = sel(h.larr(r, STR), i)
            return [("members", z3.ForAll([i], Implies(And(0 <= i, i < h.llen(r)), And(sel(CLO, e), exists_(c.old, core, e))), patterns=[e])),
                    ("all", z3.ForAll([n], Implies(sel(CLO, n), in_list(h, r, n)), patterns=[sel(CLO, n)]))]
        own_name = lambda c: c.eng.fn_old.fld("Target", "tgt", c.eng.fn_args["self"].z)
        for pt in (STR,):
            self.clo = Contract("licant.core:Core.depends_as_set", {"self": CORE, "tgt": pt, "incroot": BOOL}, ret=List(STR),
                                requires=lambda c: [("of-this-target-with-itself", And(c.t("incroot"), c.t("tgt") == own_name(c)))], ensures=clo_ens,
                                modifies=lambda c: [("list", "new", STR)], raises=[("SystemExit", None)], assumed=True, doc="proved for C06")
            self.add(self.clo)
        self.attr_hooks[("Target", "clr")] = lambda eng, o: V(FN, CLRF(o.z)) if eng.branch(HASCLR(o.z)) else Con(None)
        reg = lambda h, core, n: sel(h.dval(targets(h, core), STR, T), n)
        self.reg = reg
        core_ = lambda c: c.old.fld("Target", "core", S_(c))
        # the targets to be considered, by the definition of the property
        self.IN = IN = z3.Function("in_closure_or_weak", RefS, B)

        def inset(h, s, core):
            W = h.setc(h.fld("Target", "weakdeps", s), STR)
            m = lambda n: Or(sel(CLO, n), sel(W, n))
            return [("definition", z3.ForAll([n], Implies(And(m(n), exists_(h, core, n)), IN(lookup(h, core, n))), patterns=[sel(CLO, n), sel(W, n)])),
                    ("definition-rev", z3.ForAll([t], Implies(And(ANYT(t), IN(t)), z3.Exists([n], And(m(n), exists_(h, core, n), lookup(h, core, n) == t))), patterns=[ANYT(t)])),
                    ("live-weak", h.alloc(h.fld("Target", "weakdeps", s)))]

        def req(c):
            h, s = c.old, S_(c)
            core = core_(c)
            r = reg(h, core, n)
            return self.wfg(c) + wf_core(h, core) + inset(h, s, core) + [("separate", self.cache(h) != targets(h, core)),
                                                                         ("registered-here", z3.ForAll([n], Implies(has_exact(h, core, n), h.fld("Target", "tgt", r) == n), patterns=[r])),
                                                                         ("nothing-deleted", z3.ForAll([t], sel(h.ghost("clrs"), t) == 0, patterns=[sel(h.ghost("clrs"), t)]))]
        self.want = lambda eng, o, t: And(IN(t), eng.isinst(t, "FileTarget"), HASCLR(t), self.ex(o, o.fld("Target", "tgt", t)))
        mods = lambda c: self.recmods(c) + [("field", "fileinfo", "exist"), ("field", "fileinfo", "mtime"), ("ghost", "disk_ex"), ("ghost", "disk_mt"), ("ghost", "clrs"), ("field", "stat_result", "path"), ("list", "new", STR), ("list", "new", T), ("set", "new", STR)]
        cl = lambda h, t: sel(h.ghost("clrs"), t)
        self.cl = cl
        only = lambda c: ("deletes-only-existing-built-files-of-the-closure", z3.ForAll([t], Implies(cl(c.new, t) > 0, self.want(c.eng, c.old, t)), patterns=[cl(c.new, t)]))
        exc = lambda c: [only(c)]
        self.clean = Contract("licant.make:MakeFileTarget.clean", {"self": MFT}, requires=req, modifies=mods, check_only=True,
                              ensures=lambda c: [only(c), ("deletes-all-of-them", z3.ForAll([t], Implies(And(ANYT(t), self.want(c.eng, c.old, t)), cl(c.new, t) > 0), patterns=[IN(t)]))],
                              raises=[("SystemExit", None, exc), ("Exception", None, exc)])
        self.ifex = self.add(Contract("licant.make:if_file_and_exist", {"target": T}, ret=BOOL,
                                      requires=lambda c: self.wf_cache(c.old) + [("live", c.old.alloc(c.t("target"))), ("the-cache", And(self.G(c.old) != null, c.old.alloc(self.G(c.old))))],
                                      modifies=self.recmods,
                                      ensures=lambda c: self.wf_cache(c.new) + [("decisions-unchanged", self.same_view(c.old, c.new)),
                                                                                ("exactly-for-existing-files", c.rt() == And(c.eng.isinst(c.t("target"), "FileTarget"), self.ex(c.old, c.old.fld("Target", "tgt", c.t("target")))))]))

    def call_fn(self, eng, f, args, kwargs, node):
        """the delete action of a target: changes the disk and what is recorded for its own file"""
        if not (z3.is_app(f.z) and f.z.decl().eq(CLRF)):
            raise Unsupported("call of an unknown function")
        t = f.z.arg(0)
        eng.prove(not args and not kwargs, "delete-action-without-arguments")
        h = HeapView(eng, eng.heap)
        own = h.fld("Target", "tgt", t)
        c = Contract("clr", {}, modifies=lambda c: [("dict", self.cache(h), STR, FI), ("field", "fileinfo", "exist"), ("field", "fileinfo", "mtime"), ("ghost", "disk_ex"), ("ghost", "disk_mt")])
        eng.set_ghost("clrs", z3.Store(eng.ghost("clrs"), t, sel(eng.ghost("clrs"), t) + 1))
        eng.havoc(c, CallCtx(eng, {}, h))
        new = HeapView(eng, eng.heap)
        for n, g in self.wf_cache(new):
            eng.assume(g)
        p = z3.Const("cf_p", StrS)
        # C09: the records of other paths are kept; a command deletes no other file
        eng.assume(z3.ForAll([p], Implies(p != own, And(self.ex(new, p) == self.ex(h, p), self.mt(new, p) == self.mt(h, p))), patterns=[self.info(new, p), sel(new.ddom(self.cache(new), STR, FI), p)]))
        if eng.choose():
            raise PyRaise("Exception", None, "the delete action")
        return Con(None)

    def invariants(self, c):
        eng = c.eng
        if eng.verifying is not self.clean:
            return []
        out = []
        h, o = c.h, c.old
        t = z3.Const("ci_t", RefS)
        n, p = z3.Consts("ci_n ci_p", StrS)
        core = o.fld("Target", "core", eng.fn_args["self"].z)
        r = self.reg(o, core, p)
        cl = self.cl
        out += [(nm, g) for nm, g in self.wf_cache(h)]
        out.append(("only", z3.ForAll([t], And(cl(h, t) >= 0, Implies(cl(h, t) > 0, And(self.want(eng, o, t), has_exact(o, core, o.fld("Target", "tgt", t)), self.reg(o, core, o.fld("Target", "tgt", t)) == t))), patterns=[cl(h, t)])))
        out.append(("others-as-before", z3.ForAll([p], Implies(Or(Not(has_exact(o, core, p)), cl(h, r) == 0), self.ex(h, p) == self.ex(o, p)), patterns=[self.info(h, p), sel(h.ddom(self.cache(h), STR, FI), p)])))
        if c.done is not None:
            out.append(("all-so-far", z3.ForAll([t], Implies(And(ANYT(t), c.done(t), self.want(eng, o, t)), cl(h, t) > 0), patterns=[self.IN(t)])))
        if c.idx is not None and c.src is not None and c.src.kind == "seq" and c.src.array is not None and c.src.array() is not None and c.src.array().sort().range() == RefS:
            j = z3.Int("ci_j")
            e = sel(c.src.array(), j)
            out.append(("all-so-far-in-order", z3.ForAll([j], Implies(And(0 <= j, j < c.idx, self.want(eng, o, e)), cl(h, e) > 0), patterns=[e])))
        return out


class X(FileSpec):
    """the delete actions of files and directories, and the targets that have none"""
    ghosts = dict(FileSpec.ghosts, cmds=I)

    def more(self):
        S_ = lambda c: c.t("self")

        def v_exec(eng, args, fv, node):
            t = eng.to_term(args["target"], T)
            eng.prove(t == eng.fn_args["self"].z, "runs-for-its-own-target")
            rule = args["rule"]
            if not isinstance(rule, Con):
                raise Unsupported("computed command")
            try:
                parts = list(string.Formatter().parse(rule.v))
            except ValueError:
                parts = []
            text, vals = "", []
            for lit, field, spec, conv in parts:
                text += lit
                if field is not None:
                    text += "\x01%d\x01" % len(vals)
                    vals.append((field, spec, conv))
            toks = shlex.split(text)
            ok = not any(x in text for x in ";|&<>`$*?()\n") and toks[:1] == ["rm"] and "--" in toks
            ops = []
            if ok:
                k = toks.index("--")
                ok = all(x in ("-f", "-v", "--force", "--verbose") for x in toks[1:k])
                ops = toks[k + 1:]
            eng.prove(ok and len(ops) == 1 and ops[0] == "\x010\x01" and len(vals) == 1 and "'" not in text and '"' not in text, "removes-one-file-named-by-a-value", rule.v)
            field, spec, conv = vals[0]
            eng.prove(not spec and conv is None and field.isidentifier(), "plain-placeholder", rule.v)
            h = HeapView(eng, eng.heap)
            v = eng.get_attr(V(FT, t), field)
            eng.prove(eng.to_term(v, STR) == quoted(h.fld("Target", "tgt", t)), "its-own-quoted-name")
            eng.set_ghost("cmds", eng.ghost("cmds") + 1)
            return V(BOOL, eng.fresh("removed", B))
        self.add(Contract("licant.make:do_execute", {"target": T, "rule": STR, "msgfield": STR, "prefix": ANY}, apply=v_exec, doc="runs the command with its placeholders replaced (C11)"))
        self.clr = Contract("licant.make:FileTarget.clr", {"self": FT}, check_only=True, requires=lambda c: [("quoted", c.old.fld("FileTarget", "quoted_tgt", S_(c)) == quoted(c.old.fld("Target", "tgt", S_(c))))],
                            modifies=lambda c: [("ghost", "cmds")], ensures=lambda c: [("one-command", c.new.ghost("cmds") == c.old.ghost("cmds") + 1)])
        self.dclr = Contract("licant.make:DirectoryTarget.clr", {"self": Ref("DirectoryTarget")}, check_only=True, ensures=lambda c: [("deletes-nothing", c.new.ghost("cmds") == c.old.ghost("cmds"))])


SLOW = ()
ASSUMPTIONS = ["the delete action of a target deletes no file but its own (it is the command proved here, run as proved for C11)",
               "existing means recorded as existing (C09)"]
TRUSTED = ["rm deletes the file it is given and nothing else"]


def units(prog):
    s, x = S(prog), X(prog)
    from .c23 import Library
    l = Library(prog)
    return [(s, [s.ifex, s.clean]), (x, [x.clr, x.dclr]), (l, [u for u in l.units_ if u.params["uninstall"] == STR])]
