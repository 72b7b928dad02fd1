"""C09: the recorded state of a file follows the disk at each build and deletion."""
from .files_common import *
from .exec_common import ExecSpec


class S(FileSpec):
    def more(self):
        self.update = self.add(Contract("licant.make:FileTarget.update", {"self": FT}, ret=ANY, requires=self.wfg, check_only=True,
                                        modifies=lambda c: [("dict", self.cache(c.old), STR, FI), ("field", "fileinfo", "exist"), ("field", "fileinfo", "mtime"), ("field", "stat_result", "path", "new"), ("ghost", "disk_ex"), ("ghost", "disk_mt")],
                                        ensures=lambda c: [("recorded-state-is-that-on-disk", self.is_current(c.new, self.tgt_of(c)))],
                                        raises=[("Exception", None, lambda c: [("recorded-state-is-that-on-disk", self.is_current(c.new, self.tgt_of(c)))])]))

    def call_fn(self, eng, f, args, kwargs, node):
        """a build action: changes the disk, may look up and record the states of files, may raise"""
        h = HeapView(eng, eng.heap)
        c = Contract("build-action", {}, modifies=lambda c: [("dict", self.cache(h), STR, FI), ("field", "fileinfo", "exist"), ("field", "fileinfo", "mtime"), ("ghost", "disk_ex"), ("ghost", "disk_mt")])
        ctx = CallCtx(eng, {}, h)
        eng.havoc(c, ctx)
        for n, g in self.wf_cache(HeapView(eng, eng.heap)):
            eng.assume(g)
        if eng.choose():
            raise PyRaise("Exception", None, "the build action")
        return V(ANY, eng.fresh("status", AnyS))


SLOW = ()
ASSUMPTIONS = ["the existence and time of a path do not change between the two disk accesses that record them", "build actions use the file cache only through its methods"]
TRUSTED = []


class R(ExecSpec):
    """a command run for a file target, among them the one that deletes it"""
    records = True

    def more(self):
        ExecSpec.more(self)
        S_ = lambda c: c.t("self")
        d = self.contracts["licant.make:do_execute"]

        def req(c):
            c.args = dict(c.args, target=c.args["self"])
            return d.requires(c)

        def ens(c):
            n = c.old.fld("Target", "tgt", S_(c))
            return [("recorded-state-is-that-on-disk", self.is_current(c.new, n)), ("other-records-unchanged", self.same_records(c.old, c.new, n))]

        def mods(c):
            return d.modifies(c)
        self.clr = Contract("licant.make:FileTarget.clr", {"self": FT}, requires=req, ensures=ens, modifies=mods, check_only=True)


def units(prog):
    s = S(prog)
    r = R(prog)
    return [(s, s.file_units() + [s.update, PrivateField("cache", ["licant.cache:*"])]), (r, [r.do_ft, r.clr])]
