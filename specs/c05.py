"""C05: exactly the well-formed dependency graphs are accepted."""
from pyv.spec import *
from .solver_common import *

# An arbitrary numbering of the steps.  If it decreases from every step to its dependents, the graph has no cycle;
# whatever is refused must be refused for every numbering.
RESP = z3.Bool("numbering_respects_dependencies")
RN = z3.Function("numbering_of_names", StrS, I)  # of names
LDT = List(DT)


def name(h, t):
    return h.fld("DependableTarget", "name", t)


def dt(h, r):
    return h.fld("DependableTargetRuntime", "deptarget", r)


def deps(h, t):
    return h.setc(h.fld("DependableTarget", "deps", t), STR)


def inv(h, r):
    return h.setc(h.fld("DependableTargetRuntime", "inverse_deps", r), RT)


def inlist(h, l, x, elem, tag=""):
    j = z3.Int("inl_j" + tag)
    return z3.Exists([j], And(0 <= j, j < h.llen(l), sel(h.larr(l, elem), j) == x))


class S(Spec):
    forget_pre = False
    reduce_reads = True
    schema = solver_schema
    externals = solver_externals
    ext_classes = ("Queue", "Lock", "EventLoop")
    # rank: order in which the search finishes; nodes: the steps; num: the numbering of their names; hasdeps: which have dependencies
    ghosts = {"rank": z3.ArraySort(RefS, I), "clock": I, "nodes": SR, "num": z3.ArraySort(RefS, I), "hasdeps": SR, "pred": z3.ArraySort(RefS, RefS)}

    def setup(self):
        NUM = z3.Const("am_num", z3.ArraySort(RefS, I))
        argmax = z3.Function("largest", SR, z3.ArraySort(RefS, I), RefS)
        P = z3.Const("am_P", SR)
        x, y = z3.Consts("am_x am_y", RefS)
        # a finite set that is not empty has a member with the largest number
        self.axioms = card_axioms(card_ref, RefS) + card_axioms(card_str, StrS)[:1] + [
            z3.ForAll([P, NUM, x], Implies(sel(P, x), And(sel(P, argmax(P, NUM)), sel(NUM, x) <= sel(NUM, argmax(P, NUM)))), patterns=[z3.MultiPattern(sel(P, x), argmax(P, NUM))])]
        self.argmax = argmax
        # distinct names, said with the function from names to positions
        self.index = z3.Function("index_of_name", StrS, I)
        self.anyof = z3.Function("some_member", z3.ArraySort(StrS, B), StrS)
        Ps = z3.Const("ao_P", z3.ArraySort(StrS, B))
        self.axioms.append(z3.ForAll([Ps], Implies(Ps != z3.EmptySet(StrS), sel(Ps, self.anyof(Ps))), patterns=[self.anyof(Ps)]))
        self.setup_dfs()
        self.setup_rest()

    # ------------------------------------------------------------ the search for cycles
    def graph(self, h, N):
        """N is closed under dependents"""
        x, u = z3.Consts("gr_x gr_u", RefS)
        return z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), And(sel(N, u), u != null, h.alloc(u))), patterns=[sel(inv(h, x), u)])

    def respects(self, h, N):
        x, u = z3.Consts("rs_x rs_u", RefS)
        R = lambda z: sel(h.ghost("num"), z)
        return z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), R(u) < R(x)), patterns=[sel(inv(h, x), u)])

    def onpath(self, h, p, x):
        return inlist(h, p, x, RT, "p")

    def finished(self, h, vis, path, rank, clock):
        """what is visited and not on the path is finished: its dependents are finished, with smaller ranks"""
        x, u = z3.Consts("fi_x fi_u", RefS)
        fin = lambda z: And(sel(vis, z), Not(self.onpath(h, path, z)))
        return z3.ForAll([x], Implies(fin(x), And(sel(rank, x) < clock, z3.ForAll([u], Implies(sel(inv(h, x), u), And(fin(u), sel(rank, u) < sel(rank, x))), patterns=[sel(inv(h, x), u)]))),
                         patterns=[sel(vis, x)])

    def path_chain(self, h, path):
        """along the path the numbers decrease"""
        i, j = z3.Ints("pc_i pc_j")
        a = h.larr(path, RT)
        R = lambda z: sel(h.ghost("num"), z)
        return z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < h.llen(path)), R(sel(a, i)) > R(sel(a, j))), patterns=[z3.MultiPattern(sel(a, i), sel(a, j))])

    def setup_rest(self):
        LRT = List(RT)
        x, u, y = z3.Consts("sr_x sr_u sr_y", RefS)
        d = z3.Const("sr_d", StrS)
        i, j = z3.Ints("sr_i sr_j")
        DRT = Dict(RT, Set(RT))

        def good_runtimes(h, l):
            e = sel(h.larr(l, RT), i)
            return z3.ForAll([i], Implies(And(0 <= i, i < h.llen(l)), And(e != null, h.alloc(e), dt(h, e) != null, h.alloc(dt(h, e)),
                                                                        h.fld("DependableTarget", "deps", dt(h, e)) != null, h.alloc(h.fld("DependableTarget", "deps", dt(h, e))))), patterns=[e])

        def distinct(h, l, elem):
            a = h.larr(l, elem)
            return z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < h.llen(l)), sel(a, i) != sel(a, j)), patterns=[z3.MultiPattern(sel(a, i), sel(a, j))])
        self.distinct = distinct
        self.good_runtimes = good_runtimes

        # ---- collect_depends_of_targets
        def names_ok(h, l, nm):
            e = sel(h.larr(l, RT), i)
            dom, val = h.ddom(nm, STR, RT), h.dval(nm, STR, RT)
            n = lambda z: name(h, dt(h, z))
            return And(z3.ForAll([i], Implies(And(0 <= i, i < h.llen(l)), And(sel(dom, n(e)), sel(val, n(e)) == e)), patterns=[e]),
                       z3.ForAll([d], Implies(sel(dom, d), And(inlist(h, l, sel(val, d), RT), n(sel(val, d)) == d)), patterns=[sel(dom, d)]))
        self.names_ok = names_ok

        def cd_req(c):
            h, l, nm = c.old, c.t("deptargets"), c.t("names_to_deptargets")
            return [("runtimes", good_runtimes(h, l)), ("distinct", distinct(h, l, RT)), ("names", names_ok(h, l, nm))]

        def depends(o, nm, t, u):
            """t depends on u"""
            n = name(o, dt(o, u))
            return And(sel(deps(o, dt(o, t)), n), sel(o.ddom(nm, STR, RT), n), sel(o.dval(nm, STR, RT), n) == u)
        self.depends = depends

        def unknown(o, l, nm):
            e = sel(o.larr(l, RT), i)
            return z3.Exists([i, d], And(0 <= i, i < o.llen(l), sel(deps(o, dt(o, e)), d), Not(sel(o.ddom(nm, STR, RT), d))))

        def cd_ens(c):
            o, h, l, nm, r = c.old, c.new, c.t("deptargets"), c.t("names_to_deptargets"), c.rt()
            dom, val = h.ddom(r, RT, Set(RT)), h.dval(r, RT, Set(RT))
            self.collected = (o, h, l, nm, r)
            v = sel(val, x)
            w = sel(val, y)
            e = sel(o.larr(l, RT), i)
            return [("keys", And(z3.ForAll([x], Implies(sel(dom, x), inlist(o, l, x, RT)), patterns=[sel(dom, x)]), z3.ForAll([i], Implies(And(0 <= i, i < o.llen(l)), sel(dom, e)), patterns=[e]))),
                    ("new-sets", z3.ForAll([x], Implies(sel(dom, x), And(v != null, h.alloc(v), Not(o.alloc(v)))), patterns=[v])),
                    ("separate-sets", z3.ForAll([x, y], Implies(And(sel(dom, x), sel(dom, y), x != y), v != w), patterns=[z3.MultiPattern(v, w)])),
                    ("content", z3.ForAll([x, u], Implies(sel(dom, x), sel(h.setc(v, RT), u) == depends(o, nm, x, u)), patterns=[sel(h.setc(v, RT), u)])),
                    ("all-known", Not(unknown(o, l, nm))), ("one-key-per-step", card_ref(dom) == o.llen(l))]

        def cd_exit(eng, c):
            # the set of the steps, to count them
            h, l, r = c.new, c.t("deptargets"), c.rt()
            N = self.set_of_list(eng, c.old.larr(l, RT), c.old.llen(l), "steps")
            eng.prove(h.ddom(r, RT, Set(RT)) == N, "keys-are-the-steps")
        self.collect = Contract("licant.solver:InverseRecursiveSolver.collect_depends_of_targets", {"self": SOLVER, "deptargets": LRT, "names_to_deptargets": Dict(STR, RT)}, ret=DRT,
                                requires=cd_req, ensures=cd_ens, modifies=lambda c: [("dict", "new", RT, Set(RT)), ("set", "new", RT)], ghost_exit=cd_exit,
                                raises=[("UnknowTargetError", lambda c: unknown(c.old, c.t("deptargets"), c.t("names_to_deptargets")))])
        self.add(self.collect)

        # ---- invert_depends_dictionary
        def iv_req(c):
            h, D = c.old, c.t("depends_dictionary")
            dom, val = h.ddom(D, RT, Set(RT)), h.dval(D, RT, Set(RT))
            v = sel(val, x)
            return [("sets", z3.ForAll([x], Implies(sel(dom, x), And(v != null, h.alloc(v))), patterns=[v])),
                    ("closed", z3.ForAll([x, u], Implies(And(sel(dom, x), sel(h.setc(v, RT), u)), sel(dom, u)), patterns=[sel(h.setc(v, RT), u)]))]

        def iv_ens(c):
            o, h, D, r = c.old, c.new, c.t("depends_dictionary"), c.rt()
            dom, val = o.ddom(D, RT, Set(RT)), o.dval(D, RT, Set(RT))
            rdom, rval = h.ddom(r, RT, Set(RT)), h.dval(r, RT, Set(RT))
            self.inverted = (o, h, D, r)
            v, w = sel(rval, x), sel(rval, y)
            return [("keys", rdom == dom),
                    ("new-sets", z3.ForAll([x], Implies(sel(dom, x), And(v != null, h.alloc(v), Not(o.alloc(v)))), patterns=[v])),
                    ("separate-sets", z3.ForAll([x, y], Implies(And(sel(dom, x), sel(dom, y), x != y), v != w), patterns=[z3.MultiPattern(v, w)])),
                    ("content", z3.ForAll([x, u], Implies(sel(dom, x), sel(h.setc(v, RT), u) == And(sel(dom, u), sel(o.setc(sel(val, u), RT), x))),
                                          patterns=[sel(h.setc(v, RT), u), sel(o.setc(sel(val, u), RT), x)]))]
        self.invert = Contract("licant.util:invert_depends_dictionary", {"depends_dictionary": DRT}, ret=DRT, requires=iv_req, ensures=iv_ens,
                               modifies=lambda c: [("dict", "new", RT, Set(RT)), ("set", "new", RT)])
        self.add(self.invert)
        self.setup_connectivity()
        self.setup_init()

    # the set of the elements of a list without repetition has as many members as the list is long (lemma below)
    def set_of_list(self, eng, arr, ln, what):
        N = eng.fresh("set_of_" + what, SR)
        pos = eng.fresh("pos_in_" + what, z3.ArraySort(RefS, I))
        x, i, j = z3.Const("sl_x", RefS), z3.Int("sl_i"), z3.Int("sl_j")
        eng.assume(z3.ForAll([i], Implies(And(0 <= i, i < ln), sel(N, sel(arr, i))), patterns=[sel(arr, i)]))
        eng.assume(z3.ForAll([x], Implies(sel(N, x), And(0 <= sel(pos, x), sel(pos, x) < ln, sel(arr, sel(pos, x)) == x)), patterns=[sel(N, x)]))
        dis = z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < ln), sel(arr, i) != sel(arr, j)), patterns=[z3.MultiPattern(sel(arr, i), sel(arr, j))])
        eng.assume(Implies(dis, card_ref(N) == ln))
        self.pos = pos
        return N

    def setup_connectivity(self):
        x, u, y = z3.Consts("cn_x cn_u cn_y", RefS)
        i, j = z3.Ints("cn_i cn_j")
        graph, respects, distinct = self.graph, self.respects, self.distinct

        def pre(eng, c):
            h, l = c.old, c.t("deptargets")
            N = self.set_of_list(eng, h.larr(l, RT), h.llen(l), "steps")
            eng.set_ghost("nodes", N)
            num, hd, pr = eng.fresh("num", z3.ArraySort(RefS, I)), eng.fresh("hasdeps", SR), eng.fresh("pred", z3.ArraySort(RefS, RefS))
            ds = deps(h, dt(h, x))
            nm = h.fld("InverseRecursiveSolver", "names_to_deptargets", c.t("self"))
            eng.assume(z3.ForAll([x], sel(num, x) == RN(name(h, dt(h, x))), patterns=[sel(num, x)]))
            eng.assume(z3.ForAll([x], sel(hd, x) == (ds != z3.EmptySet(StrS)), patterns=[sel(hd, x)]))
            eng.assume(z3.ForAll([x], sel(pr, x) == sel(h.dval(nm, STR, RT), self.anyof(ds)), patterns=[sel(pr, x)]))
            eng.set_ghost("num", num)
            eng.set_ghost("hasdeps", hd)
            eng.set_ghost("pred", pr)
            # stepping stones
            es = z3.EmptySet(StrS)
            nd = c.t("non_dependable_targets")
            ti = h.fld("InverseRecursiveSolver", "task_invoker", c.t("self"))
            q = h.fld("TaskInvoker", "queue", ti)
            items = h.setc(h.fld("Queue", "items", q), RT)
            l0 = eng.fn_args["targets"].z
            pos = self.pos
            eng.prove(z3.ForAll([x], Implies(sel(N, x), And(x != null, 0 <= sel(pos, x), sel(pos, x) < h.llen(l0), sel(h.larr(l0, DT), sel(pos, x)) == dt(h, x))), patterns=[sel(N, x)]), "lemma:steps-of-the-list",
                      using=("hx", "lx", "gi", "sl_", "in_i"))
            eng.prove(Implies(RESP, z3.ForAll([x, u], Implies(And(sel(N, x), sel(N, u), sel(deps(h, dt(h, u)), name(h, dt(h, x)))), sel(num, u) < sel(num, x)),
                                              patterns=[z3.MultiPattern(sel(num, u), sel(num, x)), sel(deps(h, dt(h, u)), name(h, dt(h, x)))])), "lemma:numbering", using=("hx", "lx", "cn_", "ay_", "in_"))
            # from the result of invert_depends_dictionary to the fields of the steps, and back to the dependencies
            co, ch, cl, nm0, cr = self.collected
            io, ih, D, ir = self.inverted
            cdom, cval = ch.ddom(cr, RT, Set(RT)), ch.dval(cr, RT, Set(RT))
            idom, ival = ih.ddom(ir, RT, Set(RT)), ih.dval(ir, RT, Set(RT))
            px, pu = z3.Consts("pa_x pa_u", RefS)
            dep = lambda t, w: self.depends(co, nm0, t, w)
            eng.prove(z3.ForAll([px], sel(N, px) == sel(cdom, px), patterns=[sel(N, px), sel(cdom, px)]), "lemma:keys-of-dependencies")
            eng.prove(z3.ForAll([px], sel(N, px) == sel(idom, px), patterns=[sel(N, px), sel(idom, px)]), "lemma:keys-of-dependents")
            eng.prove(z3.ForAll([px], Implies(sel(N, px), h.fld("DependableTargetRuntime", "inverse_deps", px) == sel(ival, px)), patterns=[sel(N, px), sel(ival, px)]), "lemma:fields")
            qs = h.fld("Queue", "items", q)
            eng.prove(io.alloc(qs), "lemma:queue-is-older", using=("hx", "lx"))
            eng.prove(z3.ForAll([px], Implies(sel(N, px), And(sel(ival, px) != qs, ih.alloc(sel(ival, px)))), patterns=[sel(N, px), sel(ival, px)]), "lemma:sets-are-no-queue")
            eng.prove(z3.ForAll([px], Implies(sel(N, px), inv(h, px) == ih.setc(sel(ival, px), RT)), patterns=[sel(N, px), sel(ival, px)]), "lemma:sets", using=("pa_", "hx", "lx"))
            eng.prove(z3.ForAll([px, pu], Implies(sel(N, px), sel(inv(h, px), pu) == And(sel(N, pu), dep(pu, px))), patterns=[sel(inv(h, px), pu)]), "lemma:inverted", using=("pa_", "sr_"))
            eng.prove(z3.ForAll([px, pu], Implies(And(sel(N, px), sel(N, pu)), dep(pu, px) == sel(deps(h, dt(h, pu)), name(h, dt(h, px)))),
                                patterns=[sel(deps(h, dt(h, pu)), name(h, dt(h, px))), sel(deps(co, dt(co, pu)), name(co, dt(co, px)))]), "lemma:names")
            eng.prove(z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), sel(N, u)), patterns=[sel(inv(h, x), u)]), "lemma:dependents-are-steps", using=("pa_",))
            self.mid = (items, N)
            eng.prove(z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), sel(deps(h, dt(h, u)), name(h, dt(h, x)))), patterns=[sel(inv(h, x), u)]), "lemma:dependents-depend", using=("pa_",))
            eng.prove(z3.ForAll([x, u], Implies(And(sel(N, x), sel(N, u), sel(deps(h, dt(h, u)), name(h, dt(h, x)))), sel(inv(h, x), u)), patterns=[sel(inv(h, x), u), sel(deps(h, dt(h, u)), name(h, dt(h, x)))]), "lemma:all-dependents", using=("pa_",))
            M = self.set_of_list(eng, h.larr(nd, RT), h.llen(nd), "roots")
            eng.prove(items == M, "lemma:queued-are-the-roots")
            eng.prove(h.fld("Queue", "unf", q) == card_ref(items), "lemma:queue-count")
            eng.prove(z3.ForAll([x], sel(items, x) == And(sel(N, x), deps(h, dt(h, x)) == es), patterns=[sel(items, x), deps(h, dt(h, x))]), "lemma:queued")

        def req(c):
            h, l, nd = c.old, c.t("deptargets"), c.t("non_dependable_targets")
            N, hd, pr = h.ghost("nodes"), h.ghost("hasdeps"), h.ghost("pred")
            e, r = sel(h.larr(l, RT), i), sel(h.larr(nd, RT), i)
            return [("nodes", And(z3.ForAll([i], Implies(And(0 <= i, i < h.llen(l)), sel(N, e)), patterns=[e]), z3.ForAll([x], Implies(sel(N, x), inlist(h, l, x, RT, "n")), patterns=[sel(N, x)]))),
                    ("distinct", And(distinct(h, l, RT), card_ref(N) == h.llen(l))),
                    ("live", z3.ForAll([x], Implies(sel(N, x), And(x != null, h.alloc(x), h.fld("DependableTargetRuntime", "inverse_deps", x) != null,
                                                                   h.alloc(h.fld("DependableTargetRuntime", "inverse_deps", x)))), patterns=[sel(N, x), h.fld("DependableTargetRuntime", "inverse_deps", x)])),
                    ("graph", graph(h, N)),
                    ("dependents-have-dependencies", z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), sel(hd, u)), patterns=[sel(inv(h, x), u)])),
                    ("numbering", Implies(RESP, respects(h, N))),
                    ("roots", And(distinct(h, nd, RT), z3.ForAll([i], Implies(And(0 <= i, i < h.llen(nd)), And(sel(N, r), Not(sel(hd, r)))), patterns=[r]),
                                  z3.ForAll([x], Implies(And(sel(N, x), Not(sel(hd, x))), inlist(h, nd, x, RT, "r")), patterns=[sel(hd, x)]))),
                    ("predecessors", z3.ForAll([x], Implies(And(sel(N, x), sel(hd, x)), And(sel(N, sel(pr, x)), sel(inv(h, sel(pr, x)), x))), patterns=[sel(pr, x)]))]

        def ens(c):
            h = c.new
            N = h.ghost("nodes")
            R = lambda z: sel(h.ghost("rank"), z)
            return [("ordered", z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), R(u) < R(x)), patterns=[sel(inv(h, x), u)]))]

        def setup(eng, bound):
            # instance of the maximum axiom: if a set lacks some of the steps, one of the lacking has the largest number
            P = z3.Const("cs_P", SR)
            N, num, pr = eng.ghost("nodes"), eng.ghost("num"), eng.ghost("pred")
            D = z3.SetDifference(N, P)
            look = z3.Function("look_at", RefS, I, B, B, B)  # says nothing: introduces terms
            m = self.argmax(D, num)
            eng.assume(z3.ForAll([P], Implies(And(z3.IsSubset(P, N), P != N), And(sel(N, m), Not(sel(P, m)), z3.ForAll([x], Implies(And(sel(N, x), Not(sel(P, x))), sel(num, x) <= sel(num, m)), patterns=[sel(num, x), sel(P, x)]),
                                                                                 look(sel(pr, m), sel(num, sel(pr, m)), sel(P, sel(pr, m)), sel(eng.ghost("hasdeps"), m)))),
                                 patterns=[card_ref(P)]))
        self.conn = Contract("licant.solver:InverseRecursiveSolver.connectivity_check", {"self": SOLVER, "deptargets": List(RT), "non_dependable_targets": List(RT)}, requires=req, ensures=ens,
                             modifies=lambda c: [("ghost", "rank"), ("ghost", "clock"), ("set", "new", RT), ("list", "new", RT)],
                             raises=[("CircularDependencyError", lambda c: Not(RESP)), ("ConnectivityError", lambda c: Not(RESP))], pre_call=pre, setup=setup)
        self.add(self.conn)

    def setup_init(self):
        x, u = z3.Consts("in_x in_u", RefS)
        i, j = z3.Ints("in_i in_j")
        d = z3.Const("in_d", StrS)

        def T(h, c, k):
            return sel(h.larr(c.t("targets"), DT), k)

        def req(c):
            h, l = c.old, c.t("targets")
            e = T(h, c, i)
            inr = And(0 <= i, i < h.llen(l))
            D = lambda z: h.fld("DependableTarget", "deps", z)
            return [("steps", z3.ForAll([i], Implies(inr, And(e != null, h.alloc(e), D(e) != null, h.alloc(D(e)))), patterns=[e])),
                    ("distinct-names", z3.ForAll([i], Implies(inr, self.index(name(h, e)) == i), patterns=[e])),
                    ("numbering", RESP == self.acyclic(h, c))]

        def known(h, c, d):
            return z3.Exists([j], And(0 <= j, j < h.llen(c.t("targets")), name(h, T(h, c, j)) == d))

        def unknown(h, c):
            return z3.Exists([i, d], And(0 <= i, i < h.llen(c.t("targets")), sel(deps(h, T(h, c, i)), d), Not(known(h, c, d))))

        def ens(c):
            o, h, slf = c.old, c.new, c.t("self")
            L = h.fld("InverseRecursiveSolver", "deptargets", slf)
            ti = h.fld("InverseRecursiveSolver", "task_invoker", slf)
            n = o.llen(c.t("targets"))
            e, f = sel(h.larr(L, RT), i), sel(h.larr(L, RT), j)
            q = h.fld("TaskInvoker", "queue", ti)
            items = h.setc(h.fld("Queue", "items", q), RT)
            inr = And(0 <= i, i < n)
            edge = And(inr, 0 <= j, j < n, sel(deps(o, T(o, c, i)), name(o, T(o, c, j))))
            R = lambda z: sel(h.ghost("rank"), z)
            return [("not-empty", n > 0), ("dependencies-known", Not(unknown(o, c))),
                    ("one-runtime-per-step", And(h.llen(L) == n, z3.ForAll([i], Implies(inr, And(dt(h, e) == T(o, c, i), e != null, h.fld("DependableTargetRuntime", "task_invoker", e) == ti)), patterns=[e]))),
                    ("no-cycle", z3.ForAll([i, j], Implies(edge, R(e) < R(f)), patterns=[z3.MultiPattern(e, f)])),
                    ("dependents", z3.ForAll([j, x], Implies(And(0 <= j, j < n), sel(inv(h, f), x) == z3.Exists([i], And(edge, e == x))), patterns=[sel(inv(h, f), x)])),
                    ("counts", z3.ForAll([i], Implies(inr, h.fld("DependableTargetRuntime", "depcount", e) == card_str(deps(o, T(o, c, i)))), patterns=[e])),
                    ("queued", z3.ForAll([x], sel(items, x) == z3.Exists([i], And(inr, e == x, deps(o, T(o, c, i)) == z3.EmptySet(StrS))), patterns=[sel(items, x)])),
                    ("queue-count", h.fld("Queue", "unf", q) == card_ref(items)),
                    ("no-error-yet", And(Not(h.fld("TaskInvoker", "error_while_execution", ti)), Not(h.fld("Lock", "held", h.fld("TaskInvoker", "mtx", ti))))),
                    ("threads", h.fld("TaskInvoker", "threads_count", ti) == c.t("count_of_threads"))]
        S_ = "InverseRecursiveSolver"
        tl = lambda c: [("steps", req(c)[0][1])]
        self.check_ = self.add(Contract("licant.solver:InverseRecursiveSolver.check", {"self": SOLVER, "targets": List(DT)}, requires=tl))
        self.double = self.add(Contract("licant.solver:InverseRecursiveSolver.double_depends_check", {"self": SOLVER, "targets": List(DT)}, requires=tl))

        def nd_list(h, slf):
            return h.fld(S_, "deptargets", slf)

        def nd_req(c):
            h = c.old
            l = nd_list(h, c.t("self"))
            return [("runtimes", And(l != null, h.alloc(l), self.good_runtimes(h, l))), ("distinct", self.distinct(h, l, RT))]

        def nd_ens(c):
            o, h, r = c.old, c.new, c.rt()
            l = nd_list(o, c.t("self"))
            e, f = sel(o.larr(l, RT), i), sel(h.larr(r, RT), i)
            return [("new", And(r != null, Not(o.alloc(r)))), ("distinct", self.distinct(h, r, RT)),
                    ("without-dependencies", z3.ForAll([i], Implies(And(0 <= i, i < h.llen(r)), And(inlist(o, l, f, RT, "a"), deps(o, dt(o, f)) == z3.EmptySet(StrS))), patterns=[f])),
                    ("all", z3.ForAll([i], Implies(And(0 <= i, i < o.llen(l), deps(o, dt(o, e)) == z3.EmptySet(StrS)), inlist(h, r, e, RT, "b")), patterns=[e]))]
        self.nondep = self.add(Contract("licant.solver:InverseRecursiveSolver.get_non_dependable_targets", {"self": SOLVER}, ret=List(RT), requires=nd_req, ensures=nd_ens,
                                        modifies=lambda c: [("list", "new", RT)]))
        mods = lambda c: [("field", S_, a, [c.t("self")]) for a in solver_schema[S_]] + \
            [("field", k, a, "new") for k in ("TaskInvoker", "DependableTargetRuntime", "Queue", "Lock") for a in solver_schema[k]] + \
            [("ghost", g) for g in self.ghosts] + [("set", "new", RT), ("list", "new", RT), ("list", "new", ANY), ("list", "new", BOOL), ("dict", "new", RT, Set(RT)), ("dict", "new", STR, RT)]
        def init_setup(eng, bound):
            # a list that is not empty has an element with the largest number
            h = HeapView(eng, eng.heap)
            l = bound["targets"].z
            m = eng.fresh("largest_index", I)
            t = lambda k: sel(h.larr(l, DT), k)
            look = z3.Function("look_at_name", StrS, B)
            eng.assume(Implies(h.llen(l) > 0, And(0 <= m, m < h.llen(l), look(self.anyof(deps(h, t(m)))),
                                                  z3.ForAll([j], Implies(And(0 <= j, j < h.llen(l)), RN(name(h, t(j))) <= RN(name(h, t(m)))), patterns=[t(j)]))))
        empty = lambda c: c.old.llen(c.t("targets")) == 0
        self.init = Contract("licant.solver:InverseRecursiveSolver.__init__", {"self": SOLVER, "targets": List(DT), "count_of_threads": INT, "trace": BOOL}, requires=req, ensures=ens, modifies=mods,
                             raises=[("UnknowTargetError", lambda c: unknown(c.old, c)), ("NoOneNonDependableTarget", lambda c: Or(empty(c), Not(RESP))),
                                     ("CircularDependencyError", lambda c: Not(RESP)), ("ConnectivityError", lambda c: Not(RESP))], check_only=True, setup=init_setup)
        self.init.no_frame = True
        self.init.chain = True

        def lemmas(c):
            o, h, slf = c.old, c.new, c.t("self")
            N = h.ghost("nodes")
            ti = h.fld(S_, "task_invoker", slf)
            q = h.fld("TaskInvoker", "queue", ti)
            items = h.setc(h.fld("Queue", "items", q), RT)
            L = h.fld(S_, "deptargets", slf)
            e = sel(h.larr(L, RT), i)
            R = lambda z: sel(h.ghost("rank"), z)
            D = lambda z: deps(h, dt(h, z))
            eng = c.eng
            eng.prove(items == self.mid[0], "lemma:queue-kept", using=("hx", "lx"))
            return [("steps", And(h.llen(L) == o.llen(c.t("targets")), z3.ForAll([i], Implies(And(0 <= i, i < h.llen(L)), And(sel(N, e), dt(h, e) == T(o, c, i), dt(h, e) != null, e != null, D(e) == deps(o, T(o, c, i)), name(h, dt(h, e)) == name(o, T(o, c, i)))), patterns=[e, T(o, c, i)]))),
                    ("steps-listed", z3.ForAll([x], Implies(sel(N, x), inlist(h, L, x, RT, "s")), patterns=[sel(N, x)])),
                    ("steps-kept", N == self.mid[1]),
                    ("queued", z3.ForAll([x], sel(items, x) == And(sel(N, x), D(x) == z3.EmptySet(StrS)), patterns=[sel(items, x)])),
                    ("queue-count", h.fld("Queue", "unf", q) == card_ref(items)),
                    ("edges", z3.ForAll([x, u], Implies(And(sel(N, x), sel(N, u)), sel(inv(h, x), u) == sel(D(u), name(h, dt(h, x)))), patterns=[sel(inv(h, x), u), sel(D(u), name(h, dt(h, x)))])),
                    ("closed", z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), And(sel(N, u), R(u) < R(x))), patterns=[sel(inv(h, x), u)])),
                    ]
        self.init.lemmas = lemmas

    def acyclic(self, h, c):
        i, j = z3.Ints("ay_i ay_j")
        l = c.t("targets")
        a, b = sel(h.larr(l, DT), i), sel(h.larr(l, DT), j)
        n = h.llen(l)
        return z3.ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n, sel(deps(h, a), name(h, b))), RN(name(h, a)) < RN(name(h, b))), patterns=[z3.MultiPattern(a, b)])

    def setup_dfs(self):

        def base(c, h):
            vis, path = h.setc(c.t("visited"), RT), c.t("path")
            N = h.ghost("nodes")
            HASDEPS = lambda z: sel(h.ghost("hasdeps"), z)
            i = z3.Int("ba_i")
            x, u = z3.Consts("ba_x ba_u", RefS)
            a = h.larr(path, RT)
            return [("graph", self.graph(h, N)),
                    ("dependents-have-dependencies", z3.ForAll([x, u], Implies(And(sel(N, x), sel(inv(h, x), u)), HASDEPS(u)), patterns=[sel(inv(h, x), u)])),
                    ("numbering", Implies(RESP, self.respects(h, N))),
                    ("visited-apart", z3.ForAll([x], Implies(sel(N, x), h.fld("DependableTargetRuntime", "inverse_deps", x) != c.t("visited")), patterns=[h.fld("DependableTargetRuntime", "inverse_deps", x)])),
                    ("visited-in-nodes", z3.IsSubset(vis, N)),
                    ("path-visited", z3.ForAll([i], Implies(And(0 <= i, i < h.llen(path)), sel(vis, sel(a, i))), patterns=[sel(a, i)])),
                    ("finished", self.finished(h, vis, path, h.ghost("rank"), h.ghost("clock"))),
                    ("chain", Implies(RESP, self.path_chain(h, path)))]

        def req(c):
            h, t, path = c.old, c.t("target"), c.t("path")
            vis = h.setc(c.t("visited"), RT)
            N = h.ghost("nodes")
            R = lambda z: sel(h.ghost("num"), z)
            j = z3.Int("rq_j")
            return base(c, h) + [
                ("new", And(sel(N, t), Not(sel(vis, t)))),
                ("continues-the-path", Implies(RESP, z3.ForAll([j], Implies(And(0 <= j, j < h.llen(path)), R(sel(h.larr(path, RT), j)) > R(t)), patterns=[sel(h.larr(path, RT), j)])))]

        def samepath(c, o, h):
            path = c.t("path")
            j = z3.Int("sp_j")
            return And(h.llen(path) == o.llen(path), z3.ForAll([j], Implies(And(0 <= j, j < o.llen(path)), sel(h.larr(path, RT), j) == sel(o.larr(path, RT), j)), patterns=[sel(h.larr(path, RT), j), sel(o.larr(path, RT), j)]))
        self.samepath = samepath

        def grows(c, o, h):
            x = z3.Const("gw_x", RefS)
            a, b = o.setc(c.t("visited"), RT), h.setc(c.t("visited"), RT)
            HASDEPS = lambda z: sel(h.ghost("hasdeps"), z)
            return And(z3.IsSubset(a, b), z3.ForAll([x], Implies(And(sel(b, x), Not(sel(a, x))), Or(x == c.t("target"), HASDEPS(x))), patterns=[sel(b, x)]))

        def keepranks(c, o, h):
            x = z3.Const("kr_x", RefS)
            a = o.setc(c.t("visited"), RT)
            return And(h.ghost("clock") >= o.ghost("clock"),
                       z3.ForAll([x], Implies(And(sel(a, x), Not(self.onpath(o, c.t("path"), x))), sel(h.ghost("rank"), x) == sel(o.ghost("rank"), x)), patterns=[sel(h.ghost("rank"), x)]))

        def ens(c):
            h = c.new
            return base(c, h) + [("same-path", samepath(c, c.old, h)), ("visited", sel(h.setc(c.t("visited"), RT), c.t("target"))),
                                 ("only-dependents-visited", grows(c, c.old, h)), ("ranks-kept", keepranks(c, c.old, h))]

        def gexit(eng, c):
            clock = eng.ghost("clock")
            eng.set_ghost("rank", z3.Store(eng.ghost("rank"), c.t("target"), clock))
            eng.set_ghost("clock", clock + 1)
        mods = lambda c: [("set", c.t("visited"), RT), ("list", c.t("path"), RT), ("ghost", "rank"), ("ghost", "clock"), ("list", "new", RT)]
        self.dfs = Contract("licant.solver:InverseRecursiveSolver.dfs", {"self": SOLVER, "target": RT, "visited": Set(RT), "path": List(RT)}, requires=req, ensures=ens,
                            modifies=mods, raises=[("CircularDependencyError", lambda c: Not(RESP))], ghost_exit=gexit)
        self.dfs.decreases = lambda c: card_ref(z3.SetDifference(c.old.ghost("nodes"), c.old.setc(c.t("visited"), RT)))
        self.add(self.dfs)
        self.base, self.grows = base, grows

    def invariants(self, c):
        eng = c.eng
        out = []
        if eng.verifying is self.dfs and c.kind == "for":
            k = CallCtx(eng, dict(eng.fn_args), c.at_entry)
            k.types = self.dfs.params
            h, o = c.h, c.at_entry
            # along the loop the path is as it was when the loop began
            for n, f in self.base(k, h):
                out.append((n, f))
            out.append(("same-path", self.samepath(k, o, h)))
            k0 = CallCtx(eng, dict(eng.fn_args), c.old)
            k0.types = self.dfs.params
            out.append(("grows", self.grows(k0, c.old, h)))
            vis, path = h.setc(k.t("visited"), RT), k.t("path")
            ov = c.old.setc(k.t("visited"), RT)
            x = z3.Const("di_x", RefS)
            out.append(("target-visited", sel(vis, k.t("target"))))
            out.append(("ranks-kept", And(h.ghost("clock") >= c.old.ghost("clock"), z3.ForAll([x], Implies(And(sel(ov, x), Not(self.onpath(c.old, path, x))), sel(h.ghost("rank"), x) == sel(c.old.ghost("rank"), x)), patterns=[sel(h.ghost("rank"), x)]))))
            if c.done is not None and c.src.kind == "bag":
                out.append(("done-finished", z3.ForAll([x], Implies(c.done(x), And(sel(vis, x), Not(self.onpath(h, path, x)))), patterns=[c.done(x)])))
        out += self.rest_invariants(c)
        return out

    def rest_invariants(self, c):
        eng, h, o = c.eng, c.h, c.old
        x, u, y = z3.Consts("ri_x ri_u ri_y", RefS)
        out = []
        if eng.verifying in (self.invert, self.collect) and c.kind == "for":
            args = CallCtx(eng, dict(eng.fn_args), c.old)
            args.types = eng.verifying.params
            rts = [v.z for n, v in c.of_type("ref") if prune(v.t).args[0] == "DependableTargetRuntime"]
            for n, v in c.of_type("dict"):
                if v is eng.fn_args.get("depends_dictionary") or v is eng.fn_args.get("names_to_deptargets"):
                    continue
                t = prune(v.t)
                if tkey(t) != tkey(Dict(RT, Set(RT))):
                    continue
                rdom, rval = h.ddom(v.z, RT, Set(RT)), h.dval(v.z, RT, Set(RT))
                a, b = sel(rval, x), sel(rval, y)
                out.append((n + ":new-sets", z3.ForAll([x], Implies(sel(rdom, x), And(a != null, h.alloc(a), Not(o.alloc(a)))), patterns=[a])))
                out.append((n + ":separate", z3.ForAll([x, y], Implies(And(sel(rdom, x), sel(rdom, y), x != y), a != b), patterns=[z3.MultiPattern(a, b)])))
                if c.done is not None and c.elem is not None and tkey(c.elem) == tkey(RT):
                    out.append((n + ":keys-are-done", z3.ForAll([x], sel(rdom, x) == c.done(x), patterns=[sel(rdom, x)])))
                    if c.src.kind == "seq":
                        j = z3.Int("ri_j")
                        e = sel(c.src.array(), j)
                        out.append((n + ":done-are-keys", z3.ForAll([j], Implies(And(0 <= j, j < c.idx), sel(rdom, e)), patterns=[e])))
                if eng.verifying is self.invert:
                    D = args.t("depends_dictionary")
                    dom, val = o.ddom(D, RT, Set(RT)), o.dval(D, RT, Set(RT))
                    out.append((n + ":keys", z3.ForAll([x], sel(rdom, x) == sel(dom, x), patterns=[sel(rdom, x), sel(dom, x)])))
                    out.append((n + ":empty", z3.ForAll([x, u], Implies(sel(rdom, x), Not(sel(h.setc(a, RT), u))), patterns=[sel(h.setc(a, RT), u)])))
                    if c.done is not None:
                        done = c.done
                        edge = lambda u, x: And(sel(dom, u), sel(o.setc(sel(val, u), RT), x))
                        pats = [sel(h.setc(a, RT), u), sel(o.setc(sel(val, u), RT), x)]
                        out.append((n + ":content", z3.ForAll([x, u], Implies(sel(rdom, x), sel(h.setc(a, RT), u) == And(done(u), edge(u, x))), patterns=pats)))
                        outer = c.at_entry
                        for k, t in enumerate(rts):
                            out.append((n + ":content-inner-%d" % k, z3.ForAll([x, u], Implies(sel(rdom, x), sel(h.setc(a, RT), u) == Or(sel(outer.setc(sel(outer.dval(v.z, RT, Set(RT)), x), RT), u), And(u == t, edge(u, x), done(x)))), patterns=pats)))
                            out.append((n + ":vals-kept", z3.ForAll([x], Implies(sel(rdom, x), a == sel(outer.dval(v.z, RT, Set(RT)), x)), patterns=[a])))
                else:
                    nm = args.t("names_to_deptargets")
                    dep = self.depends
                    pats = [sel(h.setc(a, RT), u)]
                    out.append((n + ":content", z3.ForAll([x, u], Implies(sel(rdom, x), sel(h.setc(a, RT), u) == dep(o, nm, x, u)), patterns=pats)))
                    d = z3.Const("ri_d", StrS)
                    out.append((n + ":known", z3.ForAll([x, d], Implies(And(sel(rdom, x), sel(deps(o, dt(o, x)), d)), sel(o.ddom(nm, STR, RT), d)), patterns=[z3.MultiPattern(sel(rdom, x), sel(deps(o, dt(o, x)), d))])))
                    if c.done is not None and c.elem is not None and tkey(c.elem) == tkey(STR):
                        for k, t in enumerate(rts):
                            out.append((n + ":content-inner-%d" % k, z3.ForAll([x, u], Implies(sel(rdom, x), sel(h.setc(a, RT), u) == And(dep(o, nm, x, u), Or(x != t, c.done(name(o, dt(o, u)))))), patterns=pats)))
                            out.append((n + ":known-inner-%d" % k, z3.ForAll([x, d], Implies(And(sel(rdom, x), sel(deps(o, dt(o, x)), d), Or(x != t, c.done(d))), sel(o.ddom(nm, STR, RT), d)), patterns=[z3.MultiPattern(sel(rdom, x), sel(deps(o, dt(o, x)), d))])))
        if eng.verifying is self.init and c.kind == "for" and c.idx is not None and tkey(c.elem) == tkey(RT):
            j = z3.Int("ii_j")
            e = sel(c.src.array(), j)
            for n, v in c.of_type("dict"):
                if tkey(v.t) == tkey(Dict(RT, Set(RT))):
                    out.append(("set:" + n, z3.ForAll([j], Implies(And(0 <= j, j < c.idx), h.fld("DependableTargetRuntime", "inverse_deps", e) == sel(h.dval(v.z, RT, Set(RT)), e)), patterns=[e])))
            ti = h.fld("InverseRecursiveSolver", "task_invoker", eng.fn_args["self"].z)
            q = h.fld("TaskInvoker", "queue", ti)
            items = h.setc(h.fld("Queue", "items", q), RT)
            out.append(("queued", z3.ForAll([x], Implies(sel(items, x), c.done(x)), patterns=[sel(items, x)])))
            out.append(("all-queued", z3.ForAll([j], Implies(And(0 <= j, j < c.idx), sel(items, e)), patterns=[e])))
            out.append(("queue-count", h.fld("Queue", "unf", q) == c.idx))
        if eng.verifying is self.double and c.kind == "for" and c.done is not None and tkey(c.elem) == tkey(STR):
            for n, v in c.of_type("int"):
                for n2, w in c.of_type("str"):
                    out.append(("count:%s:%s" % (n, n2), v.z == If(c.done(w.z), 1, 0)))
        if eng.verifying is self.conn and c.kind == "for" and c.idx is not None:
            params = set(id(v) for v in eng.fn_args.values())
            sets = [(n, v) for n, v in c.of_type("set") if id(v) not in params and tkey(v.t) == tkey(Set(RT))]
            lists = [(n, v) for n, v in c.of_type("list") if id(v) not in params and tkey(v.t) == tkey(List(RT))]
            N, hd = h.ghost("nodes"), h.ghost("hasdeps")
            j = z3.Int("ci_j")
            for sn, sv in sets:
                for ln, lv in lists:
                    k = CallCtx(eng, {"visited": sv, "path": lv}, h)
                    tag = sn + "," + ln + ":"
                    for n, f in self.base(k, h):
                        out.append((tag + n, f))
                    out.append((tag + "path-empty", h.llen(lv.z) == 0))
                    vis = h.setc(sv.z, RT)
                    out.append((tag + "visited-known", z3.ForAll([x], Implies(sel(vis, x), Or(sel(hd, x), c.done(x))), patterns=[sel(vis, x)])))
                    e = sel(c.src.array(), j)
                    out.append((tag + "done-visited", z3.ForAll([j], Implies(And(0 <= j, j < c.idx), sel(vis, e)), patterns=[e])))
        return out

SLOW = ()
ASSUMPTIONS = ["names of the steps are pairwise different", "every non-empty finite set of numbers has a largest member; a list without repetition has as many members as it is long (finite sets)",
               "a graph without a cycle has a numbering that increases along its dependencies, one with a cycle has none", "the recursion of the search is not limited by Python's stack (see the known finding)"]
TRUSTED = []


def units(prog):
    s = S(prog)
    return [(s, [s.dfs, s.collect, s.invert, s.conn, s.check_, s.double, s.nondep, s.init])]
