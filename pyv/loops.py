"""Loops cut by inductive invariants, comprehensions generalised over an arbitrary element."""
import ast
import z3

from .vals import *
from .engine import *
from .interp import Interp, Poison, zb, walk_own, named, short
from . import engine as E


class Seq:
    """Something iterated in order of an index 0 <= i < n."""
    kind = "seq"
    isort = z3.IntSort()

    def __init__(self, n, get, items=None, coll=None, elem=None, array=None):
        self.n = n              # function of no argument: current length
        self.get = get          # index term -> Value
        self.items = items      # list of Values if known
        self.coll = coll
        self.elem = elem
        self.array = array      # function of no argument: current element array or None

    def in_range(self, i):
        return z3.And(0 <= i, i < self.n())

    def trig(self, i):
        return [z3.Select(self.array(), i)] if self.array is not None else []


class Bag:
    """Elements of a set in an unknown order."""
    kind = "bag"

    def __init__(self, cur, elem, mk, coll=None):
        self.cur = cur          # function: current set term
        self.elem = elem
        self.mk = mk            # element term -> Value
        self.coll = coll
        self.isort = sort_of(elem)
        self.items = None

    def in_range(self, x):
        return z3.Select(self.cur(), x)

    def get(self, x):
        return self.mk(x)

    def trig(self, x):
        return [z3.Select(self.cur(), x)]


class Loops(Interp):

    # ------------------------------------------------------------ what is iterated
    def iter_source(self, v, node=None):
        v = self.force(v)
        it = self.tuple_items(v)
        if it is not None:
            return Seq(lambda: z3.IntVal(len(it)), None, it)
        if isinstance(v, Con) and isinstance(v.v, str):
            return Seq(lambda: z3.IntVal(len(v.v)), None, [Con(c) for c in v.v])
        if isinstance(v, KwV):
            if getattr(v, "rest", None) is not None and not self.empty_map(v.rest):
                raise Unsupported("iteration over unknown keyword arguments")
            ks = [Con(k) for k in v.d]
            return Seq(lambda: z3.IntVal(len(ks)), None, ks)
        if isinstance(v, (GenV,)):
            return self.iter_source(self.to_list(v, node))
        if isinstance(v, ViewV):
            return self.iter_view(v, node)
        if isinstance(v, V):
            t = prune(v.t)
            if t.kind in ("list", "set", "dict") and isinstance(prune(t.args[0]), TVar):
                return Seq(lambda: z3.IntVal(0), None, [])
            if t.kind == "list":
                items = self.list_items(v)
                if items is not None and len(items) <= 24:
                    return Seq(lambda: z3.IntVal(len(items)), None, items)
                return Seq(lambda: self.list_len(v), lambda i: self.list_get(v, i), None, v, t.args[0], lambda: self.list_arr(v))
            if t.kind == "set":
                return Bag(lambda: self.set_content(v), t.args[0], lambda x: self.from_term(x, t.args[0]), v)
            if t.kind == "dict":
                return Bag(lambda: self.dict_dom(v), t.args[0], lambda x: self.from_term(x, t.args[0]), v)
            if t.kind == "ref":
                hd = self.hidden_dict(v)
                if hd is not None:
                    return self.iter_source(hd)
            h = self.spec_hook("iter", v)
            if h is not None:
                return h
        if isinstance(v, Con):
            raise PyRaise("TypeError")
        raise Unsupported("iteration over %r" % (v,))

    def iter_view(self, v, node):
        k = v.kind
        if k in ("keys", "values", "items"):
            d = v.args[0]
            if isinstance(d, KwV):
                items = [Con(x) if k == "keys" else (y if k == "values" else Tup([Con(x), y])) for x, y in d.d.items()]
                if getattr(d, "rest", None) is not None and not self.empty_map(d.rest):
                    if getattr(self.spec, "extra_attributes_ignored", False):
                        self.assumptions.add("extra keyword attributes of a target are not attributes licant itself assigns")
                        return Seq(lambda: z3.IntVal(len(items)), None, items)
                    raise Unsupported("iteration over unknown keyword arguments")
                return Seq(lambda: z3.IntVal(len(items)), None, items)
            t = prune(d.t)
            if isinstance(prune(t.args[0]), TVar):
                return Seq(lambda: z3.IntVal(0), None, [])

            def mk(x):
                if k == "keys":
                    return self.from_term(x, t.args[0])
                if k == "values":
                    return self.dict_get(d, x)
                return Tup([self.from_term(x, t.args[0]), self.dict_get(d, x)])
            return Bag(lambda: self.dict_dom(d), t.args[0], mk, d)
        if k == "range":
            lo, hi = v.args
            a, b = self.const_int(lo), self.const_int(hi)
            if a is not None and b is not None and b - a <= 24:
                items = [Con(i) for i in range(a, b)]
                return Seq(lambda: z3.IntVal(len(items)), None, items)
            return Seq(lambda: z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda i: V(INT, lo + i))
        if k == "enumerate":
            s = self.as_seq(self.iter_source(v.args[0], node))
            st = v.args[1]
            if s.items is not None:
                items = [Tup([self.binop(ast.Add(), st, Con(i), None), x]) for i, x in enumerate(s.items)]
                return Seq(s.n, None, items)
            off = self.num(st, INT)
            return Seq(s.n, lambda i: Tup([V(INT, off + i), s.get(i)]), None, s.coll, s.elem, s.array)
        if k == "zip":
            ss = [self.as_seq(self.iter_source(a, node)) for a in v.args]
            if all(s.items is not None for s in ss):
                items = [Tup(list(x)) for x in zip(*[s.items for s in ss])]
                return Seq(lambda: z3.IntVal(len(items)), None, items)

            def n():
                m = ss[0].n()
                for s in ss[1:]:
                    m = z3.If(s.n() < m, s.n(), m)
                return m

            def get(i):
                return Tup([s.get(i) if s.items is None else self.item_at(s, i) for s in ss])
            q = Seq(n, get, None, ss[0].coll, ss[0].elem, ss[0].array)
            q.parts = ss
            return q
        if k == "reversed":
            s = self.as_seq(self.iter_source(v.args[0], node))
            if s.items is not None:
                return Seq(s.n, None, list(reversed(s.items)))
            return Seq(s.n, lambda i: s.get(s.n() - 1 - i), None, s.coll, s.elem, s.array)
        if k in ("map", "filter"):
            return self.iter_source(self.to_list(v, node))
        raise Unsupported("iteration over " + k)

    def item_at(self, s, i):
        raise Unsupported("zip of a known and an unknown sequence")

    def as_seq(self, s):
        """Give the elements of a set an (unknown) order."""
        if s.kind == "seq":
            return s
        S = s.cur()
        es = sort_of(s.elem)
        n = self.fresh("enum_n", z3.IntSort())
        c = z3.Function("card_" + tkey(s.elem), S.sort(), z3.IntSort())
        arr = self.fresh("enum", z3.ArraySort(z3.IntSort(), es))
        pos = self.fresh("enum_pos", z3.ArraySort(es, z3.IntSort()))
        i = z3.Int("eni")
        x = z3.Const("enx", es)
        self.assume(z3.And(n == c(S), n >= 0))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(S, z3.Select(arr, i)), z3.Select(pos, z3.Select(arr, i)) == i)), patterns=[z3.Select(arr, i)]))
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(S, x), z3.And(z3.Select(pos, x) >= 0, z3.Select(pos, x) < n, z3.Select(arr, z3.Select(pos, x)) == x)), patterns=[z3.Select(pos, x), z3.Select(S, x)]))
        return Seq(lambda: n, lambda k: s.get(z3.Select(arr, k)), None, s.coll, s.elem, lambda: arr)

    # ------------------------------------------------------------ loops
    def st_For(self, st, env):
        src = self.iter_source(self.ev(st.iter, env), st)
        if src.items is not None:
            for v in src.items:
                self.assign(st.target, v, env)
                try:
                    self.block(st.body, env)
                except ContinueX:
                    continue
                except BreakX:
                    return
            self.block(st.orelse, env)
            return

        self.cut_loop(st, env, src)

    def st_While(self, st, env):
        self.cut_loop(st, env, None)

    def env_chain(self, env):
        out = []
        while env is not None:
            out.append(env)
            env = env.parent
        return out

    def cut_loop(self, st, env, src):
        site = self.site(st)
        info = self.loops.setdefault(site, LoopInfo())
        chain = self.env_chain(env)
        entry_heap = dict(self.heap)
        # make sure arrays that the invariants read are the same before and after
        entry_vars = [dict(e.vars) for e in chain]
        is_for = src is not None
        birth0 = self.birth
        S0 = src.cur() if is_for and src.kind == "bag" else None

        def ctx(idx, done, elem_now=None):
            c = LoopCtx(self, env, entry_vars, entry_heap, self.heap, st, "for" if is_for else "while")
            c.src = src
            c.site = site
            c.coll = src.coll if is_for else None
            c.elem = src.elem if is_for else None
            c.idx = idx
            c.doneset = done
            c.info = info
            c.chain = chain
            if is_for:
                if src.kind == "seq":
                    def isdone(x):
                        j = z3.Int("dnj")
                        return z3.Exists([j], z3.And(0 <= j, j < idx, z3.Select(src.array(), j) == x))
                    c.done = isdone if src.array is not None else None
                    c.pending = (lambda x: z3.And(*[])) if src.array is None else None
                else:
                    c.done = lambda x: z3.Select(done, x)
            return c

        # 1. invariants hold at the start
        empty = z3.EmptySet(src.isort) if is_for and src.kind == "bag" else None
        c0 = ctx(z3.IntVal(0) if is_for and src.kind == "seq" else None, empty)
        self.check_candidates(info, c0, "entry", site)
        # 2. an arbitrary iteration: forget what the body changes
        al = self.harr("G:alloc")
        for key in sorted(info.heap):
            self.loop_havoc(key, info.heap[key], al)
        for (depth, name), t in sorted(info.locals.items(), key=lambda kv: (kv[0][0], kv[0][1])):
            if depth >= len(chain):
                continue
            e = chain[depth]
            if t == "poison":
                e.vars[name] = Poison()
                continue
            v = self.freshv("loop_" + name, t)
            if isinstance(v, V):
                self.assume_class(v.z, v.t)
            if name not in e.vars:
                v = MaybeUnbound(self.fresh("unbound_" + name, z3.BoolSort()), v)
            e.vars[name] = v
        idx = done = None
        if is_for:
            if src.kind == "seq":
                idx = self.fresh("idx", z3.IntSort())
                self.assume(z3.And(idx >= 0, idx <= src.n()))
            else:
                done = self.fresh("done", z3.ArraySort(src.isort, z3.BoolSort()))
                x = z3.Const("dx", src.isort)
                self.assume(z3.ForAll([x], z3.Implies(z3.Select(done, x), z3.Select(S0, x)), patterns=[z3.Select(done, x)]))
        c1 = ctx(idx, done)
        for name, f in self.candidates(c1):
            if (site, name) not in info.dropped and f is not None:
                self.assume(f)
        # 3. one iteration, or the end of the loop
        if is_for:
            if self.choose():
                n0 = len(self.writes)
                fresh0 = set(self.fresh_refs)
                if src.kind == "seq":
                    self.assume(idx < src.n())
                    x = src.get(idx)
                    nidx, ndone = idx + 1, None
                else:
                    xt = self.fresh("it", src.isort)
                    self.assume(z3.And(z3.Select(S0, xt), z3.Not(z3.Select(done, xt))))
                    x = src.get(xt)
                    nidx, ndone = None, z3.Store(done, xt, z3.BoolVal(True))
                if isinstance(x, V):
                    self.assume_class(x.z, x.t)
                self.in_iteration = getattr(self, "in_iteration", 0)
                self.assign(st.target, x, env)
                try:
                    self.block(st.body, env)
                except ContinueX:
                    pass
                except BreakX:
                    return
                self.end_iteration(info, site, chain, entry_vars, n0, fresh0, birth0)
                if src.kind == "bag":
                    self.prove(src.cur() == S0, "loop:collection-unchanged", "the iterated collection is not changed by the loop")
                self.check_candidates(info, ctx(nidx, ndone), "step", site)
                raise PathEnd()
            if src.kind == "seq":
                self.assume(idx >= src.n())
            else:
                self.assume(done == S0)
            self.block(st.orelse, env)
        else:
            n0 = len(self.writes)
            fresh0 = set(self.fresh_refs)
            measure0 = self.loop_measure(c1)
            if self.truthy(self.ev(st.test, env)):
                try:
                    self.block(st.body, env)
                except ContinueX:
                    pass
                except BreakX:
                    return
                self.end_iteration(info, site, chain, entry_vars, n0, fresh0, birth0)
                c2 = ctx(None, None)
                self.check_candidates(info, c2, "step", site)
                if measure0 is not None:
                    m1 = self.loop_measure(c2)
                    self.prove(z3.And(measure0 >= 0, m1 < measure0), "loop:terminates", assume_after=False)
                raise PathEnd()
            self.block(st.orelse, env)

    def loop_measure(self, c):
        f = getattr(self.spec, "measure", None)
        return f(c) if f else None

    def loop_havoc(self, key, kinds, al):
        if key.startswith("G:") and key != "G:alloc":
            self.heap[key] = self.fresh("lh_" + key, self.ghost(key[2:]).sort())
            return
        if key.startswith("V:"):
            self.heap[key] = self.fresh("lh_" + key, self.heap_array(self.heap, key).sort())
            return
        if key not in self._sorts and key != "G:alloc":
            return
        a = self.heap_array(self.heap, key)
        x = z3.Const("lx", RefS)
        if key == "G:alloc":
            n = self.fresh("lh_alloc", a.sort())
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(a, x), z3.Select(n, x)), patterns=[z3.Select(a, x)]))
            self.heap[key] = n
            return
        if not kinds["any"] and not kinds["fresh"]:
            n = a
            for r in kinds["stable"].values():
                fr = self.fresh("lh", a.sort().range())
                n = z3.Store(n, r, fr)
                if key == "L:len":
                    self.assume(fr >= 0)
            self.heap[key] = n
        else:
            n = self.fresh("lh_" + key, a.sort())
            if not kinds["any"]:
                cond = [z3.Select(al, x)] + [x != r for r in kinds["stable"].values()]
                self.assume(z3.ForAll([x], z3.Implies(z3.And(*cond), z3.Select(n, x) == z3.Select(a, x)), patterns=[z3.Select(n, x)]))
            if key == "L:len":
                self.assume(z3.ForAll([x], z3.Select(n, x) >= 0, patterns=[z3.Select(n, x)]))
            self.heap[key] = n
        self.shadow.pop(key, None)
        if key.startswith("L:"):
            self.shadow.pop("items", None)

    def old_term(self, z, birth0):
        """Does the term consist of constants that existed before the loop?"""
        seen = set()
        todo = [z]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                todo.append(t.body())
                continue
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                b = self.const_birth.get(t.get_id())
                if b is not None and b[0] > birth0:
                    return False
            todo.extend(t.children())
        return True

    def end_iteration(self, info, site, chain, entry_vars, n0, fresh0, birth0):
        """Learn what an iteration changes; start again if that is more than was assumed."""
        news = []
        fresh = {k for k in self.fresh_refs if k not in fresh0}
        for w in self.writes[n0:]:
            if w[0] == "heap":
                _, key, r = w
                k = info.heap.get(key)
                if k is None:
                    k = info.heap[key] = dict(stable={}, fresh=False, any=False)
                    news.append(key)
                if key.startswith("G:") or key.startswith("V:"):
                    continue
                if isinstance(r, str) and r == "new" or (r is not None and not isinstance(r, str) and r.get_id() in fresh):
                    if not k["fresh"]:
                        k["fresh"] = True
                        news.append(key + ":fresh")
                elif r is None or not self.old_term(r, birth0):
                    if not k["any"]:
                        k["any"] = True
                        news.append(key + ":any")
                else:
                    s = r.sexpr()
                    if s not in k["stable"]:
                        k["stable"][s] = r
                        news.append(key + ":" + s)
        ids = {id(e): d for d, e in enumerate(chain)}
        for w in self.writes[n0:]:
            if w[0] == "var" and w[1] in ids:
                d = ids[w[1]]
                name = w[2]
                v = chain[d].vars.get(name)
                if v is None:
                    continue
                t = self.loop_type(v)
                ev = entry_vars[d].get(name)
                if ev is not None and t != "poison":
                    et = self.loop_type(ev)
                    t = "poison" if et == "poison" else self.join_type(et, t)
                old = info.locals.get((d, name))
                if old is not None and old != "poison" and t != "poison":
                    t = self.join_type(old, t)
                elif old == "poison":
                    t = "poison"
                if old is None or (old == "poison") != (t == "poison") or (t != "poison" and prune(old) != prune(t)):
                    info.locals[(d, name)] = t
                    news.append("%s : %s" % (name, t))
        if news:
            raise Restart("loop %s: %s" % (site[-1], news[:5]))

    def loop_type(self, v):
        if isinstance(v, MaybeUnbound):
            return self.loop_type(v.value)
        if isinstance(v, (V, Con)):
            if isinstance(v, Con) and not isinstance(v.v, (type(None), bool, int, float, str)):
                return "poison"
            t = self.type_of(v)
            if isinstance(t, TVar) or any(isinstance(prune(a), TVar) for a in t.args if isinstance(a, (TVar, Type))):
                return "poison"
            return t
        if isinstance(v, Tup):
            ts = [self.loop_type(x) for x in v.items]
            if "poison" in ts:
                return "poison"
            return TupT(*ts)
        return "poison"

    def candidates(self, c):
        out = list(self.builtin_candidates(c))
        f = getattr(self.spec, "invariants", None)
        if f:
            for name, g in f(c):
                out.append((name, g))
        return out

    def builtin_candidates(self, c):
        """Invariants that are tried for every loop (and dropped where they do not hold)."""
        info = c.info
        for (d, name), t in sorted(info.locals.items(), key=lambda kv: (kv[0][0], kv[0][1])):
            if t == "poison" or d >= len(c.chain):
                continue
            v = c.chain[d].vars.get(name)
            ev = c.entry[d].get(name)
            if v is None or ev is None or isinstance(v, (MaybeUnbound, Poison)) or isinstance(ev, (MaybeUnbound, Poison)):
                continue
            k = prune(t).kind
            try:
                a, b = self.to_term(v, t), self.to_term(ev, t)
            except (Unsupported, PyRaise, Restart):
                continue
            yield "same:%d:%s" % (d, name), a == b
            if k in ("int", "real"):
                yield "grows:%d:%s" % (d, name), a >= b
        for key in sorted(info.heap):
            if info.heap[key]["any"] and not key.startswith(("G:", "V:")) and key in self._sorts:
                x = z3.Const("co_x", RefS)
                a0, a1 = self.heap_array(dict(c.old.h), key), self.harr(key)
                yield "older-kept:" + key, z3.ForAll([x], z3.Implies(c.old.alloc(x), z3.Select(a1, x) == z3.Select(a0, x)), patterns=[z3.Select(a1, x)])
        j = z3.Int("cj")
        for key in ("L:len",):
            if key in info.heap and not info.heap[key]["any"]:
                for s, r in sorted(info.heap[key]["stable"].items()):
                    n0 = self.rd(self.heap_array(dict(c.at_entry.h), key), r)
                    n1 = self.rd(self.harr(key), r)
                    if c.idx is not None:
                        yield "len-is-index:" + s, n1 == n0 + c.idx
                    yield "len-grows:" + s, n1 >= n0
                    for ak in sorted(info.heap):
                        if ak.startswith("L:arr:") and s in info.heap[ak]["stable"]:
                            a0 = self.rd(self.heap_array(dict(c.at_entry.h), ak), r)
                            a1 = self.rd(self.harr(ak), r)
                            yield "prefix:" + s, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), z3.Select(a1, j) == z3.Select(a0, j)), patterns=[z3.Select(a1, j)])
        for key in sorted(info.heap):
            if key.startswith("S:") or key.startswith("D:dom:"):
                for s, r in sorted(info.heap[key]["stable"].items()):
                    s0 = self.rd(self.heap_array(dict(c.at_entry.h), key), r)
                    s1 = self.rd(self.harr(key), r)
                    x = z3.Const("cx", s0.sort().domain())
                    yield "set-grows:" + key + s, z3.ForAll([x], z3.Implies(z3.Select(s0, x), z3.Select(s1, x)), patterns=[z3.Select(s0, x)])

    def check_candidates(self, info, c, when, site):
        if self.replaying() or self.phase == 0:
            return
        cands = [(n, f) for n, f in self.candidates(c) if (site, n) not in info.dropped and f is not None]
        bad = []
        todo = []
        for n, f in cands:
            if not z3.is_true(z3.simplify(zb(f))):
                todo.append((n, f))
        if not todo:
            return
        # all at once first
        if len(todo) > 1:
            r, _ = self.full_unsat([z3.Not(z3.And(*[f for _, f in todo]))], limit=self.inv_rlimit // 2)
            if r == "unsat":
                self.n_inv = getattr(self, "n_inv", 0) + len(todo)
                return
        for n, f in todo:
            r, d = self.full_unsat([z3.Not(f)], limit=self.inv_rlimit)
            if r != "unsat":
                bad.append((n, r))
        if bad:
            for n, r in bad:
                info.dropped.add((site, n))
                info.why = getattr(info, "why", [])
                info.why.append((n, when, r))
            raise Restart("invariants of %s dropped (%s): %s" % (site[-1], when, [b for b, _ in bad]))
        self.n_inv = getattr(self, "n_inv", 0) + len(todo)

    inv_rlimit = 12000000

    # ------------------------------------------------------------ comprehensions
    def ev_ListComp(self, n, env):
        info = self.loops.get(self.site(n) + ("comp",))
        if info is not None and any(k.startswith("V:") or k.startswith("G:") and k != "G:alloc" for k in info.heap):
            return self.comp_as_loop(n, env)      # it has effects an invariant must describe
        if len(n.generators) > 1 and not any(g.is_async for g in n.generators):
            src = self.iter_source(self.ev(n.generators[0].iter, env), n)
            if src.items is None:
                return self.comp_as_loop(n, env)
        return self.comp("list", n.generators, n.elt, env, n)

    def comp_as_loop(self, n, env):
        """A list comprehension is the loop that appends its elements to a new list."""
        body = getattr(n, "as_loop", None)
        if body is None:
            acc = "comprehension@%d:%d" % (n.lineno, n.col_offset)
            inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [n.elt], []))
            for g in reversed(n.generators):
                for c in reversed(g.ifs):
                    inner = ast.If(c, [inner], [])
                inner = ast.For(g.target, g.iter, [inner], [])
            body = [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), inner]
            for k, st in enumerate(body):
                for x in ast.walk(st):
                    if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
                        ast.copy_location(x, n)
            for k, x in enumerate(y for y in ast.walk(body[1]) if isinstance(y, ast.For)):
                x.col_offset = n.col_offset + k
            n.as_loop = body
            n.as_loop_name = acc
        e = Env(env, env.func)
        e.comp = True
        e.localnames = frozenset([n.as_loop_name]) | frozenset(t.id for g in n.generators for t in ast.walk(g.target) if isinstance(t, ast.Name))
        self.block(n.as_loop, e)
        return e.vars[n.as_loop_name]

    def ev_SetComp(self, n, env):
        return self.comp("set", n.generators, n.elt, env, n)

    def ev_DictComp(self, n, env):
        return self.comp("dict", n.generators, (n.key, n.value), env, n)

    def ev_GeneratorExp(self, n, env):
        return GenV(n, env, None)

    def comp(self, kind, gens, elt, env, node, as_truth=False):
        if len(gens) != 1:
            return self.comp_nested(kind, gens, elt, env, node)
        g = gens[0]
        if g.is_async:
            raise Unsupported("asynchronous comprehension")
        src = self.iter_source(self.ev(g.iter, env), node)

        def one(x):
            e = Env(env, env.func)
            e.comp = True
            e.localnames = frozenset(t.id for t in ast.walk(g.target) if isinstance(t, ast.Name))
            self.assign(g.target, x, e)
            for c in g.ifs:
                if not self.truthy(self.ev(c, e)):
                    return None
            if kind == "dict":
                return (self.ev(elt[0], e), self.ev(elt[1], e))
            v = self.ev(elt, e)
            if as_truth:
                t = self.truth(v)
                return Con(t) if isinstance(t, bool) else V(BOOL, t)
            return v
        return self.comprehend(kind, src, one, node, bool(g.ifs))

    def comp_nested(self, kind, gens, elt, env, node):
        """Unrollable outer generators only."""
        out = []

        def rec(i, e):
            if i == len(gens):
                out.append((self.ev(elt[0], e), self.ev(elt[1], e)) if kind == "dict" else self.ev(elt, e))
                return
            g = gens[i]
            src = self.iter_source(self.ev(g.iter, e), node)
            if src.items is None:
                raise Unsupported("nested comprehension over unknown collections")
            for x in src.items:
                e2 = Env(e, env.func)
                e2.comp = True
                self.assign(g.target, x, e2)
                if all(self.truthy(self.ev(c, e2)) for c in g.ifs):
                    rec(i + 1, e2)
        rec(0, env)
        return self.build(kind, out, node)

    def build(self, kind, out, node):
        if kind == "list":
            return self.new_list(out, self.site(node))
        if kind == "set":
            return self.new_set(out, self.site(node))
        d = self.new_dict(self.site(node))
        for k, v in out:
            self.set_item(d, k, v)
        return d

    def comprehend(self, kind, src, one, node, filtered):
        """The container of one(x) for every x of src (None: left out)."""
        if src.items is not None:
            out = []
            for x in src.items:
                v = one(x)
                if v is not None:
                    out.append(v)
            return self.build(kind, out, node)
        if kind == "list" and src.kind == "bag":
            src = self.as_seq(src)
        site = self.site(node)
        info = self.loops.setdefault(site + ("comp",), LoopInfo())
        i0 = self.fresh("ci", src.isort)
        birth0 = self.birth
        rng = src.in_range(i0)

        def run():
            self.assume(rng)
            al = self.harr("G:alloc")
            for key in sorted(info.heap):
                if key != "G:alloc":
                    self.loop_havoc(key, info.heap[key], al)
            self.mark_fresh = set(self.fresh_refs)
            x = src.get(i0)
            if isinstance(x, V):
                self.assume_class(x.z, x.t)
            v = one(x)
            # settle types inside, so that they are known after the restart
            return v
        paths = self.sub_explore(run)
        # effects on objects that existed before
        news = []
        for p in paths:
            fresh = {r.get_id() for r in p["fresh"]}
            for w in p["writes"]:
                if w[0] == "var":
                    continue
                _, key, r = w
                if key == "G:alloc":
                    continue
                if r is not None and not isinstance(r, str) and r.get_id() in fresh:
                    continue
                k = info.heap.get(key)
                if k is None:
                    k = info.heap[key] = dict(stable={}, fresh=False, any=False)
                    news.append(key)
                if key.startswith("G:") or key.startswith("V:"):
                    continue
                if isinstance(r, str) and r == "new":
                    if not k["fresh"]:
                        k["fresh"] = True
                        news.append(key)
                elif r is None or not self.old_term(r, birth0):
                    if not k["any"]:
                        k["any"] = True
                        news.append(key)
                elif r.sexpr() not in k["stable"]:
                    k["stable"][r.sexpr()] = r
                    news.append(key)
        if news:
            raise Restart("effects of a comprehension: %s" % news)
        excs = [p for p in paths if p["exc"] is not None]
        for p in excs:
            if self.choose():
                self.assume(rng)
                for f in p["pc"]:
                    self.assume(f)
                al = self.harr("G:alloc")
                for key in sorted(info.heap):
                    self.loop_havoc(key, info.heap[key], al)
                raise p["exc"]
        paths = [p for p in paths if p["exc"] is None]
        # element types
        if kind == "dict":
            kt, vt = self.site_type(site, 0), self.site_type(site, 1)
            for p in paths:
                if p["value"] is not None:
                    kt = self.comp_type(kt, p["value"][0])
                    vt = self.comp_type(vt, p["value"][1])
        else:
            et = self.site_type(site, 0)
            for p in paths:
                if p["value"] is not None:
                    et = self.comp_type(et, p["value"])
        if not any(p["value"] is not None for p in paths):
            return self.build(kind, [], node)
        # the state afterwards
        al = self.harr("G:alloc")
        for key in sorted(info.heap):
            self.loop_havoc(key, info.heap[key], al)
        base_heap = dict(self.heap)
        i = z3.Const("gi", src.isort)
        anyfresh = any(p["fresh"] for p in paths) or any(w[1] == "G:alloc" for p in paths for w in p["writes"] if w[0] == "heap")
        newheap = {}
        if anyfresh:
            keys = set()
            for p in paths:
                for w in p["writes"]:
                    if w[0] == "heap" and w[1] != "G:alloc" and w[1] not in info.heap:
                        keys.add(w[1])
                    elif w[0] == "heap" and w[1] in info.heap and w[2] is not None and not isinstance(w[2], str):
                        keys.add(w[1])
            x = z3.Const("lx", RefS)
            nal = self.fresh("comp_alloc", al.sort())
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(al, x), z3.Select(nal, x)), patterns=[z3.Select(al, x)]))
            self.heap["G:alloc"] = nal
            self.writes.append(("heap", "G:alloc", "new"))
            for key in sorted(keys):
                if key.startswith("G:") or key.startswith("V:"):
                    raise Unsupported("ghost update in a comprehension")
                a = self.heap_array(self.heap, key)
                n = self.fresh("comp_" + key, a.sort())
                self.assume(z3.ForAll([x], z3.Implies(z3.Select(al, x), z3.Select(n, x) == z3.Select(a, x)), patterns=[z3.Select(n, x)]))
                self.heap[key] = n
                newheap[key] = n
                self.writes.append(("heap", key, "new"))
                self.shadow.pop(key, None)
            self.shadow.pop("items", None)
        for key in info.heap:
            k = info.heap[key]
            if key.startswith("G:") or key.startswith("V:") or k["any"]:
                self.writes.append(("heap", key, None))
            else:
                for r in k["stable"].values():
                    self.writes.append(("heap", key, r))
        inv = tag = None
        if anyfresh:
            inv = z3.Function("inv!%d" % self.bump(), RefS, src.isort)
            tag = z3.Function("tag!%d" % self.bump(), RefS, z3.IntSort())
        # generalise every path
        conds = []
        ktag = 0
        for p in paths:
            sub = self.generaliser(p, i0, i, birth0, src)
            parts = [sub(f) for f in p["pc"]]
            val = p["value"]
            for r in p["fresh"]:
                gr = sub(r)
                ktag += 1
                parts += [z3.Select(self.heap["G:alloc"], gr), inv(gr) == i, tag(gr) == ktag, gr != null]
                for key, n in newheap.items():
                    if key in p["heap"]:
                        parts.append(z3.Select(n, gr) == sub(z3.simplify(z3.Select(p["heap"][key], r))))
            conds.append((parts, val, sub))
        if kind == "list":
            es = sort_of(et)
            if not filtered:
                r = self.alloc("list", List(et))
                arr = self.fresh("comp", z3.ArraySort(z3.IntSort(), es))
                body = z3.Or(*[z3.And(*(parts + [z3.Select(arr, i) == sub(self.to_term_in(p, val, et))])) for (parts, val, sub), p in zip(conds, paths)])
                trig = [z3.Select(arr, i)] + src.trig(i)
                self.assume(z3.ForAll([i], z3.Implies(src.in_range(i), body), patterns=trig))
                self.list_write(r, src.n(), arr)
                return r
            elt = z3.Function("elt!%d" % self.bump(), src.isort, es)
            inc = z3.Function("inc!%d" % self.bump(), src.isort, z3.BoolSort())
            p_ = z3.Function("from!%d" % self.bump(), z3.IntSort(), z3.IntSort())
            q_ = z3.Function("to!%d" % self.bump(), z3.IntSort(), z3.IntSort())
            body = z3.Or(*[z3.And(*(parts + ([inc(i), elt(i) == sub(self.to_term_in(p, val, et))] if val is not None else [z3.Not(inc(i))]))) for (parts, val, sub), p in zip(conds, paths)])
            self.assume(z3.ForAll([i], z3.Implies(src.in_range(i), body), patterns=[inc(i), elt(i)] + src.trig(i)))
            r = self.alloc("list", List(et))
            arr = self.fresh("comp", z3.ArraySort(z3.IntSort(), es))
            m = self.fresh("comp_n", z3.IntSort())
            k = z3.Int("gk")
            k2 = z3.Int("gk2")
            self.assume(z3.And(m >= 0, m <= src.n()))
            self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(src.in_range(p_(k)), inc(p_(k)), z3.Select(arr, k) == elt(p_(k)), q_(p_(k)) == k)), patterns=[z3.Select(arr, k), p_(k)]))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(src.in_range(i), inc(i)), z3.And(0 <= q_(i), q_(i) < m, p_(q_(i)) == i, z3.Select(arr, q_(i)) == elt(i))), patterns=[inc(i)]))
            self.assume(z3.ForAll([k, k2], z3.Implies(z3.And(0 <= k, k < k2, k2 < m), p_(k) < p_(k2)), patterns=[z3.MultiPattern(p_(k), p_(k2))]))
            self.list_write(r, m, arr)
            return r
        if kind == "set":
            es = sort_of(et)
            r = self.alloc("set", Set(et))
            S = self.fresh("comp_set", z3.ArraySort(es, z3.BoolSort()))
            w = z3.Function("wit!%d" % self.bump(), es, src.isort)
            elt = z3.Function("elt!%d" % self.bump(), src.isort, es)
            inc = z3.Function("inc!%d" % self.bump(), src.isort, z3.BoolSort())
            body = z3.Or(*[z3.And(*(parts + ([inc(i), elt(i) == sub(self.to_term_in(p, val, et)), z3.Select(S, elt(i))] if val is not None else [z3.Not(inc(i))]))) for (parts, val, sub), p in zip(conds, paths)])
            self.assume(z3.ForAll([i], z3.Implies(src.in_range(i), body), patterns=[elt(i), inc(i)] + src.trig(i)))
            y = z3.Const("gy", es)
            self.assume(z3.ForAll([y], z3.Implies(z3.Select(S, y), z3.And(src.in_range(w(y)), inc(w(y)), elt(w(y)) == y)), patterns=[z3.Select(S, y)]))
            self.set_write(r, S)
            return r
        ks, vs = sort_of(kt), sort_of(vt)
        r = self.alloc("dict", Dict(kt, vt))
        t = prune(r.t)
        dom = self.fresh("comp_dom", z3.ArraySort(ks, z3.BoolSort()))
        dval = self.fresh("comp_val", z3.ArraySort(ks, vs))
        w = z3.Function("wit!%d" % self.bump(), ks, src.isort)
        ek = z3.Function("ek!%d" % self.bump(), src.isort, ks)
        evf = z3.Function("ev!%d" % self.bump(), src.isort, vs)
        inc = z3.Function("inc!%d" % self.bump(), src.isort, z3.BoolSort())
        body = z3.Or(*[z3.And(*(parts + ([inc(i), ek(i) == sub(self.to_term_in(p, val[0], kt)), evf(i) == sub(self.to_term_in(p, val[1], vt)), z3.Select(dom, ek(i))] if val is not None else [z3.Not(inc(i))]))) for (parts, val, sub), p in zip(conds, paths)])
        self.assume(z3.ForAll([i], z3.Implies(src.in_range(i), body), patterns=[ek(i), inc(i)] + src.trig(i)))
        y = z3.Const("gy", ks)
        self.assume(z3.ForAll([y], z3.Implies(z3.Select(dom, y), z3.And(src.in_range(w(y)), inc(w(y)), ek(w(y)) == y, z3.Select(dval, y) == evf(w(y)))), patterns=[z3.Select(dom, y), z3.Select(dval, y)]))
        if src.kind == "seq":
            self.assume(z3.ForAll([i], z3.Implies(z3.And(src.in_range(i), inc(i)), i <= w(ek(i))), patterns=[ek(i)]))
        kd, kv = self.dict_keys_(t)
        self.hwrite(kd, t, r.z, dom)
        self.hwrite(kv, t, r.z, dval)
        return r

    def bump(self):
        n = self.counter.get("fn", 0)
        self.counter["fn"] = n + 1
        return n

    def comp_type(self, t, v):
        xt = self.type_of(v)
        if isinstance(xt, Type) and xt.kind == "ref":
            xt = Ref(xt.args[0])
        if isinstance(t, TVar):
            self.bind(t, xt)
        j = self.join_type(t, xt)
        return j if not isinstance(t, TVar) else t

    def to_term_in(self, path, v, t):
        """Term of a value that was computed in a sub-exploration (no case split allowed here)."""
        heap, self.heap = self.heap, dict(path["heap"])
        n = len(self.decisions)
        try:
            z = self.to_term(v, t)
        finally:
            self.heap = heap
        return z

    def generaliser(self, p, i0, i, birth0, src):
        """Substitution that replaces the element index by a variable and every constant introduced
        for it by a function of the index."""
        consts = {}

        def collect(t):
            todo = [t]
            seen = set()
            while todo:
                u = todo.pop()
                if u.get_id() in seen:
                    continue
                seen.add(u.get_id())
                if z3.is_quantifier(u):
                    todo.append(u.body())
                    continue
                if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    b = self.const_birth.get(u.get_id())
                    if b is not None and b[0] > birth0 and u.get_id() not in consts:
                        f = z3.Function("sk_" + u.decl().name(), src.isort, u.sort())
                        consts[u.get_id()] = (u, f)
                todo.extend(u.children())

        def sub(t):
            collect(t)
            pairs = [(i0, i)] + [(u, f(i)) for u, f in consts.values()]
            return z3.substitute(t, *pairs)
        return sub

    # ------------------------------------------------------------ conversions
    def to_list(self, v, node, as_truth=False):
        """list(v)"""
        v = self.force(v)
        if isinstance(v, GenV):
            return self.comp("list", v.node.generators, v.node.elt, v.env, v.node, as_truth)
        if isinstance(v, ViewV) and v.kind == "map":
            src = self.iter_source(v.args[1], node)
            return self.comprehend("list", src, lambda x: self.call(v.args[0], [x], {}, node), node, False)
        if isinstance(v, ViewV) and v.kind == "filter":
            src = self.iter_source(v.args[1], node)
            f = v.args[0]

            def one(x):
                ok = self.truthy(x if isinstance(f, Con) and f.v is None else self.call(f, [x], {}, node))
                return x if ok else None
            return self.comprehend("list", src, one, node, True)
        src = self.iter_source(v, node)
        if src.items is not None:
            return self.new_list(src.items, self.site(node) if node is not None else ("tolist",))
        if src.kind == "seq" and src.coll is not None and self.is_list(src.coll) and self.is_list(v):
            t = prune(v.t)
            r = self.alloc("list", List(t.args[0]))
            self.list_write(r, self.list_len(v), self.list_arr(v))
            return r
        return self.comprehend("list", src, lambda x: x, node, False)

    def to_set(self, v, node):
        v = self.force(v)
        if isinstance(v, GenV):
            return self.comp("set", v.node.generators, v.node.elt, v.env, v.node)
        if self.is_set(v):
            t = prune(v.t)
            r = self.alloc("set", Set(v.t.args[0]))
            if not isinstance(prune(t.args[0]), TVar):
                self.set_write(r, self.set_content(v))
            return r
        if isinstance(v, ViewV) and v.kind == "map":
            src = self.iter_source(v.args[1], node)
            return self.comprehend("set", src, lambda x: self.call(v.args[0], [x], {}, node), node, False)
        src = self.iter_source(v, node)
        if src.items is not None:
            return self.new_set(src.items, self.site(node) if node is not None else ("toset",))
        if src.kind == "bag" and (self.is_dict(v) or isinstance(v, ViewV) and v.kind == "keys"):
            r = self.alloc("set", Set(src.elem))
            self.set_write(r, src.cur())
            return r
        return self.comprehend("set", src, lambda x: x, node, False)

    def list_concat(self, a, b, node):
        ta, tb = prune(prune(a.t).args[0]), prune(prune(b.t).args[0])
        if isinstance(ta, TVar) and isinstance(tb, TVar):
            r = self.alloc("list", List(self.site_type(self.site(node), 0)))
            self.list_write(r, self.list_len(a) + self.list_len(b), None)
            return r
        if isinstance(ta, TVar):
            if self.const_int(self.list_len(a)) == 0:
                r = self.alloc("list", List(tb))
                self.list_write(r, self.list_len(b), self.list_arr(b))
                return r
            self.unify(ta, tb)
            ta = tb
        elif isinstance(tb, TVar):
            if self.const_int(self.list_len(b)) == 0:
                r = self.alloc("list", List(ta))
                self.list_write(r, self.list_len(a), self.list_arr(a))
                return r
            self.unify(tb, ta)
            tb = ta
        if tkey(ta) != tkey(tb):
            j = self.join_type(ta, tb)
            raise Unsupported("concatenation of lists of %r and %r" % (ta, tb))
        et = ta if ta == tb else self.join_type(ta, tb)
        r = self.alloc("list", List(et))
        la, lb = self.list_len(a), self.list_len(b)
        arr = self.concat_arr(self.list_arr(a), la, self.list_arr(b), lb, et)
        self.list_write(r, z3.simplify(la + lb), arr)
        return r

    def concat_arr(self, aa, la, ba, lb, et):
        n = self.const_int(lb)
        if n is not None and n <= 12:
            for k in range(n):
                aa = z3.Store(aa, z3.simplify(la + k), z3.simplify(z3.Select(ba, z3.IntVal(k))))
            return aa
        arr = self.fresh("cat", z3.ArraySort(z3.IntSort(), sort_of(et)))
        j = z3.Int("ctj")
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < la), z3.Select(arr, j) == z3.Select(aa, j)), patterns=[z3.Select(arr, j), z3.Select(aa, j)]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(la <= j, j < la + lb), z3.Select(arr, j) == z3.Select(ba, j - la)), patterns=[z3.Select(arr, j)]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lb), z3.Select(arr, la + j) == z3.Select(ba, j)), patterns=[z3.Select(ba, j)]))
        n = self.const_int(la)
        if n is not None and n <= 12:
            for k in range(n):
                self.assume(z3.Select(arr, z3.IntVal(k)) == z3.Select(aa, z3.IntVal(k)))
        return arr

    def list_repeat(self, l, item, k, node):
        t = prune(prune(l.t).args[0])
        r = self.alloc("list", List(t))
        z = self.to_term(item, t)
        self.list_write(r, z3.If(k > 0, k, z3.IntVal(0)), z3.K(z3.IntSort(), z))
        return r

    def list_extend(self, l, v):
        v = self.force(v)
        if not self.is_list(v):
            v = self.to_list(v, self.cur_node)
        tb = prune(prune(v.t).args[0])
        if isinstance(tb, TVar):
            return
        items = self.list_items(v)
        if items is not None:
            for x in items:
                self.list_append(l, x)
            return
        tv = l.t.args[0] if isinstance(l.t, Type) else None
        if isinstance(prune(prune(l.t).args[0]), TVar):
            self.unify(l.t.args[0], tb)
        ta = prune(prune(l.t).args[0])
        if tkey(ta) != tkey(tb):
            raise Unsupported("extending a list of %r by %r" % (ta, tb))
        la, lb = self.list_len(l), self.list_len(v)
        arr = self.concat_arr(self.list_arr(l), la, self.list_arr(v), lb, ta)
        self.list_write(l, z3.simplify(la + lb), arr)

    def list_append(self, l, x):
        hook = getattr(self.spec, "on_append", None)
        if hook:
            hook(self, l, x)
        self.learn_elem(l, 0, x)
        t = prune(prune(l.t).args[0])
        n = self.list_len(l)
        self.list_write(l, z3.simplify(n + 1), z3.Store(self.list_arr(l), n, self.to_term(x, t)))

    def set_op(self, op, a, b, node):
        ta, tb = prune(prune(a.t).args[0]), prune(prune(b.t).args[0])
        if isinstance(ta, TVar) and isinstance(tb, TVar):
            return self.alloc("set", Set(ta))
        et = tb if isinstance(ta, TVar) else ta
        r = self.alloc("set", Set(et))
        E0 = z3.EmptySet(sort_of(et))
        x = E0 if isinstance(ta, TVar) else self.set_content(a)
        y = E0 if isinstance(tb, TVar) else self.set_content(b)
        f = {"union": z3.SetUnion, "difference": z3.SetDifference, "intersection": z3.SetIntersect}[op]
        self.set_write(r, f(x, y))
        return r

    def dict_update(self, d, o):
        o = self.force(o)
        if isinstance(o, KwV):
            for k, v in o.d.items():
                self.set_item(d, Con(k), v)
            return
        if not self.is_dict(o):
            raise Unsupported("update by %r" % (o,))
        to = prune(o.t)
        if isinstance(prune(to.args[0]), TVar):
            return
        self.unify(d.t, to)
        t = prune(d.t)
        if tkey(t) != tkey(to) and (tkey(t.args[0]) != tkey(to.args[0]) or tkey(t.args[1]) != tkey(to.args[1])):
            raise Unsupported("update of %r by %r" % (t, to))
        kd, kv = self.dict_keys_(t)
        dom0, val0 = self.dict_dom(d), self.dict_val(d)
        dom1, val1 = self.dict_dom(o), self.dict_val(o)
        nd = z3.SetUnion(dom0, dom1)
        nv = self.fresh("upd", val0.sort())
        x = z3.Const("ux", val0.sort().domain())
        self.assume(z3.ForAll([x], z3.Select(nv, x) == z3.If(z3.Select(dom1, x), z3.Select(val1, x), z3.Select(val0, x)), patterns=[z3.Select(nv, x)]))
        self.hwrite(kd, t, d.z, nd)
        self.hwrite(kv, t, d.z, nv)
