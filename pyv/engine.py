"""Symbolic interpreter for the Python subset licant is written in, and generator of proof
obligations from the contracts in /verif/specs.

The interpreter runs the syntax trees of the current working tree.  Every path through a function
is explored (branches fork, by re-execution with a decision prefix), calls of functions with a
contract use the contract only, calls of licant functions without one are interpreted in place,
loops over symbolic data are cut by inductive invariants, everything outside licant must have a
model in models.py.  What cannot be interpreted becomes an obligation that the path is impossible,
so an unsupported construct can only make a proof fail.
"""
import ast
import os
import select
import signal
import time
import z3

from .vals import *
from . import load


class PyRaise(Exception):
    """A Python exception of the interpreted program."""

    def __init__(self, exc, value=None, where=None):
        Exception.__init__(self, exc)
        self.exc = exc
        self.value = value
        self.where = where


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class PathEnd(Exception):
    """The rest of this path is covered by another path or impossible."""


class Restart(Exception):
    """Something about loops or types was learned: explore the function again."""


class Unsupported(Exception):
    pass


EXC_BASES = {
    "BaseException": None, "Exception": "BaseException", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "GeneratorExit": "BaseException", "CancelledError": "BaseException",
    "LookupError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError", "TypeError": "Exception",
    "ValueError": "Exception", "AttributeError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "AssertionError": "Exception", "RuntimeError": "Exception", "OSError": "Exception", "IOError": "OSError",
    "FileExistsError": "OSError", "FileNotFoundError": "OSError", "StopIteration": "Exception", "UnicodeDecodeError": "ValueError",
    "RecursionError": "RuntimeError", "AnyException": "Exception", "json.JSONDecodeError": "ValueError",
}


class Env:
    def __init__(self, parent=None, func=None):
        self.vars = {}
        self.parent = parent
        self.func = func
        self.nonlocals = set()
        self.globals = set()
        self.localnames = frozenset()


_locals_cache = {}


def local_names(node):
    """Names bound in a function body (not descending into nested functions)."""
    if node in _locals_cache:
        return _locals_cache[node]
    names = set()
    declared = set()

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            declared.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for st in node.body:
            visit(st)
    args = node.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        names.add(a.arg)
    for a in (args.vararg, args.kwarg):
        if a:
            names.add(a.arg)
    r = frozenset(names - declared)
    _locals_cache[node] = r
    return r


class HeapView:
    """Read-only view of a heap for contracts and invariants."""

    def __init__(self, eng, heap):
        self.eng = eng
        self.h = dict(heap)

    def get(self, key, sort=None):
        return self.eng.heap_array(self.h, key)

    def fld(self, cls, attr, r):
        key, t = self.eng.field_key(cls, attr)
        return self.eng.rd(self.eng.heap_array(self.h, key, t), r)

    def setc(self, r, elem):
        return self.eng.rd(self.eng.heap_array(self.h, "S:" + tkey(elem), Set(elem)), r)

    def llen(self, r):
        return self.eng.rd(self.eng.heap_array(self.h, "L:len"), r)

    def larr(self, r, elem):
        return self.eng.rd(self.eng.heap_array(self.h, "L:arr:" + tkey(elem), List(elem)), r)

    def ddom(self, r, k, v):
        return self.eng.rd(self.eng.heap_array(self.h, "D:dom:" + tkey(k) + ":" + tkey(v), Dict(k, v)), r)

    def dval(self, r, k, v):
        return self.eng.rd(self.eng.heap_array(self.h, "D:val:" + tkey(k) + ":" + tkey(v), Dict(k, v)), r)

    def ghost(self, name):
        return self.h.get("G:" + name, self.eng.ghost_init(name))

    def glob(self, mod, name):
        """value of a global variable of a module of licant (declared in the specification)"""
        t = self.eng.spec.globals["%s:%s" % (mod, name)]
        if name in self.eng.prog.modules[mod].assigned_global:
            return self.eng.heap_array(self.h, "V:%s.%s" % (mod, name), t)
        return z3.Const("glob:%s.%s" % (mod, name), sort_of(t))

    def alloc(self, r):
        return z3.Select(self.eng.heap_array(self.h, "G:alloc"), r)


class CallCtx:
    """What a contract sees: arguments, old and new heap, result."""

    def __init__(self, eng, args, old, new=None, res=None, exc=None):
        self.eng = eng
        self.args = args
        self.old = old
        self.new = new if new is not None else old
        self.res = res
        self.exc = exc
        self.types = {}

    def a(self, n):
        return self.args[n]

    def t(self, n, typ=None):
        v = self.args[n]
        if typ is None:
            if isinstance(v, V):
                return v.z
            pt = getattr(self, "types", {}).get(n)
            if pt is not None and isinstance(pt, Type):
                return self.eng.to_term(v, pt)
            raise Unsupported("argument %s has no term: %r" % (n, v))
        return self.eng.to_term(v, typ)

    def rt(self, typ=None):
        if typ is None and isinstance(self.res, V):
            return self.res.z
        return self.eng.to_term(self.res, typ)


class Contract:
    def __init__(self, key, params=None, ret=None, requires=None, ensures=None, modifies=None, raises=(), setup=None,
                 ghost_exit=None, optional=False, assumed=False, apply=None, kwargs=None, doc="", inline_recursion=False,
                 check_only=False, pre_call=None):
        self.key = key
        self.params = params or {}
        self.ret = ret
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = modifies or (lambda c: [])
        self.raises = list(raises)      # (exc name, when(c) -> formula or None)
        self.setup = setup              # setup(eng, args): extra assumptions when verifying the body
        self.ghost_exit = ghost_exit    # ghost_exit(eng, c): ghost updates at normal return of the body
        self.optional = optional        # a helper that may disappear from the source
        self.assumed = assumed          # never verified: trusted
        self.apply = apply
        self.doc = doc
        self.check_only = check_only    # verified, but calls are interpreted in place
        self.pre_call = pre_call


class LoopInfo:
    def __init__(self):
        self.locals = {}      # cell key -> set of types seen at iteration end
        self.heap = {}        # heap key -> dict(kind)   kinds: set of ('stable', i) / 'fresh' / 'unstable'
        self.dropped = set()
        self.elemtypes = {}


class LoopCtx:
    """What an invariant sees."""

    def __init__(self, eng, env, entry_env, entry_heap, heap, node, kind):
        self.eng = eng
        self.env = env
        self.entry = entry_env
        self.old = eng.fn_old
        self.at_entry = HeapView(eng, entry_heap)
        self.h = HeapView(eng, heap)
        self.node = node
        self.kind = kind
        self.done = None      # done(x) -> formula
        self.idx = None
        self.coll = None      # the iterated value
        self.elem = None      # element type
        self.inlist = None
        self.now = None

    def locals(self, pred=None):
        """(name, value) of all locals of the function and its enclosing functions, innermost first."""
        e = self.env
        seen = set()
        while e is not None:
            for n, v in e.vars.items():
                if n not in seen:
                    seen.add(n)
                    if pred is None or pred(v):
                        yield n, v
            e = e.parent

    def of_type(self, *kinds):
        for n, v in self.locals():
            if isinstance(v, V) and prune(v.t).kind in kinds:
                yield n, v

    def arg(self, n):
        return self.eng.fn_args[n]


def bound_names(f):
    out, todo, seen = set(), [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            out.update(t.var_name(i) for i in range(t.num_vars()))
            todo.append(t.body())
        else:
            todo.extend(t.children())
    return out


class Engine:
    MAX_PATHS = 4000
    MAX_DEPTH = 40

    def __init__(self, program, spec):
        self.prog = program
        self.spec = spec               # object with schema, contracts, globals, models, invariants, ...
        self.obligs = []               # dict(name, ok, detail, time)
        self.loops = {}
        self.site_types = {}
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.feas_cache = {}
        self.solver_time = 0.0
        self.n_checks = 0
        self.rlimit = getattr(spec, "rlimit", 40000000)
        self.func_ids = {}
        self.fn_registry = {}
        self.fails_fast = False
        self.nested_funcs = {}
        self.ext_cache = {}
        self.static_axioms = list(getattr(spec, "axioms", []) or [])
        self.backends = {"z3": 0, "cvc5": 0}
        self.phase = 2
        self.q_cache = {}
        self.restart_log = []
        self.verifying = None
        self.cur_node = None

    # ------------------------------------------------------------ exploration
    def explore(self, run, label):
        """Explore every path of run().  Returns the number of complete paths."""
        restarts = 0
        self.phase = 0
        while True:
            try:
                n = self.explore_once(run, label)
                if self.phase == 2:
                    return n
                # 0: learn types and effects, 1: drop loop invariants that do not hold, 2: prove
                self.phase += 1
            except Restart as r:
                restarts += 1
                self.restart_log.append(str(r))
                self.drop_obligs(label)
                if restarts > 300:
                    self.phase = 2
                    raise Unsupported("loop analysis does not converge: %s" % r)

    def drop_obligs(self, label):
        self.obligs = [o for o in self.obligs if o["unit"] != label]

    def explore_once(self, run, label):
        self.label = label
        stack = [[]]
        npaths = 0
        self.ends = []
        while stack:
            prefix = stack.pop()
            npaths += 1
            if npaths > self.MAX_PATHS:
                raise Unsupported("more than %d paths" % self.MAX_PATHS)
            self.start_path(prefix)
            kind = "end"
            try:
                run()
            except PathEnd:
                kind = "cut"
            except Unsupported as u:
                kind = "unsupported"
                self.must_be_impossible("supported:%s" % u, "outside the verified subset: %s" % u)
            self.ends.append((kind, list(self.trace)))
            for i in range(len(self.decisions) - 1, len(prefix) - 1, -1):
                if self.decisions[i][1]:
                    stack.append([d for d, _ in self.decisions[:i]] + [not self.decisions[i][0]])
        return npaths

    def start_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.light = z3.Solver()
        self.light.set("rlimit", 2000000)
        self.heap = {}
        self.counter = {}
        self.shadow = {}
        self.fresh_refs = {}
        self.frames = {}
        self.stable_mark = 0
        self.writes = []
        self.trace = []
        self.call_stack = []
        self.depth = 0
        self.fn_args = {}
        self.fn_old = None
        self.kwv_heap = {}
        self.default_objs = {}
        self.ext_state = {}
        self.const_birth = {}
        self.birth = 0
        self.in_generic = 0

    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def fresh(self, name, sort):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        self.birth += 1
        c = z3.Const("%s!%d" % (name, n), sort)
        self.const_birth[c.get_id()] = (self.birth, c)
        return c

    def freshv(self, name, t):
        t = prune(t)
        if t.kind == "none":
            return Con(None)
        if t.kind == "tup":
            return Tup([self.freshv(name + "_%d" % i, a) for i, a in enumerate(t.args)])
        v = V(t, self.fresh(name, sort_of(t)))
        self.assume_wf(v)
        return v

    def assume_wf(self, v):
        """A value of reference type is allocated (or null if optional)."""
        if isinstance(v, V):
            t = prune(v.t)
            if is_reflike(t):
                self.assume(z3.And(self.alloc_of(v.z), v.z != null))
                if t.kind == "list":
                    self.assume(z3.Select(self.harr("L:len"), v.z) >= 0)
            elif t.kind == "opt" and is_reflike(t.args[0]):
                self.assume(z3.Or(v.z == null, self.alloc_of(v.z)))

    def alloc_of(self, z):
        return z3.Select(self.harr("G:alloc"), z)

    def assume(self, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        if z3.is_true(f):
            return
        self.pc.append(f)
        if not has_quant(f):
            self.light.add(f)

    def branch(self, cond, hint=None):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append((d, False))
            self.assume(cond if d else z3.Not(cond))
            return d
        t_ok = self.light_sat(cond)
        f_ok = self.light_sat(z3.Not(cond))
        if t_ok and f_ok:
            self.decisions.append((True, True))
            self.assume(cond)
            return True
        d = bool(t_ok)
        self.decisions.append((d, False))
        self.assume(cond if d else z3.Not(cond))
        return d

    def light_sat(self, f):
        t0 = time.time()
        self.light.push()
        self.light.add(f)
        r = self.light.check()
        self.light.pop()
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def choose(self):
        """A nondeterministic choice, both ways explored."""
        return self.branch(self.fresh("choice", z3.BoolSort()))

    # ------------------------------------------------------------ obligations
    def full_unsat(self, extra, limit=None):
        """Is pc and extra unsatisfiable?  Returns 'unsat', 'sat' or 'unknown', and a detail."""
        t0 = time.time()
        ck = (tuple(a.get_id() for a in self.pc), tuple(a.get_id() for a in extra), limit)
        hit = self.q_cache.get(ck)
        if hit is not None:
            return hit[0]
        fs = base_axioms() + self.static_axioms + self.pc + list(extra)
        quant = any(has_quant(f) for f in fs)
        full = limit or self.rlimit
        quick = [dict(simple=True, mbqi=False, rl=1500000), dict(simple=True, mbqi=False, rel=0, rl=1000000), dict(simple=True, mbqi=False, arith=2, rl=1000000), dict(rl=500000), dict(simple=True, rl=500000),
                 dict(mbqi=False, rel=0, rl=500000), dict(arith=2, rl=500000), dict(simple=True, eager=100.0, rl=500000)]
        if not quant:
            plan = [dict(rl=full // 4), dict(seed=7, rl=full)]
        elif limit:
            plan = quick + [dict(simple=True, mbqi=False, rl=limit)]
        else:
            plan = quick + [dict(simple=True, mbqi=False, rl=full // 8), dict(simple=True, mbqi=False, rel=0, rl=full // 8), dict(mbqi=False, rl=full // 20), dict(simple=True, rl=full // 10),
                            dict(rl=full // 10), dict(simple=True, mbqi=False, arith=2, seed=7, rl=full // 4), dict(simple=True, mbqi=False, rel=0, seed=5, rl=full // 4),
                            dict(simple=True, seed=3, rl=full // 8), dict(mbqi=False, seed=11, rl=full // 4), dict(simple=True, mbqi=False, seed=23, rl=full // 3), dict(seed=5, rl=full // 4)]
        detail = ""
        arrays = any(has_quant(f, arrays=True) for f in fs)
        nq = sum(1 for f in fs if has_quant(f))
        if quant and nq > 25:
            # large contexts: first with the assumptions that seem relevant
            plan = [dict(simple=True, mbqi=False, sine=(1.5, 2), rl=600000), dict(simple=True, mbqi=False, sine=(3.0, 3), rl=800000), plan[0], dict(simple=True, mbqi=False, rel=0, sine=(2.0, 3), rl=800000),
                    dict(simple=True, mbqi=False, sine=(6.0, 4), rl=1000000)] + plan[1:]
        for st in plan:
            if quant:
                r, detail = guarded(lambda: self.one_check(fs, st, arrays, len(extra)), 60)
            else:
                r, detail = self.one_check(fs, st, arrays)
            self.n_checks += 1
            if r != "unknown":
                break
        if (r != "unsat" or os.environ.get("PYV_DUMPALL")) and os.environ.get("PYV_DUMP"):
            Engine.dumps = getattr(Engine, "dumps", 0) + 1
            with open("%s/%d_%03d.smt2" % (os.environ["PYV_DUMP"], os.getpid(), Engine.dumps), "w") as f:
                s = z3.SimpleSolver()
                s.add(fs)
                f.write(s.to_smt2().replace("\\", "/"))
        self.solver_time += time.time() - t0
        self.q_cache[ck] = ((r, detail), list(self.pc), list(extra))
        return r, detail

    def one_check(self, fs, st, arrays, goals=0):
        if "sine" in st:
            fs = relevant(fs, goals, *st["sine"])
        s = z3.SimpleSolver() if st.get("simple") else z3.Solver()
        s.set("rlimit", st["rl"])
        s.set("timeout", 100000)
        if not st.get("mbqi", True):
            s.set("auto_config", False)
            s.set("smt.mbqi", False)
        if "arith" in st:
            s.set("smt.arith.solver", st["arith"])
        if "eager" in st:
            s.set("smt.qi.eager_threshold", st["eager"])
        if "rel" in st:
            s.set("smt.relevancy", st["rel"])
        if "seed" in st:
            s.set("smt.random_seed", st["seed"])
        # z3's model-based instantiation is not sound for quantified variables of array sort: do without such assumptions there
        weaker = arrays and st.get("mbqi", True)
        s.add([f for f in fs if not has_quant(f, arrays=True)] if weaker else fs)
        r = s.check()
        if r == z3.unsat:
            return "unsat", ""
        if r == z3.sat and not weaker and "sine" not in st:
            return "sat", self.model_text(s.model())
        return "unknown", "unknown: " + s.reason_unknown()

    def model_text(self, m):
        out = []
        for d in m.decls():
            if d.arity() == 0 and not str(d).startswith("str:"):
                out.append("%s = %s" % (d, str(m[d]).replace("\n", " ")[:120]))
        return "; ".join(sorted(out)[:60])

    def prove(self, f, name, detail="", assume_after=True, using=None):
        """Record the obligation that f holds here.
        using: prove it from the assumptions without quantifiers and those that quantify over variables with these prefixes only"""
        if using is not None:
            pc = self.pc
            self.pc = [p for p in pc if not has_quant(p) or any(v.startswith(tuple(using)) for v in bound_names(p))]
            try:
                return self.prove(f, name, detail, False)
            finally:
                self.pc = pc
                if assume_after:
                    self.assume(f if not isinstance(f, bool) else z3.BoolVal(f))
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        full = name
        if (not self.replaying() or self.in_generic) and self.phase == 2:
            t0 = time.time()
            if z3.is_true(z3.simplify(f)):
                r, d = "unsat", ""
            else:
                r, d = self.full_unsat([z3.Not(f)])
            ok = r == "unsat"
            self.obligs.append(dict(unit=self.label, name=full, ok=ok, result=r, detail=detail if ok else (detail + " | " + d), time=time.time() - t0, where=self.where(),
                                    trace=None if ok else list(self.trace)[-40:]))
            self.backends["z3"] += 1
            if os.environ.get("PYV_PROGRESS"):
                print("   %.1f %s %s %s" % (time.time() - t0, r, full, self.where()[-60:]), flush=True)
        if assume_after:
            self.assume(f)

    def proving(self):
        """Are obligations decided here (not in a preliminary pass)?"""
        return (not self.replaying() or self.in_generic) and self.phase == 2

    def valid(self, f, limit=None):
        if z3.is_true(z3.simplify(f)):
            return True
        r, _ = self.full_unsat([z3.Not(f)], limit=limit) if limit else self.full_unsat([z3.Not(f)])
        return r == "unsat"

    def must_be_impossible(self, name, detail):
        if self.phase < 2:
            return
        r, d = self.full_unsat([])
        if r == "unsat":
            return
        self.obligs.append(dict(unit=self.label, name=name, ok=False, result=r, detail=detail + " | " + d, time=0.0, where=self.where(), trace=list(self.trace)[-40:]))

    def where(self):
        return "/".join(self.call_stack)

    # ------------------------------------------------------------ heap
    def key_sort(self, key, t=None):
        if key == "L:len":
            return z3.ArraySort(RefS, z3.IntSort())
        if key == "G:alloc":
            return z3.ArraySort(RefS, z3.BoolSort())
        t = prune(t) if t is not None else None
        if key.startswith("L:arr:"):
            return z3.ArraySort(RefS, z3.ArraySort(z3.IntSort(), sort_of(t.args[0])))
        if key.startswith("S:"):
            return z3.ArraySort(RefS, z3.ArraySort(sort_of(t.args[0]), z3.BoolSort()))
        if key.startswith("D:dom:"):
            return z3.ArraySort(RefS, z3.ArraySort(sort_of(t.args[0]), z3.BoolSort()))
        if key.startswith("D:val:"):
            return z3.ArraySort(RefS, z3.ArraySort(sort_of(t.args[0]), sort_of(t.args[1])))
        if key.startswith("f:"):
            return z3.ArraySort(RefS, sort_of(t))
        if key.startswith("V:"):
            return sort_of(t)
        raise Unsupported("heap key " + key)

    _sorts = {}

    def heap_array(self, heap, key, t=None):
        if key not in heap:
            if key.startswith("G:") and key != "G:alloc":
                return self.ghost_init(key[2:])
            if key in self._sorts:
                s = self._sorts[key]
            else:
                s = self.key_sort(key, t)
                self._sorts[key] = s
            heap[key] = z3.Const(key + "@0", s)
            self.const_birth.setdefault(heap[key].get_id(), (0, heap[key]))
        return heap[key]

    def harr(self, key, t=None):
        return self.heap_array(self.heap, key, t)

    def ghost_init(self, name):
        s = self.spec.ghosts[name]
        return z3.Const("G:" + name + "@0", s)

    def ghost(self, name):
        k = "G:" + name
        if k not in self.heap:
            self.heap[k] = self.ghost_init(name)
        return self.heap[k]

    def set_ghost(self, name, term):
        self.writes.append(("heap", "G:" + name, None))
        self.heap["G:" + name] = term

    def rd(self, a, r):
        """The value of an array of the heap at r, without what was certainly stored elsewhere."""
        if not getattr(self.spec, "reduce_reads", False):
            return z3.Select(a, r)
        rid = r.get_id()
        while True:
            if z3.is_app_of(a, z3.Z3_OP_STORE):
                i = a.arg(1)
                if i.eq(r):
                    return a.arg(2)
                if not self.apart(i, r):
                    break
                a = a.arg(0)
                continue
            fr = self.frames.get(a.get_id())
            if fr is not None and self.known_before(r, fr[1]):
                a = fr[0]
                continue
            break
        return z3.Select(a, r)

    def is_argument(self, r):
        return any(isinstance(v, V) and v.z.eq(r) for v in (self.fn_args or {}).values())

    def known_before(self, r, birth):
        """Was r certainly allocated at that time?"""
        if r.get_id() in self.fresh_refs:
            return self.const_birth[r.get_id()][0] <= birth
        return self.is_argument(r)

    def apart(self, a, b):
        """Are two references certainly different: new objects differ from each other and from the arguments."""
        fa, fb = a.get_id() in self.fresh_refs, b.get_id() in self.fresh_refs
        return not a.eq(b) and (fa and fb or fa and self.is_argument(b) or fb and self.is_argument(a))

    def hread(self, key, t, r):
        return self.rd(self.harr(key, t), r)

    def hwrite(self, key, t, r, term, value=None):
        a = self.harr(key, t)
        self.heap[key] = z3.Store(a, r, term)
        self.writes.append(("heap", key, r))
        # shadow values: only refs that certainly differ from r keep theirs
        sh = self.shadow.setdefault(key, {})
        rid = r.get_id()
        if rid in self.fresh_refs:
            for k in list(sh):
                if k not in self.fresh_refs and k != rid:
                    # an older ref cannot be the fresh one if it was born before it
                    pass
        else:
            born = self.const_birth.get(rid, (None,))[0]
            for k in list(sh):
                if k in self.fresh_refs and born is not None and self.const_birth[k][0] > born:
                    continue
                if k != rid:
                    del sh[k]
        if value is not None:
            sh[rid] = (value, r)
        elif rid in sh:
            del sh[rid]

    def alloc(self, name, t):
        r = self.fresh("new_" + name, RefS)
        al = self.harr("G:alloc")
        self.assume(z3.And(z3.Not(z3.Select(al, r)), r != null))
        self.heap["G:alloc"] = z3.Store(al, r, z3.BoolVal(True))
        self.writes.append(("heap", "G:alloc", r))
        # distinct from all other fresh refs: follows from alloc; stated directly for the light solver
        for k, o in self.fresh_refs.items():
            self.light.add(o != r)
        self.fresh_refs[r.get_id()] = r
        return V(t, r)

    # classes and fields
    def mro(self, cls):
        """Names of a class and its bases, as far as they are licant's."""
        out = []
        c = self.prog.classes.get(cls)
        todo = [cls]
        seen = set()
        while todo:
            n = todo.pop(0)
            if n in seen:
                continue
            seen.add(n)
            out.append(n)
            c = self.prog.classes.get(n)
            if c is None:
                continue
            for b in c.bases:
                bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
                if bn:
                    todo.append(bn)
        return out

    def subclasses(self, cls):
        return [n for n in self.prog.classes if cls in self.mro(n)]

    def field_decl(self, cls, attr):
        for c in self.mro(cls):
            d = self.spec.schema.get(c)
            if d and attr in d:
                return c, d[attr]
        return None

    def field_key(self, cls, attr):
        d = self.field_decl(cls, attr)
        if d is None:
            raise Unsupported("no field %s.%s in the schema" % (cls, attr))
        return "f:%s.%s" % (d[0], attr), d[1]

    def find_method(self, cls, name):
        for c in self.mro(cls):
            k = self.prog.classes.get(c)
            if k and name in k.methods:
                return k.methods[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            k = self.prog.classes.get(c)
            if k and name in k.attrs:
                return k, k.attrs[name]
        return None

    # ------------------------------------------------------------ terms
    def to_term(self, v, t):
        t = prune(t)
        if isinstance(v, MaybeUnbound):
            v = v.value
        if isinstance(t, TVar):
            raise Unsupported("value of unknown type")
        k = t.kind
        if k == "opt":
            inner = t.args[0]
            if isinstance(v, Con) and v.v is None:
                return null if is_reflike(inner) else opt_dt(inner)[1]
            if isinstance(v, V) and prune(v.t) == t:
                return v.z
            if isinstance(v, V) and prune(v.t).kind == "opt":
                v = self.force(v)
                return self.to_term(v, t)
            x = self.to_term(v, inner)
            return x if is_reflike(inner) else opt_dt(inner)[2](x)
        if k == "any":
            return self.to_any(v)
        if k == "tup":
            if isinstance(v, V) and prune(v.t).kind == "tup":
                return v.z
            if isinstance(v, Con) and isinstance(v.v, tuple):
                v = Tup([Con(x) for x in v.v])
            if isinstance(v, Tup) and len(v.items) == len(t.args):
                return tup_dt(t)[1](*[self.to_term(x, a) for x, a in zip(v.items, t.args)])
            raise Unsupported("not a tuple of %r: %r" % (t, v))
        if isinstance(v, Con):
            c = v.v
            if k == "str" and isinstance(c, str):
                return str_lit(c)
            if k == "sstr" and isinstance(c, str):
                return z3.StringVal(c)
            if k == "bool" and isinstance(c, bool):
                return z3.BoolVal(c)
            if k == "int" and isinstance(c, (int, bool)):
                return z3.IntVal(int(c))
            if k == "real" and isinstance(c, (int, float)):
                return z3.RealVal(c)
            if k == "ref" and c is None:
                raise Unsupported("None where %r is declared" % t)
            raise Unsupported("constant %r where %r is declared" % (c, t))
        if isinstance(v, V):
            vt = prune(v.t)
            if vt.kind == "opt":
                return self.to_term(self.force(v), t)
            if vt.kind == "any" and k != "any":
                self.prove(isa(t, v.z), "type:any-as-%s" % tkey(t), "value used as %r" % t)
                return unbox(t, v.z)
            if is_reflike(t) and is_reflike(vt):
                self.unify(vt, t)
                return v.z
            if tkey(vt) == tkey(t):
                return v.z
            if k == "real" and vt.kind == "int":
                return z3.ToReal(v.z)
            if k == "sstr" and vt.kind == "str":
                raise Unsupported("abstract string where a theory string is needed")
            raise Unsupported("%r where %r is declared" % (vt, t))
        if k == "fn":
            return self.fn_term(v)
        if isinstance(v, KwV):
            raise Unsupported("keyword dictionary used as %r" % t)
        if isinstance(v, Tup) and k == "list":
            raise Unsupported("tuple used as list")
        raise Unsupported("%r where %r is declared" % (v, t))

    def fn_term(self, v):
        """A function value as a term; the value can be found again from the term."""
        if isinstance(v, V):
            return v.z
        if getattr(v, "fnterm", None) is None:
            name = "fn"
            c = self.fresh(name, FnS)
            v.fnterm = c
            self.fn_registry[c.get_id()] = (v, c)
        return v.fnterm

    def fn_value(self, term):
        term = z3.simplify(term)
        x = self.fn_registry.get(term.get_id())
        return x[0] if x else None

    def to_any(self, v):
        if isinstance(v, Con):
            if v.v is None:
                return any_none
            if v.v is True:
                return any_true
            if v.v is False:
                return any_false
            if isinstance(v.v, str):
                return box(STR, str_lit(v.v))
            if isinstance(v.v, int):
                return box(INT, z3.IntVal(v.v))
            if isinstance(v.v, float):
                return box(REAL, z3.RealVal(v.v))
            return self.fresh("anyconst", AnyS)
        if isinstance(v, V):
            t = prune(v.t)
            if t.kind == "any":
                return v.z
            if t.kind == "opt":
                return self.to_any(self.force(v))
            return box(t if not is_reflike(t) else Ref("object"), v.z)
        if isinstance(v, (FuncV, BoundV, PartialV, ExtV)):
            return box(FN, self.fn_term(v))
        if isinstance(v, MaybeUnbound):
            return self.to_any(v.value)
        if isinstance(v, Tup):
            t = TupT(*[ANY] * len(v.items))
            return box(t, tup_dt(t)[1](*[self.to_any(x) for x in v.items]))
        return self.fresh("anyobj", AnyS)

    def unify(self, a, b):
        a, b = prune(a), prune(b)
        if isinstance(a, TVar):
            if a is not b:
                self.bind(a, b)
            return
        if isinstance(b, TVar):
            self.bind(b, a)
            return
        if a.kind in ("list", "set", "dict") and a.kind == b.kind:
            for x, y in zip(a.args, b.args):
                self.unify(x, y)

    def bind(self, tv, t):
        t = prune(t)
        if isinstance(t, TVar):
            raise Unsupported("two unknown element types")
        if t.kind == "none":
            raise Unsupported("container of None")
        tv.val = t
        if tv.site is not None and tv.site not in self.site_types:
            self.site_types[tv.site] = t
            raise Restart("element type of %s is %r" % (tv.site[-1], t))

    def type_of(self, v):
        if isinstance(v, MaybeUnbound):
            return self.type_of(v.value)
        if isinstance(v, V):
            return prune(v.t)
        if isinstance(v, Con):
            c = v.v
            if c is None:
                return NONE
            if isinstance(c, bool):
                return BOOL
            if isinstance(c, int):
                return INT
            if isinstance(c, float):
                return REAL
            if isinstance(c, str):
                return SSTR if self.spec.strings == "seq" else STR
            if isinstance(c, tuple):
                return TupT(*[self.type_of(Con(x)) for x in c])
        if isinstance(v, Tup):
            return TupT(*[self.type_of(x) for x in v.items])
        if isinstance(v, (FuncV, BoundV, PartialV, ExtV, ClassV)):
            return FN
        return ANY

    def join_type(self, a, b):
        a, b = prune(a), prune(b)
        if isinstance(a, TVar):
            return b
        if isinstance(b, TVar):
            return a
        if a == b:
            return a
        if a.kind == "none":
            return b if b.kind in ("opt", "any") else Opt(b)
        if b.kind == "none":
            return a if a.kind in ("opt", "any") else Opt(a)
        if a.kind == "opt" or b.kind == "opt":
            j = self.join_type(a.args[0] if a.kind == "opt" else a, b.args[0] if b.kind == "opt" else b)
            return j if j.kind in ("any", "opt") else Opt(j)
        if {a.kind, b.kind} == {"int", "real"}:
            return REAL
        if {a.kind, b.kind} == {"int", "bool"}:
            return INT
        if a.kind == b.kind == "ref":
            if a.args[0] == b.args[0]:
                return Ref(a.args[0])
            for c in self.mro(a.args[0]):
                if c in self.mro(b.args[0]):
                    return Ref(c)
            return ANY
        if a.kind == b.kind and a.kind in ("list", "set", "dict"):
            return Type(a.kind, *[self.join_type(x, y) for x, y in zip(a.args, b.args)])
        return ANY

    def force(self, v):
        """Resolve an optional value by a case split."""
        while isinstance(v, V) and prune(v.t).kind == "opt":
            inner = prune(v.t).args[0]
            if is_reflike(inner):
                if self.branch(v.z == null):
                    v = Con(None)
                else:
                    v = V(inner, v.z)
                    self.assume_wf(v)
            else:
                d, none, some, val, isn = opt_dt(inner)
                if self.branch(isn(v.z)):
                    v = Con(None)
                else:
                    v = V(inner, val(v.z))
        if isinstance(v, V) and prune(v.t).kind == "fn":
            f = self.fn_value(v.z)
            if f is not None:
                return f
        if isinstance(v, V) and prune(v.t).kind == "tup":
            t = prune(v.t)
            acc = tup_dt(t)[2]
            return Tup([self.from_term(acc[i](v.z), a) for i, a in enumerate(t.args)])
        return v

    def from_term(self, z, t):
        z = z3.simplify(z) if z3.is_expr(z) else z
        v = V(t, z)
        self.assume_wf(v)
        if prune(t).kind == "tup":
            return self.force(v)
        return v

    def truth(self, v):
        """Truth value as a z3 formula (or Python bool)."""
        if isinstance(v, MaybeUnbound):
            v = self.unwrap_unbound(v, "?")
        if isinstance(v, Con):
            return bool(v.v)
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, KwV):
            return len(v.d) > 0
        if isinstance(v, V):
            t = prune(v.t)
            k = t.kind
            if k == "bool":
                return v.z
            if k in ("int", "real"):
                return v.z != 0
            if k == "str":
                return v.z != str_lit("")
            if k == "sstr":
                return z3.Length(v.z) != 0
            if k == "opt":
                inner = t.args[0]
                if is_reflike(inner):
                    n = v.z == null
                    val = V(inner, v.z)
                else:
                    d = opt_dt(inner)
                    n = d[4](v.z)
                    val = V(inner, d[3](v.z))
                tv = self.truth(val)
                tv = z3.BoolVal(tv) if isinstance(tv, bool) else tv
                return z3.And(z3.Not(n), tv)
            if k == "list":
                return z3.Select(self.harr("L:len"), v.z) > 0
            if k == "set":
                if isinstance(prune(t.args[0]), TVar):
                    return False
                s = self.set_content(v)
                return s != z3.EmptySet(sort_of(t.args[0]))
            if k == "dict":
                if isinstance(prune(t.args[0]), TVar):
                    return False
                return self.dict_dom(v) != z3.EmptySet(sort_of(t.args[0]))
            if k == "any":
                return any_truthy(v.z)
            if k == "ref":
                m = self.find_method(t.args[0], "__bool__") or self.find_method(t.args[0], "__len__")
                if m:
                    raise Unsupported("truth of %s" % t)
                return True
            if k == "fn":
                return True
        if isinstance(v, (FuncV, BoundV, ClassV, ExtV, PartialV, CoroV, GenV, ModuleV)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def truthy(self, v):
        return self.branch(self.truth(v))

    def unwrap_unbound(self, v, name):
        if isinstance(v, MaybeUnbound):
            if self.branch(v.unbound):
                raise PyRaise("UnboundLocalError", Con(name))
            return v.value
        return v

    # ------------------------------------------------------------ containers
    def set_content(self, v):
        t = prune(v.t)
        return self.hread("S:" + tkey(t.args[0]), t, v.z)

    def set_write(self, v, term):
        t = prune(v.t)
        self.hwrite("S:" + tkey(t.args[0]), t, v.z, term)

    def list_len(self, v):
        return z3.simplify(self.rd(self.harr("L:len"), v.z))

    def list_arr(self, v):
        t = prune(v.t)
        return self.hread("L:arr:" + tkey(t.args[0]), t, v.z)

    def list_write(self, v, ln, arr):
        t = prune(v.t)
        self.hwrite("L:len", None, v.z, ln)
        if arr is not None:
            self.hwrite("L:arr:" + tkey(t.args[0]), t, v.z, arr)

    def list_get(self, v, i):
        t = prune(v.t)
        key = "L:arr:" + tkey(t.args[0])
        return self.from_term(z3.Select(self.list_arr(v), i), t.args[0])

    def dict_keys_(self, t):
        return "D:dom:%s:%s" % (tkey(t.args[0]), tkey(t.args[1])), "D:val:%s:%s" % (tkey(t.args[0]), tkey(t.args[1]))

    def dict_dom(self, v):
        t = prune(v.t)
        return self.hread(self.dict_keys_(t)[0], t, v.z)

    def dict_val(self, v):
        t = prune(v.t)
        return self.hread(self.dict_keys_(t)[1], t, v.z)

    def new_list(self, items, site, elem=None):
        tv = elem or self.site_type(site, 0)
        v = self.alloc("list", List(tv))
        self.hwrite("L:len", None, v.z, z3.IntVal(len(items)))
        for x in items:
            self.learn_elem(v, 0, x)
        if items:
            t = prune(prune(v.t).args[0])
            arr = self.list_arr(v)
            for i, x in enumerate(items):
                arr = z3.Store(arr, z3.IntVal(i), self.to_term(x, t))
            self.hwrite("L:arr:" + tkey(t), v.t, v.z, arr)
            self.shadow.setdefault("items", {})[v.z.get_id()] = (list(items), v.z)
        return v

    def new_set(self, items, site, elem=None):
        tv = elem or self.site_type(site, 0)
        v = self.alloc("set", Set(tv))
        for x in items:
            self.learn_elem(v, 0, x)
        t = prune(prune(v.t).args[0])
        if isinstance(t, TVar):
            return v
        s = z3.EmptySet(sort_of(t))
        for x in items:
            s = z3.SetAdd(s, self.to_term(x, t))
        self.set_write(v, s)
        return v

    def new_dict(self, site, kt=None, vt=None):
        v = self.alloc("dict", Dict(kt or self.site_type(site, 0), vt or self.site_type(site, 1)))
        t = prune(v.t)
        if not isinstance(prune(t.args[0]), TVar) and not isinstance(prune(t.args[1]), TVar):
            self.hwrite(self.dict_keys_(t)[0], t, v.z, z3.EmptySet(sort_of(t.args[0])))
        return v

    def site_type(self, site, i):
        s = tuple(site) + (i,)
        if s in self.site_types:
            return self.site_types[s]
        return TVar(s)

    def learn_elem(self, v, i, x):
        """The container v has an element x: settle its element type."""
        t = prune(v.t).args[i] if isinstance(v.t, Type) else v.t
        tv = v.t.args[i]
        while isinstance(tv, TVar) and tv.val is not None:
            tv = tv.val
        xt = self.type_of(x)
        if isinstance(tv, TVar):
            if isinstance(xt, Type) and xt.kind == "ref":
                xt = Ref(xt.args[0])
            self.bind(tv, xt)
        else:
            pt = prune(tv)
            if pt.kind in ("any",):
                return
            if isinstance(xt, Type) and xt.kind == "opt" and prune(xt.args[0]) == pt:
                x = self.force(x)
                if not (isinstance(x, Con) and x.v is None):
                    return
            if is_reflike(pt) and is_reflike(xt):
                if pt.kind == "ref" and xt.kind == "ref" and pt.args[0] != xt.args[0] and pt.args[0] not in self.mro(xt.args[0]):
                    # widen to a common base
                    j = self.join_type(pt, xt)
                    self.rebind_site(v, i, j)
                else:
                    self.unify(pt, xt)
                return
            if pt != xt:
                j = self.join_type(pt, xt)
                if j != pt:
                    self.rebind_site(v, i, j)

    def rebind_site(self, v, i, j):
        for s, t in list(self.site_types.items()):
            pass
        raise Unsupported("container element types differ: %r and %r" % (prune(v.t).args[i], j))

    def const_int(self, z):
        z = z3.simplify(z)
        return z.as_long() if z3.is_int_value(z) else None

    def list_items(self, v):
        """The elements of a list of known length, or None."""
        n = self.const_int(self.list_len(v))
        if n is None:
            # the length may be fixed by the path condition
            return None
        if n == 0:
            return []
        sh = self.shadow.get("items", {}).get(v.z.get_id())
        out = []
        arr = self.list_arr(v)
        t = prune(v.t).args[0]
        for i in range(n):
            out.append(self.from_term(z3.Select(arr, z3.IntVal(i)), t))
        return out

    # ------------------------------------------------------------ calls of top-level functions
    def site(self, node):
        return tuple(self.call_stack) + ("%s@%d:%d" % (type(node).__name__, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)


def symbols(f, cache={}):
    i = f.get_id()
    c = cache.get(i)
    if c is not None and c[1].eq(f):
        return c[0]
    if z3.is_quantifier(f):
        r = symbols(f.body())
    elif z3.is_var(f):
        r = frozenset()
    else:
        r = frozenset().union(*[symbols(x) for x in f.children()]) if f.num_args() else frozenset()
        if f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = r | {f.decl().name()}
    cache[i] = (r, f)
    return r


def relevant(fs, goals, tol, depth):
    """The formulas without quantifiers, and those with quantifiers that are connected to the goal (the last ones) by symbols that are rare."""
    n = len(fs) - goals
    if not goals:
        return fs
    syms = [symbols(f) for f in fs]
    occ = {}
    for s in syms:
        for x in s:
            occ[x] = occ.get(x, 0) + 1
    trig = {}
    for i in range(n):
        if syms[i]:
            m = min(occ[x] for x in syms[i])
            for x in syms[i]:
                if occ[x] <= tol * m:
                    trig.setdefault(x, []).append(i)
    cur = set()
    for i in range(n, len(fs)):
        cur |= syms[i]
    got = set()
    front = set(cur)
    for _ in range(depth):
        new = {i for x in front for i in trig.get(x, ()) if i not in got}
        got |= new
        front = set().union(*[syms[i] for i in new]) - cur if new else set()
        cur |= front
    return [f for i, f in enumerate(fs) if i >= n or i in got or not has_quant(f) or not syms[i]]


def guarded(f, seconds):
    """f() in a process of its own: the solver does not always respect its limits."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            r, d = f()
            os.write(wr, (r + "\n" + d[:20000]).encode())
        finally:
            os._exit(0)
    os.close(wr)
    out = b""
    end = time.time() + seconds
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return "unknown", "unknown: no answer within %d s" % seconds
            b = os.read(rd, 65536)
            if not b:
                break
            out += b
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    if b"\n" not in out:
        return "unknown", "unknown: the solver process ended"
    r, d = out.decode().split("\n", 1)
    return r, d


def has_quant(f, arrays=False, caches=({}, {})):
    """Does the formula contain a quantifier (over a variable of array sort)?"""
    cache = caches[arrays]
    i = f.get_id()
    c = cache.get(i)
    if c is not None and c[1] is not None and c[1].eq(f):
        return c[0]
    if z3.is_quantifier(f) and (not arrays or any(f.var_sort(k).kind() == z3.Z3_ARRAY_SORT for k in range(f.num_vars()))):
        r = True
    elif z3.is_quantifier(f):
        r = has_quant(f.body(), arrays)
    else:
        r = any(has_quant(c, arrays) for c in f.children())
    cache[i] = (r, f)
    return r
