"""Statements, expressions, calls and loops."""
import ast
import z3

from .vals import *
from .engine import *
from . import engine as E


class Poison(Value):
    """A loop variable whose value after an iteration has no representation."""


class ExcV(Value):
    """An exception object."""

    def __init__(self, exc, args=(), obj=None):
        self.exc = exc
        self.args = list(args)
        self.obj = obj


class TypeV(Value):
    """type("str"), str.__class__ ..."""

    def __init__(self, name):
        self.name = name


cls_of = z3.Function("cls_of", RefS, z3.IntSort())
class_of_any = z3.Function("class_of_any", AnyS, AnyS)
class_name_of = z3.Function("class_name_of", AnyS, StrS)
str_cat = z3.Function("str_cat", StrS, StrS, StrS)


def cat_parts(z):
    """The pieces of a concatenation."""
    if z3.is_app(z) and z.decl().eq(str_cat):
        return cat_parts(z.arg(0)) + cat_parts(z.arg(1))
    return [z]


def cat_of(parts):
    """A concatenation in the normal form of the free monoid: right associated, adjacent literals joined."""
    out = []
    for p in parts:
        t = lit_text(p)
        if t == "":
            continue
        u = lit_text(out[-1]) if out and t is not None else None
        if u is not None:
            out[-1] = str_lit(u + t)
        else:
            out.append(p)
    if not out:
        return str_lit("")
    r = out[-1]
    for p in reversed(out[:-1]):
        r = str_cat(p, r)
    return r
str_in = z3.Function("str_in", StrS, StrS, z3.BoolSort())
str_of_any = z3.Function("str_of_any", AnyS, StrS)
str_lt = z3.Function("str_lt", StrS, StrS, z3.BoolSort())

CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}

BUILTIN_TYPES = ("str", "int", "bool", "float", "list", "tuple", "set", "dict", "bytes", "type", "object")


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Interp(E.Engine):

    # ------------------------------------------------------------ names
    def lookup(self, env, name, node=None):
        e = env
        first = True
        while e is not None:
            if first and name in e.globals:
                break
            if name in e.vars:
                return self.unwrap_unbound(e.vars[name], name) if isinstance(e.vars[name], MaybeUnbound) else e.vars[name]
            if first and name in e.localnames and name not in e.nonlocals:
                raise PyRaise("UnboundLocalError", Con(name))
            if not first and name in e.localnames:
                raise PyRaise("NameError", Con(name))
            first = False
            e = e.parent
        return self.module_name(env.func.module, name)

    def module_name(self, mod, name):
        key = "%s:%s" % (mod.name, name)
        g = self.spec.globals.get(key)
        if g is not None:
            return self.read_global(mod, name, g)
        x = mod.names.get(name)
        if x is None:
            if name in mod.assigned_global:
                raise Unsupported("undeclared global %s" % key)
            if name in EXC_BASES or name in ("Warning", "DeprecationWarning"):
                return ExtV("exc." + name)
            return ExtV("builtins." + name)
        if x[0] == "func":
            return FuncV(x[1])
        if x[0] == "class":
            return ClassV(x[1])
        if x[0] == "module":
            return ModuleV(x[1])
        if x[0] == "from":
            m = self.prog.modules.get(x[1])
            if m is not None:
                return self.module_name(m, x[2])
            if x[1] == "__future__":
                return Con(None)
            return ExtV("%s.%s" % (x[1], x[2]))
        if x[0] == "var":
            if name in mod.assigned_global:
                raise Unsupported("global %s is assigned and has no declared type" % key)
            if key in self.default_objs:
                return self.default_objs[key]
            env = Env(func=E_ModFunc(mod))
            v = self.pristine(lambda: self.ev(x[1], env), key)
            self.default_objs[key] = v
            return v
        raise Unsupported("name " + key)

    def pristine(self, thunk, what):
        """Evaluate something that was evaluated when the module was loaded: its objects are old and are
        assumed never to be modified (writes to them are failed obligations)."""
        n0 = len(self.writes)
        mark = set(self.fresh_refs)
        v = thunk()
        for r in set(self.fresh_refs) - mark:
            self.ext_state.setdefault("pristine", {})[r] = what
        del self.writes[n0:]
        return v

    def read_global(self, mod, name, t):
        key = "V:%s.%s" % (mod.name, name)
        if callable(t) and not isinstance(t, Type):
            return t(self)
        if name in mod.assigned_global:
            z = self.harr(key, t)
            return self.from_term(z, t)
        c = z3.Const("glob:%s.%s" % (mod.name, name), sort_of(t))
        if is_reflike(t):
            self.assume(z3.And(z3.Select(self.harr0("G:alloc"), c), c != null))
            self.assume_class(c, t)
        v = V(t, c)
        return v

    def harr0(self, key):
        return z3.Const(key + "@0", self.key_sort(key)) if key == "G:alloc" else self.harr(key)

    def assume_class(self, z, t):
        t = prune(t)
        if t.kind == "ref" and t.args[0] in self.prog.classes:
            self.assume(self.isinst(z, t.args[0], t.args[1]))

    def class_id(self, name):
        names = sorted(self.prog.classes)
        return names.index(name) if name in names else len(names) + abs(hash(name)) % 1000

    def isinst(self, z, cls, exact=False):
        if exact:
            return cls_of(z) == self.class_id(cls)
        subs = self.subclasses(cls)
        return z3.Or(*[cls_of(z) == self.class_id(c) for c in subs])

    def set_name(self, env, name, v):
        e = env
        if name in e.globals:
            mod = e.func.module
            key = "%s:%s" % (mod.name, name)
            g = self.spec.globals.get(key)
            if g is None:
                raise Unsupported("assignment to undeclared global " + key)
            if getattr(g, "on_write", None):
                return g.on_write(self, v)
            hk = "V:%s.%s" % (mod.name, name)
            self.harr(hk, g)
            self.heap[hk] = self.to_term(v, g)
            self.writes.append(("heap", hk, None))
            return
        if name in e.nonlocals:
            e = e.parent
            while e is not None and name not in e.localnames:
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal " + name)
        e.vars[name] = v
        self.writes.append(("var", id(e), name))

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    def stmt(self, st, env):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        self.cur_node = st
        m(st, env)

    def st_Pass(self, st, env):
        pass

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            put = lambda v: self.set_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.get_attr(o, t.attr)
            put = lambda v: self.set_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            old = self.get_item(o, i)
            put = lambda v: self.set_item(o, i, v)
        else:
            raise Unsupported("augmented assignment")
        v = self.ev(st.value, env)
        f = self.force(old)
        if isinstance(st.op, ast.Add) and isinstance(f, V) and prune(f.t).kind == "list":
            self.list_extend(f, v)
            put(f)
            return
        if isinstance(st.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and isinstance(f, V) and prune(f.t).kind == "set":
            r = self.binop(st.op, f, v, st)
            self.set_write(f, self.set_content(r))
            put(f)
            return
        put(self.binop(st.op, old, v, st))

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            o = self.ev(t.value, env)
            self.set_item(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, items):
                self.assign(a, b, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, Con) and isinstance(v.v, (tuple, list)):
            items = [Con(x) for x in v.v]
        elif isinstance(v, Tup):
            items = v.items
        elif isinstance(v, V) and prune(v.t).kind == "list":
            if not self.branch(self.list_len(v) == n):
                raise PyRaise("ValueError")
            items = [self.list_get(v, z3.IntVal(i)) for i in range(n)]
        else:
            raise Unsupported("unpacking %r" % (v,))
        if len(items) != n:
            raise PyRaise("ValueError")
        return items

    def st_Return(self, st, env):
        raise ReturnX(self.ev(st.value, env) if st.value is not None else Con(None))

    def st_Break(self, st, env):
        raise BreakX()

    def st_Continue(self, st, env):
        raise ContinueX()

    def st_Global(self, st, env):
        env.globals.update(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_Import(self, st, env):
        for a in st.names:
            self.set_name(env, (a.asname or a.name).split(".")[0], ModuleV(a.name if a.asname else a.name.split(".")[0]))

    def st_ImportFrom(self, st, env):
        for a in st.names:
            m = self.prog.modules.get(st.module)
            self.set_name(env, a.asname or a.name, self.module_name(m, a.name) if m else ExtV("%s.%s" % (st.module, a.name)))

    def st_FunctionDef(self, st, env):
        f = load.Func(env.func.module, env.func.qualname + "." + st.name, st, None)
        key = id(st)
        f = self.nested_funcs.setdefault(key, f)
        v = FuncV(f, env)
        v.defaults = [self.ev(d, env) for d in st.args.defaults]
        v.kwdefaults = [self.ev(d, env) if d is not None else None for d in st.args.kw_defaults]
        if st.decorator_list:
            for d in reversed(st.decorator_list):
                v = self.call(self.ev(d, env), [v], {}, st)
        self.set_name(env, st.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, st, env):
        key = id(st)
        if key not in self.nested_funcs:
            c = load.Class(env.func.module, st.name, st)
            for n, f in c.methods.items():
                f.qualname = env.func.qualname + "." + f.qualname
                f.key = "%s:%s" % (env.func.module.name, f.qualname)
            self.nested_funcs[key] = c
            self.prog.classes.setdefault(st.name, c)
        self.set_name(env, st.name, ClassV(self.nested_funcs[key]))

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.force(self.ev(t.value, env))
                i = self.ev(t.slice, env)
                self.del_item(o, i)
            elif isinstance(t, ast.Name):
                self.lookup(env, t.id)
                if t.id in env.vars:
                    del env.vars[t.id]
                    self.writes.append(("var", id(env), t.id))
            else:
                raise Unsupported("del")

    def st_Assert(self, st, env):
        if not self.truthy(self.ev(st.test, env)):
            raise PyRaise("AssertionError", None, self.where())

    def only_prints(self, body):
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
                continue
            return False
        return True

    def st_If(self, st, env):
        cond = self.truth(self.ev(st.test, env))
        if not isinstance(cond, bool) and self.only_prints(st.body) and self.only_prints(st.orelse):
            # both branches only print: evaluate them for their errors, then go on without a case split
            for c, body in ((cond, st.body), (z3.Not(cond), st.orelse)):
                if body:
                    def run(c=c, body=body):
                        self.assume(c)
                        self.block(body, env)
                        return Con(None)
                    for path in self.sub_explore(run):
                        if path["exc"] is not None:
                            fresh = self.choose()
                            if fresh:
                                for f in path["pc"]:
                                    self.assume(f)
                                raise path["exc"]
                        elif path["writes"]:
                            raise Unsupported("a printed expression has effects")
            return
        if self.branch(cond):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def st_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyRaise as p:
                h = self.find_handler(st.handlers, p, env)
                if h is None:
                    raise
                if h.name:
                    self.set_name(env, h.name, p.value if p.value is not None else ExcV(p.exc))
                saved = self.ext_state.get("handling")
                self.ext_state["handling"] = p
                try:
                    self.block(h.body, env)
                finally:
                    self.ext_state["handling"] = saved
            else:
                self.block(st.orelse, env)
        except (PyRaise, ReturnX, BreakX, ContinueX):
            self.block(st.finalbody, env)
            raise
        self.block(st.finalbody, env)

    def exc_bases(self, exc):
        out = []
        while exc is not None:
            out.append(exc)
            if exc in EXC_BASES:
                exc = EXC_BASES[exc]
            elif exc in self.prog.classes:
                b = self.prog.classes[exc].bases
                exc = (b[0].id if isinstance(b[0], ast.Name) else b[0].attr) if b else None
            else:
                exc = "Exception"
        return out

    def exc_names(self, node, env):
        if isinstance(node, ast.Tuple):
            return [n for e in node.elts for n in self.exc_names(e, env)]
        v = self.ev(node, env)
        if isinstance(v, ClassV):
            return [v.cls.name]
        if isinstance(v, ExtV):
            return [v.name.split(".")[-1]]
        raise Unsupported("except clause")

    def find_handler(self, handlers, p, env):
        for h in handlers:
            if h.type is None:
                return h
            for n in self.exc_names(h.type, env):
                if n == "JSONDecodeError":
                    n = "json.JSONDecodeError"
                if n in self.exc_bases(p.exc):
                    return h
                if p.exc == "AnyException" and n in EXC_BASES and "Exception" in self.exc_bases(n):
                    # an arbitrary exception may be of this class
                    if self.choose():
                        p.exc = n
                        return h
                elif p.exc in EXC_BASES and p.exc in ("OSError", "IOError") and n in EXC_BASES and p.exc in self.exc_bases(n):
                    if self.choose():
                        return h
        return None

    def st_Raise(self, st, env):
        if st.exc is None:
            p = self.ext_state.get("handling")
            if p is None:
                raise PyRaise("RuntimeError")
            raise PyRaise(p.exc, p.value, p.where)
        v = self.ev(st.exc, env)
        if isinstance(v, ExtV) and v.name.startswith("exc."):
            v = ExcV(v.name[4:])
        if isinstance(v, ClassV):
            v = self.call(v, [], {}, st)
        if isinstance(v, ExcV):
            raise PyRaise(v.exc, v, self.where())
        raise Unsupported("raise %r" % (v,))

    def st_With(self, st, env, is_async=False):
        mgrs = []
        for item in st.items:
            m = self.ev(item.context_expr, env)
            h = self.ctx_enter(m, is_async, st)
            mgrs.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, h, env)
        try:
            self.block(st.body, env)
        except PyRaise as p:
            for m in reversed(mgrs):
                if self.ctx_exit(m, is_async, p, st):
                    return
            raise
        except (ReturnX, BreakX, ContinueX):
            for m in reversed(mgrs):
                self.ctx_exit(m, is_async, None, st)
            raise
        for m in reversed(mgrs):
            self.ctx_exit(m, is_async, None, st)

    def st_AsyncWith(self, st, env):
        self.st_With(st, env, True)

    def ctx_enter(self, m, is_async, node):
        f = self.get_attr(m, "__aenter__" if is_async else "__enter__")
        r = self.call(f, [], {}, node)
        return self.await_(r) if is_async else r

    def ctx_exit(self, m, is_async, p, node):
        f = self.get_attr(m, "__aexit__" if is_async else "__exit__")
        a = [Con(None), Con(None), Con(None)] if p is None else [ExcV(p.exc), ExcV(p.exc), Con(None)]
        r = self.call(f, a, {}, node)
        if is_async:
            r = self.await_(r)
        return p is not None and self.truthy(r)

    def await_(self, v):
        v = self.force(v)
        if isinstance(v, CoroV):
            return v.thunk()
        raise Unsupported("await %r" % (v,))

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, env)

    def ev_Constant(self, n, env):
        if n.value is Ellipsis:
            raise Unsupported("...")
        return Con(n.value)

    def ev_Name(self, n, env):
        v = self.lookup(env, n.id, n)
        if isinstance(v, Poison):
            raise Unsupported("value of %s after a loop" % n.id)
        return v

    def ev_Attribute(self, n, env):
        return self.get_attr(self.ev(n.value, env), n.attr)

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while getattr(e, "comp", False):
            e = e.parent
        self.set_name(e, n.target.id, v)
        return v

    def ev_Await(self, n, env):
        return self.await_(self.ev(n.value, env))

    def ev_Lambda(self, n, env):
        key = id(n)
        if key not in self.nested_funcs:
            self.nested_funcs[key] = load.Func(env.func.module, env.func.qualname + ".<lambda>", n, None)
        v = FuncV(self.nested_funcs[key], env)
        v.defaults = [self.ev(d, env) for d in n.args.defaults]
        v.kwdefaults = [self.ev(d, env) if d is not None else None for d in n.args.kw_defaults]
        return v

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truthy(self.ev(n.test, env)) else n.orelse, env)

    def ev_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if self.branch(t) != is_and:
                return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return Con(not t) if isinstance(t, bool) else V(BOOL, z3.Not(t))
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Con):
                return Con(-v.v)
            if isinstance(v, V) and prune(v.t).kind in ("int", "real"):
                return V(v.t, -v.z)
        raise Unsupported("unary operator")

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b, n)

    def is_str(self, v):
        return (isinstance(v, Con) and isinstance(v.v, str)) or (isinstance(v, V) and prune(v.t).kind in ("str", "sstr"))

    def is_num(self, v):
        return (isinstance(v, Con) and isinstance(v.v, (int, float))) or (isinstance(v, V) and prune(v.t).kind in ("int", "real", "bool"))

    def strsort(self):
        return SSTR if self.spec.strings == "seq" else STR

    def concat(self, a, b):
        if isinstance(a, Con) and isinstance(b, Con):
            return Con(a.v + b.v)
        t = self.strsort()
        x, y = self.to_term(a, t), self.to_term(b, t)
        if t is SSTR:
            return V(SSTR, z3.Concat(x, y))
        return V(STR, cat_of(cat_parts(x) + cat_parts(y)))

    def any_value(self, v):
        """A value of unknown type with its type settled by what is required of it."""
        return v

    def binop(self, op, a, b, n):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Con) and isinstance(b, Con) and not isinstance(a.v, (list,)):
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Mod: lambda x, y: x % y,
                     ast.FloorDiv: lambda x, y: x // y, ast.Div: lambda x, y: x / y}[type(op)]
                return Con(f(a.v, b.v))
            except KeyError:
                raise Unsupported("operator")
            except TypeError:
                raise PyRaise("TypeError")
        if isinstance(op, ast.Add):
            if self.is_str(a) and isinstance(b, V) and prune(b.t).kind == "any":
                b = self.any_as_str(b)
            if self.is_str(b) and isinstance(a, V) and prune(a.t).kind == "any":
                a = self.any_as_str(a)
            if self.is_str(a) and self.is_str(b):
                return self.concat(a, b)
            if self.is_list(a) and self.is_list(b):
                return self.list_concat(a, b, n)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
        if isinstance(op, ast.Mod) and self.is_str(a):
            return self.opaque_str("mod", [a, b])
        if self.is_num(a) and self.is_num(b):
            ta, tb = self.type_of(a), self.type_of(b)
            t = REAL if REAL in (ta, tb) or isinstance(op, ast.Div) else INT
            x, y = self.num(a, t), self.num(b, t)
            if isinstance(op, ast.Add):
                return V(t, x + y)
            if isinstance(op, ast.Sub):
                return V(t, x - y)
            if isinstance(op, ast.Mult):
                return V(t, x * y)
            raise Unsupported("arithmetic operator")
        if isinstance(op, ast.Mult) and (self.is_list(a) or self.is_list(b)):
            l, k = (a, b) if self.is_list(a) else (b, a)
            items = self.list_items(l)
            if items is not None and len(items) == 1:
                return self.list_repeat(l, items[0], self.num(k, INT), n)
            raise Unsupported("list repetition")
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)) and self.is_set(a) and self.is_set(b):
            return self.set_op({ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersection"}[type(op)], a, b, n)
        ka, kb = self.type_of(a), self.type_of(b)
        if ANY in (ka, kb):
            raise Unsupported("operator on values of unknown type")
        raise PyRaise("TypeError")

    def any_as_str(self, b):
        t = self.strsort()
        if not self.branch(isa(t, b.z)):
            raise PyRaise("TypeError")
        return V(t, unbox(t, b.z))

    def num(self, v, t):
        z = self.to_term(v, self.type_of(v)) if not (isinstance(v, V) and prune(v.t).kind == "bool") else z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Con) and isinstance(v.v, bool):
            z = z3.IntVal(int(v.v))
        if t == REAL and z.sort() == z3.IntSort():
            z = z3.ToReal(z)
        return z

    def is_list(self, v):
        return isinstance(v, V) and prune(v.t).kind == "list"

    def is_set(self, v):
        return isinstance(v, V) and prune(v.t).kind == "set"

    def is_dict(self, v):
        return isinstance(v, V) and prune(v.t).kind == "dict"

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            t = self.compare(op, left, right)
            left = right
            if len(n.ops) == 1:
                return Con(t) if isinstance(t, bool) else V(BOOL, t)
            if not self.branch(t):
                return Con(False)
        return Con(True)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_same(a, b)
        if isinstance(op, ast.IsNot):
            t = self.is_same(a, b)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            t = self.equal(a, b)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            t = self.contains(b, a)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        a, b = self.force(a), self.force(b)
        if isinstance(a, Con) and isinstance(b, Con):
            if a.v is None or b.v is None:
                raise PyRaise("TypeError")
            return {ast.Lt: a.v < b.v, ast.LtE: a.v <= b.v, ast.Gt: a.v > b.v, ast.GtE: a.v >= b.v}[type(op)]
        if self.is_num(a) and self.is_num(b):
            t = REAL if REAL in (self.type_of(a), self.type_of(b)) else INT
            return CMP[type(op)](self.num(a, t), self.num(b, t))
        if (isinstance(a, Con) and a.v is None) or (isinstance(b, Con) and b.v is None):
            raise PyRaise("TypeError")
        if self.is_str(a) and self.is_str(b) and self.strsort() is STR:
            x, y = self.to_term(a, STR), self.to_term(b, STR)
            return {ast.Lt: str_lt(x, y), ast.LtE: z3.Or(x == y, str_lt(x, y)), ast.Gt: str_lt(y, x), ast.GtE: z3.Or(x == y, str_lt(y, x))}[type(op)]
        raise Unsupported("comparison of %r and %r" % (self.type_of(a), self.type_of(b)))

    def is_same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Con) and (y.v is None or y.v is True or y.v is False):
                if isinstance(x, MaybeUnbound):
                    x = self.unwrap_unbound(x, "?")
                if isinstance(x, Con):
                    return x.v is y.v
                if isinstance(x, V):
                    t = prune(x.t)
                    if t.kind == "any":
                        return x.z == {None: any_none, True: any_true, False: any_false}[y.v]
                    if t.kind == "opt":
                        if y.v is None:
                            return x.z == null if is_reflike(t.args[0]) else opt_dt(t.args[0])[4](x.z)
                        x = self.force(x)
                        return self.is_same(x, y)
                    if t.kind == "bool" and y.v is not None:
                        return x.z if y.v else z3.Not(x.z)
                    return False
                return False
        a, b = self.force(a), self.force(b)
        if isinstance(a, V) and isinstance(b, V) and is_reflike(a.t) and is_reflike(b.t):
            return a.z == b.z
        if isinstance(a, Con) and a.v is None:
            return isinstance(b, Con) and b.v is None
        if isinstance(b, Con) and b.v is None:
            return False
        if isinstance(a, (ClassV, TypeV, ExtV)) or isinstance(b, (ClassV, TypeV, ExtV)):
            return self.equal(a, b)
        raise Unsupported("identity of %r and %r" % (a, b))

    def equal(self, a, b):
        if isinstance(a, MaybeUnbound):
            a = self.unwrap_unbound(a, "?")
        if isinstance(b, MaybeUnbound):
            b = self.unwrap_unbound(b, "?")
        if isinstance(a, Con) and isinstance(b, Con):
            return a.v == b.v
        if isinstance(a, (ClassV, TypeV)) or isinstance(b, (ClassV, TypeV)):
            na = a.cls.name if isinstance(a, ClassV) else getattr(a, "name", None)
            nb = b.cls.name if isinstance(b, ClassV) else getattr(b, "name", None)
            if isinstance(a, ExtV):
                na = a.name.split(".")[-1]
            if isinstance(b, ExtV):
                nb = b.name.split(".")[-1]
            return na is not None and na == nb
        for x, y in ((a, b), (b, a)):
            if isinstance(x, V) and prune(x.t).kind == "opt":
                t = prune(x.t)
                if isinstance(y, Con) and y.v is None:
                    return x.z == null if is_reflike(t.args[0]) else opt_dt(t.args[0])[4](x.z)
                fx = self.force(x)
                return self.equal(fx, y)
        if isinstance(a, Tup) or isinstance(b, Tup):
            ia, ib = self.tuple_items(a), self.tuple_items(b)
            if ia is None or ib is None:
                if isinstance(a, V) and prune(a.t).kind == "any" or isinstance(b, V) and prune(b.t).kind == "any":
                    return self.to_any(a) == self.to_any(b)
                return False
            if len(ia) != len(ib):
                return False
            parts = [zb(self.equal(x, y)) for x, y in zip(ia, ib)]
            return z3.And(*parts) if parts else True
        ta, tb = self.type_of(a), self.type_of(b)
        if ta.kind == "any" or tb.kind == "any":
            return self.to_any(a) == self.to_any(b)
        if ta.kind in ("int", "real", "bool") and tb.kind in ("int", "real", "bool"):
            if ta.kind == tb.kind == "bool":
                return self.to_term(a, BOOL) == self.to_term(b, BOOL)
            t = REAL if REAL in (ta, tb) else INT
            return self.num(a, t) == self.num(b, t)
        if self.is_str(a) and self.is_str(b):
            t = self.strsort()
            return self.to_term(a, t) == self.to_term(b, t)
        if is_reflike(ta) and is_reflike(tb):
            if ta.kind == "list" and tb.kind == "list":
                ia, ib = self.list_items(a), self.list_items(b)
                if ia is not None and not ia:
                    return self.list_len(b) == 0
                if ib is not None and not ib:
                    return self.list_len(a) == 0
                return self.list_equal(a, b)
            if ta.kind == "set" and tb.kind == "set":
                return self.set_content(a) == self.set_content(b)
            if ta.kind == "ref" and tb.kind == "ref":
                if self.find_method(ta.args[0], "__eq__"):
                    raise Unsupported("__eq__ of %r" % ta)
                return a.z == b.z
            if ta.kind != tb.kind:
                return False
            raise Unsupported("equality of %r" % ta)
        if (ta.kind == "none") != (tb.kind == "none"):
            return False
        if ta.kind == "fn" and tb.kind == "fn":
            return self.fn_term(a) == self.fn_term(b)
        if ta.kind != tb.kind:
            return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def list_equal(self, a, b):
        t = prune(prune(a.t).args[0])
        j = z3.Int("eqj")
        n = self.list_len(a)
        return z3.And(n == self.list_len(b), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(self.list_arr(a), j) == z3.Select(self.list_arr(b), j))))

    def tuple_items(self, v):
        v = self.force(v)
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Con) and isinstance(v.v, tuple):
            return [Con(x) for x in v.v]
        return None

    def contains(self, coll, x):
        coll = self.force(coll)
        if isinstance(coll, Con) and isinstance(coll.v, str):
            if isinstance(x, Con):
                return x.v in coll.v
        if self.is_str(coll):
            x = self.force(x)
            if not self.is_str(x):
                if isinstance(x, V) and prune(x.t).kind == "any":
                    x = self.any_as_str(x)
                else:
                    raise PyRaise("TypeError")
            t = self.strsort()
            a, c = self.to_term(x, t), self.to_term(coll, t)
            return z3.Contains(c, a) if t is SSTR else str_in(a, c)
        items = self.tuple_items(coll)
        if items is None and self.is_list(coll):
            n = self.const_int(self.list_len(coll))
            if n is not None and n <= 40:
                items = self.list_items(coll)
        if items is not None:
            parts = [zb(self.equal(x, y)) for y in items]
            return z3.simplify(z3.Or(*parts)) if parts else False
        if isinstance(coll, KwV):
            x = self.force(x)
            if isinstance(x, Con):
                return x.v in coll.d
            return z3.Or(*[zb(self.equal(x, Con(k))) for k in coll.d]) if coll.d else False
        if isinstance(coll, V):
            t = prune(coll.t)
            if t.kind in ("set", "list", "dict") and isinstance(prune(t.args[0]), TVar):
                return False
            if t.kind == "set":
                return z3.Select(self.set_content(coll), self.key_term(x, t.args[0]))
            if t.kind == "dict":
                return z3.Select(self.dict_dom(coll), self.key_term(x, t.args[0]))
            if t.kind == "list":
                j = self.fresh("j", z3.IntSort())
                return z3.Exists([j], z3.And(0 <= j, j < self.list_len(coll), z3.Select(self.list_arr(coll), j) == self.key_term(x, t.args[0])))
            if t.kind == "ref":
                m = self.find_method(t.args[0], "__contains__")
                if m:
                    return self.truth(self.call(BoundV(coll, m), [x], {}, None))
                hd = self.hidden_dict(coll)
                if hd is not None:
                    return self.contains(hd, x)
            if t.kind == "any":
                r = self.fresh("any_in", z3.BoolSort())
                return r
        if isinstance(coll, ViewV) and coll.kind == "keys":
            return self.contains(coll.args[0], x)
        raise Unsupported("membership in %r" % (coll,))

    def key_term(self, x, t):
        """x as an element or key of type t (a value of another type is in no such container)."""
        x = self.force(x)
        t = prune(t)
        xt = self.type_of(x)
        if t.kind == "any":
            return self.to_any(x)
        if xt.kind == "any" and t.kind != "any":
            return unbox(t, x.z)
        if tkey(xt) != tkey(t) and not (is_reflike(xt) and is_reflike(t)):
            if isinstance(x, V) and prune(x.t).kind == "ref" and t.kind == "str":
                return z3.Function("ref_as_key", RefS, StrS)(x.z)
            if t.kind == "tup":
                return self.to_term(x, t)
            if t.kind == "opt":
                return self.to_term(x, t)
            if xt.kind in ("int", "real") and t.kind == "real":
                return self.to_term(x, t)
            raise Unsupported("key %r of a container of %r" % (xt, t))
        return self.to_term(x, t)

    def hidden_dict(self, v):
        d = self.field_decl(prune(v.t).args[0], "$dict")
        if d is None:
            return None
        return self.get_field(v, "$dict")

    def ev_Tuple(self, n, env):
        items = self.ev_elts(n.elts, env)
        if items is not None:
            return Tup(items)
        raise Unsupported("starred tuple")

    def ev_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.force(self.ev(e.value, env))
                it = self.known_items(v)
                if it is None:
                    return None
                out.extend(it)
            else:
                out.append(self.ev(e, env))
        return out

    def known_items(self, v):
        it = self.tuple_items(v)
        if it is not None:
            return it
        if self.is_list(v):
            return self.list_items(v)
        return None

    def ev_List(self, n, env):
        items = self.ev_elts(n.elts, env)
        if items is None:
            # [*a, *b]
            res = None
            for e in n.elts:
                part = self.ev(e.value, env) if isinstance(e, ast.Starred) else self.new_list([self.ev(e, env)], self.site(e))
                part = self.to_list(part, e)
                res = part if res is None else self.list_concat(res, part, e)
            return res
        return self.new_list(items, self.site(n))

    def ev_Set(self, n, env):
        items = self.ev_elts(n.elts, env)
        if items is None:
            raise Unsupported("starred set")
        return self.new_set(items, self.site(n))

    def ev_Dict(self, n, env):
        if all(k is not None and isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys) and n.keys:
            if not getattr(self.spec, "typed_dict_literals", False):
                return KwV({k.value: self.ev(v, env) for k, v in zip(n.keys, n.values)})
        d = self.new_dict(self.site(n))
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.force(self.ev(v, env))
                self.dict_update(d, o)
            else:
                kk = self.ev(k, env)
                self.set_item(d, kk, self.ev(v, env))
        return d

    def ev_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(Con(v.value))
            else:
                x = self.ev(v.value, env)
                if v.conversion == -1 and v.format_spec is None:
                    parts.append(self.to_str(x))
                else:
                    parts.append(self.opaque_str("fmt", [x]))
        if not parts:
            return Con("")
        r = parts[0]
        for p in parts[1:]:
            r = self.concat(r, p)
        return r

    def to_str(self, x):
        """str(x)"""
        x = self.force(x)
        if isinstance(x, Con):
            return Con(str(x.v)) if not isinstance(x.v, str) else x
        if self.is_str(x):
            return x
        if isinstance(x, V) and prune(x.t).kind == "ref":
            for m in ("__str__", "__repr__"):
                f = self.find_method(prune(x.t).args[0], m)
                if f:
                    return self.call(self.get_attr(x, m), [], {}, None)
        if isinstance(x, V) and prune(x.t).kind == "any" and self.strsort() is STR:
            # the string of a string is itself
            z = z3.If(isa(STR, x.z), unbox(STR, x.z), str_of_any(x.z))
            return V(STR, z)
        return self.opaque_str("str", [x])

    def opaque_str(self, what, args):
        return V(self.strsort(), self.fresh("str_" + what, sort_of(self.strsort())))

    def ev_FormattedValue(self, n, env):
        return self.to_str(self.ev(n.value, env))

    def ev_Starred(self, n, env):
        raise Unsupported("starred expression")

    def ev_Subscript(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            lo = self.ev(s.lower, env) if s.lower is not None else None
            hi = self.ev(s.upper, env) if s.upper is not None else None
            st = self.ev(s.step, env) if s.step is not None else None
            return self.get_slice(o, lo, hi, st, n)
        return self.get_item(o, self.ev(n.slice, env))

    def get_slice(self, o, lo, hi, st, n):
        o = self.force(o)
        if st is not None:
            raise Unsupported("slice step")
        if isinstance(o, Con) and all(x is None or isinstance(x, Con) for x in (lo, hi)):
            return Con(o.v[lo.v if lo else None:hi.v if hi else None])
        if isinstance(o, Tup) and all(x is None or isinstance(x, Con) for x in (lo, hi)):
            return Tup(o.items[lo.v if lo else None:hi.v if hi else None])
        if self.is_list(o):
            ln = self.list_len(o)

            def norm(x, d):
                if x is None:
                    return d
                z = self.num(self.force(x), INT)
                z = z3.If(z < 0, z + ln, z)
                return z3.If(z < 0, z3.IntVal(0), z3.If(z > ln, ln, z))
            a = z3.simplify(norm(lo, z3.IntVal(0)))
            b = z3.simplify(norm(hi, ln))
            et = prune(prune(o.t).args[0])
            r = self.alloc("list", List(prune(o.t).args[0]))
            if isinstance(et, TVar):
                self.list_write(r, z3.IntVal(0), None)
                return r
            rl = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
            arr = self.fresh("slice", z3.ArraySort(z3.IntSort(), sort_of(et)))
            src = self.list_arr(o)
            j = z3.Int("slj")
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < rl), z3.Select(arr, j) == z3.Select(src, j + a)), patterns=[z3.Select(arr, j)]))
            self.list_write(r, rl, arr)
            return r
        if isinstance(o, V) and prune(o.t).kind == "sstr":
            ln = z3.Length(o.z)

            def norms(x, d):
                if x is None:
                    return d
                z = self.num(self.force(x), INT)
                z = z3.If(z < 0, z + ln, z)
                return z3.If(z < 0, z3.IntVal(0), z3.If(z > ln, ln, z))
            a, b = norms(lo, z3.IntVal(0)), norms(hi, ln)
            return V(SSTR, z3.SubString(o.z, a, z3.If(b > a, b - a, z3.IntVal(0))))
        if self.is_str(o):
            return self.opaque_str("slice", [o])
        raise Unsupported("slice of %r" % (o,))

    def get_item(self, o, i):
        o = self.force(o)
        if isinstance(o, Con) and isinstance(i, Con):
            try:
                return Con(o.v[i.v])
            except IndexError:
                raise PyRaise("IndexError")
            except TypeError:
                raise PyRaise("TypeError")
        if isinstance(o, Tup):
            i = self.force(i)
            if isinstance(i, Con):
                try:
                    return o.items[i.v]
                except IndexError:
                    raise PyRaise("IndexError")
            raise Unsupported("tuple index")
        if isinstance(o, KwV):
            i = self.force(i)
            if isinstance(i, Con):
                if i.v in o.d:
                    return o.d[i.v]
                raise PyRaise("KeyError", i)
            for k in o.d:
                if self.branch(zb(self.equal(i, Con(k)))):
                    return o.d[k]
            raise PyRaise("KeyError", i)
        if self.is_list(o):
            i = self.force(i)
            z = self.num(i, INT)
            ln = self.list_len(o)
            if isinstance(i, Con) and i.v >= 0:
                ok = z < ln
            elif isinstance(i, Con):
                z = ln + z
                ok = z >= 0
            else:
                ok = z3.And(z < ln, z >= -ln)
                z = z3.If(z < 0, z + ln, z)
            if not self.branch(ok):
                raise PyRaise("IndexError")
            return self.list_get(o, z3.simplify(z))
        if self.is_dict(o):
            t = prune(o.t)
            if isinstance(prune(t.args[0]), TVar):
                raise PyRaise("KeyError", i)
            k = self.key_term(i, t.args[0])
            if not self.branch(z3.Select(self.dict_dom(o), k)):
                raise PyRaise("KeyError", i)
            return self.dict_get(o, k)
        if isinstance(o, V) and prune(o.t).kind == "ref":
            m = self.find_method(prune(o.t).args[0], "__getitem__")
            if m:
                return self.call(BoundV(o, m), [i], {}, None)
            hd = self.hidden_dict(o)
            if hd is not None:
                miss = self.find_method(prune(o.t).args[0], "__missing__")
                try:
                    return self.get_item(hd, i)
                except PyRaise as p:
                    if p.exc == "KeyError" and miss:
                        return self.call(BoundV(o, miss), [i], {}, None)
                    raise
        if isinstance(o, V) and prune(o.t).kind == "sstr":
            i = self.force(i)
            z = self.num(i, INT)
            ln = z3.Length(o.z)
            z = z3.If(z < 0, z + ln, z)
            if not self.branch(z3.And(z >= 0, z < ln)):
                raise PyRaise("IndexError")
            return V(SSTR, z3.SubString(o.z, z, 1))
        h = self.spec_hook("get_item", o, i)
        if h is not None:
            return h
        raise Unsupported("subscript of %r" % (o,))

    def spec_hook(self, name, *args):
        f = getattr(self.spec, "hook_" + name, None)
        if f is None:
            return None
        return f(self, *args)

    def dict_get(self, o, k):
        t = prune(o.t)
        dv = self.dict_val(o)
        sel = z3.simplify(z3.Select(dv, k))
        return self.from_term(sel, t.args[1])

    def set_item(self, o, i, v):
        o = self.force(o)
        if isinstance(o, KwV):
            i = self.force(i)
            if isinstance(i, Con):
                o.d[i.v] = v
                return
        if self.is_dict(o):
            self.learn_elem(o, 0, self.force(i))
            self.learn_elem(o, 1, v)
            t = prune(o.t)
            k = self.key_term(i, t.args[0])
            kd, kv = self.dict_keys_(t)
            dom, val = self.dict_dom(o), self.dict_val(o)
            self.hwrite(kd, t, o.z, z3.Store(dom, k, z3.BoolVal(True)))
            self.hwrite(kv, t, o.z, z3.Store(val, k, self.to_term(v, t.args[1])))
            return
        if self.is_list(o):
            i = self.force(i)
            z = self.num(i, INT)
            ln = self.list_len(o)
            if not self.branch(z3.And(z < ln, z >= -ln)):
                raise PyRaise("IndexError")
            if self.branch(z < 0):
                z = z + ln
            t = prune(prune(o.t).args[0])
            self.list_write(o, ln, z3.Store(self.list_arr(o), z, self.to_term(v, t)))
            return
        if isinstance(o, V) and prune(o.t).kind == "ref":
            m = self.find_method(prune(o.t).args[0], "__setitem__")
            if m:
                self.call(BoundV(o, m), [i, v], {}, None)
                return
            hd = self.hidden_dict(o)
            if hd is not None:
                return self.set_item(hd, i, v)
        raise Unsupported("item assignment to %r" % (o,))

    def del_item(self, o, i):
        if isinstance(o, KwV) and isinstance(i, Con):
            if i.v not in o.d:
                raise PyRaise("KeyError", i)
            del o.d[i.v]
            return
        if self.is_dict(o):
            t = prune(o.t)
            k = self.key_term(i, t.args[0])
            if not self.branch(z3.Select(self.dict_dom(o), k)):
                raise PyRaise("KeyError", i)
            self.hwrite(self.dict_keys_(t)[0], t, o.z, z3.Store(self.dict_dom(o), k, z3.BoolVal(False)))
            return
        raise Unsupported("del of an item of %r" % (o,))

    # ------------------------------------------------------------ attributes
    def get_field(self, o, attr):
        key, t = self.field_key(prune(o.t).args[0], attr)
        sh = self.shadow.get(key, {}).get(o.z.get_id())
        if sh is not None:
            return sh[0]
        z = z3.simplify(self.rd(self.harr(key, t), o.z))
        if prune(t).kind == "fn":
            f = self.fn_value(z)
            if f is not None:
                return f
        v = self.from_term(z, t)
        if isinstance(v, V):
            self.assume_class(v.z, v.t)
        return v

    def get_attr(self, o, attr):
        o = self.force(o)
        if isinstance(o, ModuleV):
            m = self.prog.modules.get(o.name)
            sub = o.name + "." + attr
            if m is not None:
                key = "%s:%s" % (m.name, attr)
                if key in self.spec.globals or attr in m.names:
                    return self.module_name(m, attr)
                if sub in self.prog.modules:
                    return ModuleV(sub)
                raise Unsupported("attribute %s of module %s" % (attr, o.name))
            return self.ext_value(sub)
        if isinstance(o, ExtV):
            if o.recv is None:
                return self.ext_value(o.name + "." + attr)
            return self.ext_attr(o, attr)
        if isinstance(o, ClassV):
            f = self.find_method(o.cls.name, attr) if o.cls.name in self.prog.classes and self.prog.classes[o.cls.name] is o.cls else o.cls.methods.get(attr)
            if f:
                return FuncV(f)
            a = self.find_class_attr(o.cls.name, attr)
            if a:
                return self.class_attr(*a, attr)
            if attr == "__name__":
                return Con(o.cls.name)
            raise Unsupported("class attribute %s.%s" % (o.cls.name, attr))
        if isinstance(o, SuperV):
            for c in self.mro(prune(o.selfv.t).args[0]):
                if c == o.cls:
                    continue
                k = self.prog.classes.get(c)
                if c in self.mro(o.cls) and c != o.cls and k and attr in k.methods:
                    return BoundV(o.selfv, k.methods[attr])
            return ExtV("super." + attr, o.selfv)
        if isinstance(o, V) and prune(o.t).kind == "ref":
            cls = prune(o.t).args[0]
            for c in self.mro(cls):
                h = getattr(self.spec, "attr_hooks", {}).get((c, attr))
                if h:
                    return h(self, o)
            if self.field_decl(cls, attr):
                return self.get_field(o, attr)
            m = self.dispatch(o, attr)
            if m is not None:
                return m
            a = self.find_class_attr(cls, attr)
            if a:
                return self.class_attr(*a, attr)
            if attr == "__class__":
                return V(ANY, self.fresh("class", AnyS))
            if attr == "__dict__":
                return V(ANY, z3.Function("dict_of", RefS, AnyS)(o.z))
            if cls in getattr(self.spec, "ext_classes", ()) or cls not in self.prog.classes:
                return ExtV("%s.%s" % (cls, attr), o)
            hd = self.field_decl(cls, "$dict")
            if hd:
                return ExtV("dict." + attr, self.get_field(o, "$dict"))
            raise Unsupported("attribute %s of %s" % (attr, cls))
        if isinstance(o, (FuncV, BoundV)) and attr == "__name__":
            return Con(o.func.qualname.split(".")[-1])
        if isinstance(o, Con) and o.v is None:
            raise PyRaise("AttributeError", Con(attr))
        if isinstance(o, ExcV):
            if attr == "__class__":
                return V(ANY, self.fresh("class", AnyS))
            raise Unsupported("attribute of an exception")
        if isinstance(o, V) and prune(o.t).kind == "any":
            if attr == "__class__":
                return V(ANY, class_of_any(o.z))
            if attr == "__name__" and z3.is_app(o.z) and o.z.decl().eq(class_of_any) and self.strsort() is STR:
                return V(STR, class_name_of(o.z.arg(0)))
            h = self.spec_hook("any_attr", o, attr)
            if h is not None:
                return h
            raise Unsupported("attribute %s of a value of unknown type" % attr)
        if isinstance(o, V) and prune(o.t).kind == "fn" and attr == "__name__":
            return V(self.strsort(), z3.Function("fn_name", FnS, sort_of(self.strsort()))(o.z))
        kind = self.kind_name(o)
        if kind:
            if attr == "__class__":
                return TypeV(kind)
            return ExtV(kind + "." + attr, o)
        if isinstance(o, TypeV) and attr == "__name__":
            return Con(o.name)
        raise Unsupported("attribute %s of %r" % (attr, o))

    def ext_value(self, name):
        h = getattr(self.spec, "ext_values", {}).get(name)
        return h(self) if h else ExtV(name)

    def kind_name(self, o):
        if self.is_str(o):
            return "str"
        if isinstance(o, Con):
            return type(o.v).__name__
        if isinstance(o, Tup):
            return "tuple"
        if isinstance(o, (KwV,)):
            return "dict"
        if isinstance(o, V):
            k = prune(o.t).kind
            if k in ("list", "set", "dict", "int", "bool"):
                return k
            if k == "real":
                return "float"
        if isinstance(o, ViewV):
            return "view"
        return None

    def class_attr(self, cls, node, attr):
        if isinstance(node, load.Class):
            return ClassV(node)
        key = "classattr:%s.%s" % (cls.name, attr)
        if key not in self.default_objs:
            env = Env(func=E_ModFunc(cls.module))
            for n, f in cls.methods.items():
                env.vars[n] = FuncV(f)
            self.default_objs[key] = self.pristine(lambda: self.ev(node, env), key)
        return self.default_objs[key]

    def dispatch(self, o, name):
        """The method of an object, by cases over the classes it may have."""
        t = prune(o.t)
        cls, exact = t.args[0], t.args[1]
        if cls not in self.prog.classes:
            return None
        vc = getattr(self.spec, "virtuals", {})
        for c in self.mro(cls):
            if (c, name) in vc:
                f = self.find_method(cls, name)
                return BoundV(o, VirtualFunc(c, name, vc[(c, name)], f))
        if exact:
            f = self.find_method(cls, name)
            return BoundV(o, f) if f else None
        impls = {}
        for s in self.subclasses(cls):
            f = self.find_method(s, name)
            if f is None:
                impls.setdefault(None, []).append(s)
            else:
                impls.setdefault(f.key, (f, []))[1].append(s)
        if None in impls:
            if len(impls) == 1:
                return None
            raise Unsupported("method %s exists in some subclasses of %s only" % (name, cls))
        impls = list(impls.values())
        while len(impls) > 1:
            f, subs = impls.pop()
            if self.branch(z3.Or(*[cls_of(o.z) == self.class_id(s) for s in subs])):
                self.dispatched = True
                lub = subs[0]
                if len(subs) == 1:
                    return BoundV(V(Ref(lub, True), o.z), f)
                for s in subs:
                    if all(s in self.mro(x) for x in subs):
                        lub = s
                        return BoundV(V(Ref(lub), o.z), f)
                return BoundV(o, f)
        f, subs = impls[0]
        if len(subs) == 1:
            return BoundV(V(Ref(subs[0], True), o.z), f)
        return BoundV(o, f)

    def set_attr(self, o, attr, v):
        o = self.force(o)
        if isinstance(o, V) and prune(o.t).kind == "ref":
            cls = prune(o.t).args[0]
            for c in self.mro(cls):
                h = getattr(self.spec, "setattr_hooks", {}).get((c, attr))
                if h:
                    return h(self, o, v)
            key, t = self.field_key(cls, attr)
            if isinstance(v, V) and is_reflike(v.t) and is_reflike(prune(t)):
                self.unify(v.t, prune(t))
            elif isinstance(v, V) and prune(t).kind == "opt" and is_reflike(prune(t).args[0]) and is_reflike(v.t):
                self.unify(v.t, prune(t).args[0])
            keep = None
            if isinstance(v, (FuncV, BoundV, PartialV, Tup, KwV)) or (isinstance(v, Con)):
                keep = v
            elif isinstance(v, V) and (prune(t).kind == "any" or prune(t).kind == "opt"):
                keep = v
            self.hwrite(key, t, o.z, self.to_term(v, t), keep)
            return
        if isinstance(o, ModuleV):
            m = self.prog.modules.get(o.name)
            if m is not None:
                env = Env(func=E_ModFunc(m))
                env.globals.add(attr)
                return self.set_name(env, attr, v)
        raise Unsupported("assignment to attribute %s of %r" % (attr, o))

    def ext_attr(self, o, attr):
        return ExtV(o.name + "." + attr, o.recv)

    # ------------------------------------------------------------ calls
    def ev_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and (e.func is None or e.func.cls is None):
                e = e.parent
            f = e.func
            selfname = f.node.args.args[0].arg
            return SuperV(self.lookup(env, selfname), f.cls.name)
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(a.value, env))
                it = self.known_items(v)
                if it is None:
                    args.append(Star(v))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.force(self.ev(k.value, env))
                if isinstance(v, KwV):
                    for kk, vv in v.d.items():
                        if kk in kwargs:
                            raise PyRaise("TypeError")
                        kwargs[kk] = vv
                    if getattr(v, "rest", None) is not None:
                        kwargs["**"] = v.rest
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs, n)

    def call(self, f, args, kwargs, node):
        f = self.force(f)
        self.cur_call = node
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, BoundV):
            if isinstance(f.func, VirtualFunc):
                return f.func.handler(self, f.selfv, args, kwargs, node, f.func.func)
            return self.call_func(FuncV(f.func, getattr(f, "env", None)), [f.selfv] + list(args), kwargs, node)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(f.cls, args, kwargs, node)
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kwargs, node)
        if isinstance(f, V) and prune(f.t).kind == "fn":
            h = getattr(self.spec, "call_fn", None)
            if h is None:
                raise Unsupported("call of an unknown function")
            return h(self, f, args, kwargs, node)
        if isinstance(f, V) and prune(f.t).kind == "ref":
            m = self.dispatch(f, "__call__")
            if m is not None:
                return self.call(m, args, kwargs, node)
        if isinstance(f, V) and prune(f.t).kind == "any":
            h = getattr(self.spec, "call_any", None)
            if h is not None:
                return h(self, f, args, kwargs, node)
        if isinstance(f, Con):
            raise PyRaise("TypeError")
        if isinstance(f, TypeV):
            return self.call_ext(ExtV("builtins." + f.name), args, kwargs, node)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs, node):
        if any(b in E.EXC_BASES for b in self.mro(cls.name)):
            return ExcV(cls.name, args)
        h = getattr(self.spec, "constructors", {}).get(cls.name)
        if h:
            return h(self, args, kwargs, node)
        o = self.alloc(cls.name, Ref(cls.name, True))
        self.assume(cls_of(o.z) == self.class_id(cls.name))
        hd = self.field_decl(cls.name, "$dict")
        if hd:
            d = self.new_dict(self.site(node) if node is not None else ("hd",), *hd[1].args)
            self.hwrite("f:%s.$dict" % hd[0], hd[1], o.z, d.z)
        for c in self.mro(cls.name):
            ih = getattr(self.spec, "init_fields", {}).get(c)
            if ih:
                ih(self, o)
        init = self.find_method(cls.name, "__init__")
        if init:
            self.call_func(FuncV(init), [o] + list(args), kwargs, node)
        elif args or kwargs:
            raise PyRaise("TypeError")
        return o

    def default_value(self, fv, i, d, kw=False):
        f = fv.func
        if kw and fv.kwdefaults is not None:
            return fv.kwdefaults[i]
        if not kw and fv.defaults is not None:
            return fv.defaults[i]
        key = "default:%s:%s%d" % (f.key, "k" if kw else "", i)
        if key not in self.default_objs:
            env = Env(func=E_ModFunc(f.module))
            self.default_objs[key] = self.pristine(lambda: self.ev(d, env), key)
        return self.default_objs[key]

    def bind_args(self, fv, args, kwargs):
        f = fv.func
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        kwargs = dict(kwargs)
        star_kw = kwargs.pop("**", None)
        pos = list(args)
        star = None
        if any(isinstance(x, Star) for x in pos):
            if not isinstance(pos[-1], Star) or any(isinstance(x, Star) for x in pos[:-1]):
                raise Unsupported("starred argument in the middle")
            star = pos.pop().v
        n = min(len(pos), len(params))
        for i in range(n):
            bound[params[i]] = pos[i]
        extra = pos[n:]
        if star is not None:
            if len(pos) < len(params):
                # the rest of the parameters come from a sequence of unknown length
                missing = [p for p in params[n:] if p not in kwargs]
                ndef = len(a.defaults)
                ln = self.list_len(star)
                for idx, p in enumerate(missing):
                    if self.branch(ln > idx):
                        bound[p] = self.list_get(star, z3.IntVal(idx))
                    else:
                        break
                else:
                    idx = len(missing)
                if len(missing) and p not in bound:
                    star = None
                else:
                    star = self.get_slice(star, Con(len(missing)), None, None, None)
        if a.vararg:
            if star is not None:
                if extra:
                    st = self.new_list(extra, ("star", f.key), None)
                    star = self.list_concat(st, star, f.node)
                bound[a.vararg.arg] = star
            else:
                bound[a.vararg.arg] = Tup(extra)
        else:
            if extra:
                raise PyRaise("TypeError", Con("too many arguments"))
            if star is not None:
                if self.branch(self.list_len(star) > 0):
                    raise PyRaise("TypeError", Con("too many arguments"))
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in params and k not in [p.arg for p in a.posonlyargs] or k in kwonly:
                if k in bound:
                    raise PyRaise("TypeError", Con("multiple values for " + k))
                bound[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            kv = KwV(rest)
            kv.rest = star_kw
            bound[a.kwarg.arg] = kv
        else:
            if rest:
                raise PyRaise("TypeError", Con("unexpected keyword"))
            if star_kw is not None and not self.empty_map(star_kw):
                raise Unsupported("unknown keyword arguments")
        off = len(params) - len(a.defaults)
        for i, p in enumerate(params):
            if p not in bound:
                if i < off:
                    raise PyRaise("TypeError", Con("missing argument " + p))
                bound[p] = self.default_value(fv, i - off, a.defaults[i - off])
        for i, p in enumerate(kwonly):
            if p not in bound:
                if a.kw_defaults[i] is None:
                    raise PyRaise("TypeError", Con("missing argument " + p))
                bound[p] = self.default_value(fv, i, a.kw_defaults[i], True)
        return bound

    def empty_map(self, v):
        if isinstance(v, KwV):
            return not v.d
        if self.is_dict(v):
            t = prune(v.t)
            if isinstance(prune(t.args[0]), TVar):
                return True
            return self.valid(self.dict_dom(v) == z3.EmptySet(sort_of(t.args[0])))
        return False

    def call_func(self, fv, args, kwargs, node):
        f = fv.func
        bound = self.bind_args(fv, args, kwargs)
        if isinstance(f.node, ast.AsyncFunctionDef):
            return CoroV(lambda: self.enter(fv, bound, node), f.key, bound)
        return self.enter(fv, bound, node)

    def enter(self, fv, bound, node):
        f = fv.func
        c = self.spec.contracts.get(f.key)
        if c is not None and not (c.check_only and self.verifying is not c):
            return self.apply_contract(c, fv, bound, node)
        return self.inline(fv, bound)

    def inline(self, fv, bound):
        f = fv.func
        if f.key in self.call_stack:
            raise Unsupported("recursive function %s without a contract" % f.key)
        if len(self.call_stack) > self.MAX_DEPTH:
            raise Unsupported("call depth")
        self.inlined.add(f.key)
        return self.run_body(fv, bound)

    def run_body(self, fv, bound):
        f = fv.func
        env = Env(fv.env, f)
        env.localnames = local_names(f.node)
        env.vars.update(bound)
        self.call_stack.append(f.key)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            for n in walk_own(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    raise Unsupported("generator function")
            try:
                self.block(f.node.body, env)
            except ReturnX as r:
                return r.v
            return Con(None)
        finally:
            self.call_stack.pop()

    def coerce_args(self, c, bound):
        """Arguments at the types of the contract (as values)."""
        out = dict(bound)
        for n, t in c.params.items():
            if n in out:
                v = out[n]
                pt = prune(t)
                if isinstance(v, V) and is_reflike(pt) and is_reflike(prune(v.t)):
                    self.unify(v.t, pt)
                    if pt.kind == "ref" and prune(v.t).kind == "ref":
                        vt = prune(v.t)
                        if pt.args[0] not in self.mro(vt.args[0]) and vt.args[0] in self.prog.classes:
                            # a wider static type: the class must be right
                            self.prove(self.isinst(v.z, pt.args[0], pt.args[1]), "%s:type-of-%s" % (c.key, n))
                        continue
                    out[n] = V(pt, v.z)
                elif pt.kind in ("fn",):
                    continue
                elif pt.kind == "any":
                    out[n] = V(pt, self.to_any(v)) if not isinstance(v, Con) else v
                else:
                    if pt.kind == "tup" or pt.kind == "none":
                        continue
                    out[n] = V(pt, self.to_term(v, pt)) if not isinstance(v, Con) else v
                    if isinstance(v, Con):
                        self.to_term(v, pt)
        return out

    def apply_contract(self, c, fv, bound, node):
        if getattr(c, "select", None):
            c = c.select(self, bound) or c
        self.used_contracts.add(c.key)
        if c.assumed:
            self.assumptions.add("assumed contract: %s%s" % (c.key, (" (" + c.doc + ")") if c.doc else ""))
        args = self.coerce_args(c, bound)
        if c.apply is not None:
            return c.apply(self, args, fv, node)
        old = HeapView(self, self.heap)
        ctx = CallCtx(self, args, old)
        ctx.types = c.params
        ctx.env = fv.env
        if c.pre_call:
            c.pre_call(self, ctx)
            old = HeapView(self, self.heap)
            ctx = CallCtx(self, args, old)
            ctx.types = c.params
            ctx.env = fv.env
        for name, f in named(c.requires(ctx)):
            self.prove(f, "pre:%s:%s" % (short(c.key), name), assume_after=not getattr(self.spec, "forget_pre", False))
        dec = getattr(c, "decreases", None)
        if dec is not None and self.verifying is not None and getattr(self.verifying, "decreases", None) is not None and self.fn_old is not None:
            top = CallCtx(self, dict(self.fn_args), self.fn_old)
            top.types = self.verifying.params
            self.prove(z3.And(dec(ctx) >= 0, dec(ctx) < self.verifying.decreases(top)), "terminates:%s" % short(c.key))
        for exc, when, ens in raises_of(c):
            if self.choose():
                if when is not None:
                    self.assume(when(ctx))
                self.havoc(c, ctx)
                ctx2 = CallCtx(self, args, old, HeapView(self, self.heap), None, exc)
                ctx2.types = c.params
                ctx2.env = fv.env
                if ens is not None:
                    for name, f in named(ens(ctx2)):
                        self.assume(f)
                raise PyRaise(exc, Con("error status") if exc == "SystemExit" else None, c.key)
            elif when is not None and exc in getattr(c, "exact_raises", ()):
                self.assume(z3.Not(when(ctx)))
        self.havoc(c, ctx)
        res = self.freshv("res_" + short(c.key), c.ret) if c.ret is not None else Con(None)
        if isinstance(res, V):
            self.assume_class(res.z, res.t)
        ctx2 = CallCtx(self, args, old, HeapView(self, self.heap), res)
        ctx2.types = c.params
        ctx2.env = fv.env
        for name, f in named(c.ensures(ctx2)):
            self.assume(f)
        return res

    def havoc(self, c, ctx):
        """Forget what a call may modify."""
        mods = self.norm_mods(c.modifies(ctx))
        al = self.harr("G:alloc")
        nal = self.fresh("alloc", al.sort())
        x = z3.Const("hx", RefS)
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(al, x), z3.Select(nal, x)), patterns=[z3.Select(al, x)]))
        self.heap["G:alloc"] = nal
        self.writes.append(("heap", "G:alloc", None))
        for key, t, refs in mods:
            if key.startswith("G:") or key.startswith("V:"):
                s = self.ghost(key[2:]).sort() if key.startswith("G:") else self.harr(key, t).sort()
                self.heap[key] = self.fresh("hv_" + key, s)
                self.writes.append(("heap", key, None))
                continue
            a = self.harr(key, t)
            if refs is not None and refs != "new":
                n = a
                for r in refs:
                    fr = self.fresh("hv", a.sort().range())
                    n = z3.Store(n, r, fr)
                    self.writes.append(("heap", key, r))
                    if key == "L:len":
                        self.assume(fr >= 0)
                self.heap[key] = n
                self.shadow.pop(key, None)
            else:
                n = self.fresh("hv_" + key, a.sort())
                if refs == "new":
                    self.assume(z3.ForAll([x], z3.Implies(z3.Select(al, x), z3.Select(n, x) == z3.Select(a, x)), patterns=[z3.Select(n, x)]))
                    self.frames[n.get_id()] = (a, self.birth, n)
                elif callable(refs):
                    pass
                self.heap[key] = n
                self.writes.append(("heap", key, "new" if refs == "new" else None))
                self.shadow.pop(key, None)
                if key == "L:len":
                    self.assume(z3.ForAll([x], z3.Select(n, x) >= 0, patterns=[z3.Select(n, x)]))
        self.shadow.pop("items", None)

    def norm_mods(self, mods):
        """[(heap key, type, None | 'new' | [refs])]"""
        out = []
        for m in mods:
            k = m[0]
            if k == "field":
                key, t = self.field_key(m[1], m[2])
                out.append((key, t, m[3] if len(m) > 3 else None))
            elif k == "set":
                out.append(("S:" + tkey(m[2]), Set(m[2]), [m[1]] if not isinstance(m[1], (str, type(None))) else m[1]))
            elif k == "list":
                r = [m[1]] if not isinstance(m[1], (str, type(None))) else m[1]
                out.append(("L:len", None, r))
                out.append(("L:arr:" + tkey(m[2]), List(m[2]), r))
            elif k == "dict":
                r = [m[1]] if not isinstance(m[1], (str, type(None))) else m[1]
                t = Dict(m[2], m[3])
                kd, kv = self.dict_keys_(t)
                out.append((kd, t, r))
                out.append((kv, t, r))
            elif k == "ghost":
                out.append(("G:" + m[1], None, None))
            elif k == "global":
                out.append(("V:" + m[1], m[2], None))
            else:
                raise Unsupported("modifies %r" % (m,))
        return out

    # ------------------------------------------------------------ verification of one function
    def verify(self, c, label=None):
        f = self.prog.find(c.key)
        label = label or short(c.key)
        if f is None:
            if c.optional:
                return None
            self.label = label
            self.obligs.append(dict(unit=label, name="exists:" + c.key, ok=False, result="missing", detail="function is missing", time=0.0, where="", trace=[]))
            return 0
        self.verifying = c
        normal = []

        def run():
            self.verify_path(c, f, normal)
        n = self.explore(run, label)
        self.verifying = None
        if not normal and not getattr(c, "no_normal", False):
            self.label = label
            self.obligs.append(dict(unit=label, name="not-vacuous", ok=False, result="vacuous", detail="no path returns normally", time=0.0, where="", trace=[]))
        return n

    def make_args(self, c, f):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        bound = {}
        for n in names:
            if n in c.params:
                t = c.params[n]
                if callable(t) and not isinstance(t, Type):
                    bound[n] = t(self)
                else:
                    v = self.freshv("arg_" + n, t)
                    bound[n] = v
                    if isinstance(v, V):
                        self.assume_class(v.z, v.t)
            else:
                d = dict(zip([p.arg for p in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
                d.update({p.arg: k for p, k in zip(a.kwonlyargs, a.kw_defaults) if k is not None})
                if n in d:
                    env = Env(func=E_ModFunc(f.module))
                    bound[n] = self.pristine(lambda: self.ev(d[n], env), "default")
                else:
                    raise Unsupported("parameter %s of %s is not in the contract" % (n, c.key))
        for p in (a.vararg, a.kwarg):
            if p:
                if p.arg in c.params:
                    t = c.params[p.arg]
                    bound[p.arg] = t(self) if callable(t) and not isinstance(t, Type) else self.freshv("arg_" + p.arg, t)
                else:
                    bound[p.arg] = Tup([]) if p is a.vararg else KwV({})
        for n in c.params:
            if n not in bound and not n.startswith("$"):
                raise Unsupported("%s has no parameter %s" % (c.key, n))
        return bound

    def verify_path(self, c, f, normal):
        self.heap = {}
        bound = self.make_args(c, f)
        self.fn_args = dict(bound)
        if c.setup:
            c.setup(self, bound)
        old = HeapView(self, self.heap)
        ctx = CallCtx(self, dict(bound), old)
        ctx.types = c.params
        ctx.env = None
        for inv in getattr(self.spec, "global_facts", []):
            for name, g in named(inv(ctx)):
                self.assume(g)
        for name, g in named(c.requires(ctx)):
            self.assume(g)
        old = HeapView(self, self.heap)
        self.fn_old = old
        ctx.old = ctx.new = old
        self.entry_alloc = self.harr("G:alloc")
        fv = FuncV(f, None)
        self.writes = []
        try:
            res = self.run_body(fv, dict(bound))
            if isinstance(f.node, ast.AsyncFunctionDef):
                pass
        except PyRaise as p:
            self.check_exc(c, ctx, p, old, bound)
            return
        if c.ret is not None:
            rt = prune(c.ret)
            if isinstance(res, V) and is_reflike(rt) and is_reflike(prune(res.t)):
                self.unify(res.t, rt)
                if rt.kind == "ref" and prune(res.t).kind == "ref" and rt.args[0] not in self.mro(prune(res.t).args[0]):
                    self.prove(self.isinst(res.z, rt.args[0]), "result-type")
                    res = V(rt, res.z)
            elif rt.kind == "tup":
                res = self.force(res)
            elif not is_reflike(rt):
                res = V(rt, self.to_term(res, rt))
            else:
                if isinstance(res, V) and prune(res.t).kind in ("opt", "any"):
                    res = self.force(res)
                if not (isinstance(res, V) and is_reflike(prune(res.t))):
                    self.prove(False, "result-type", "returns %r, not %r" % (res, rt))
                    raise PathEnd()
        if c.ghost_exit:
            gctx = CallCtx(self, dict(bound), old, HeapView(self, self.heap), res)
            gctx.types = c.params
            c.ghost_exit(self, gctx)
        post = CallCtx(self, dict(bound), old, HeapView(self, self.heap), res)
        post.types = c.params
        post.env = None
        if getattr(c, "lemmas", None):
            for name, g in named(c.lemmas(post)):
                self.prove(g, "lemma:" + name)
        for name, g in named(c.ensures(post)):
            self.prove(g, name, assume_after=bool(getattr(c, "chain", False)))
        for exc, when, ens in raises_of(c):
            if when is not None and exc in getattr(c, "exact_raises", ()):
                self.prove(z3.Not(when(ctx)), "raises-%s-when" % exc, assume_after=False)
        self.check_frame(c, ctx)
        if not normal and self.phase == 2:
            r, _ = self.full_unsat([], 1500000)
            if r != "unsat":
                normal.append(1)

    def check_exc(self, c, ctx, p, old, bound):
        matched = False
        for exc, when, ens in raises_of(c):
            if exc in self.exc_bases(p.exc):
                matched = True
                if p.exc == "SystemExit" and not getattr(c, "any_status", False):
                    self.prove(self.error_status(p.value), "error-exit-status", "exit status %r at %s" % (p.value, p.where), assume_after=False)
                if when is not None:
                    self.prove(when(ctx), "raises:%s" % exc, "raised at %s" % (p.where,), assume_after=False)
                post = CallCtx(self, dict(bound), old, HeapView(self, self.heap), None, p.exc)
                post.types = c.params
                post.env = None
                if ens is not None:
                    for name, g in named(ens(post)):
                        self.prove(g, "on-%s:%s" % (exc, name), assume_after=False)
                self.check_frame(c, ctx)
                break
        if not matched:
            self.prove(False, "no-exception:%s" % p.exc, "raised at %s" % (p.where,), assume_after=False)

    def error_status(self, v):
        if isinstance(v, Con):
            if isinstance(v.v, bool) or v.v is None:
                return bool(v.v)
            if isinstance(v.v, int):
                return v.v % 256 != 0
            return True
        if isinstance(v, V) and prune(v.t).kind == "int":
            return v.z % 256 != 0
        return v is not None and not isinstance(v, V)

    def check_frame(self, c, ctx):
        if getattr(c, "no_frame", False):
            return  # only for contracts that are never used in place of the body
        mods = {}
        for key, t, refs in self.norm_mods(c.modifies(ctx)):
            mods.setdefault(key, []).append(refs)
        changed = set(w[1] for w in self.writes if w[0] == "heap")
        for key in sorted(changed):
            if key == "G:alloc":
                continue
            new = self.heap.get(key)
            oldh = self.fn_old.h.get(key)
            if key.startswith("G:"):
                if key in mods or key[2:] in getattr(c, "free_ghosts", ()):
                    continue
                self.prove(new == (oldh if oldh is not None else self.ghost_init(key[2:])), "frame:" + key, assume_after=False)
                continue
            if key.startswith("V:"):
                if key in mods:
                    continue
                o = oldh if oldh is not None else z3.Const(key + "@0", self._sorts[key])
                self.prove(new == o, "frame:" + key, assume_after=False)
                continue
            if key in mods and None in mods[key]:
                continue
            o = oldh if oldh is not None else z3.Const(key + "@0", self._sorts[key])
            if new is None or new.eq(o):
                continue
            x = self.fresh("fx", RefS)
            allowed = []
            for refs in mods.get(key, []):
                if refs != "new":
                    allowed += [x == r for r in refs]
            self.prove(z3.Implies(z3.And(z3.Select(self.entry_alloc, x), *[z3.Not(a) for a in allowed]), z3.Select(new, x) == z3.Select(o, x)), "frame:" + key, assume_after=False)

    # ------------------------------------------------------------ sub-exploration
    def sub_explore(self, run):
        """Explore run() from the current state in all ways; the state is restored afterwards.
        Returns a list of dict(pc, value, exc, writes, heap)."""
        base_pc = list(self.pc)
        base_heap = dict(self.heap)
        base_shadow = {k: dict(v) for k, v in self.shadow.items()}
        base_writes = list(self.writes)
        base_fresh = dict(self.fresh_refs)
        base_decisions, base_prefix = self.decisions, self.prefix
        outer_replay = self.replaying()
        saved_outer = getattr(self, "outer_replaying", False)
        self.outer_replaying = outer_replay
        birth0 = self.birth
        out = []
        stack = [[]]
        n = 0
        depth = len(self.call_stack)
        try:
            while stack:
                prefix = stack.pop()
                n += 1
                if n > 300:
                    raise Unsupported("more than 300 paths in an expression")
                self.pc = list(base_pc)
                self.heap = dict(base_heap)
                self.shadow = {k: dict(v) for k, v in base_shadow.items()}
                self.writes = []
                self.fresh_refs = dict(base_fresh)
                self.decisions = []
                self.prefix = prefix
                self.light.push()
                res = None
                try:
                    try:
                        v = run()
                        res = dict(value=v, exc=None)
                    except PyRaise as p:
                        res = dict(value=None, exc=p)
                    except PathEnd:
                        pass
                    except Unsupported as u:
                        # decided by the caller: impossible or not
                        r, d = self.full_unsat([])
                        if r != "unsat":
                            raise
                    if res is not None:
                        res.update(pc=self.pc[len(base_pc):], heap=self.heap, writes=list(self.writes), shadow=self.shadow,
                                   fresh=[r for k, r in self.fresh_refs.items() if k not in base_fresh], decisions=[d for d, _ in self.decisions])
                        out.append(res)
                finally:
                    self.light.pop()
                    del self.call_stack[depth:]
                for i in range(len(self.decisions) - 1, len(prefix) - 1, -1):
                    if self.decisions[i][1]:
                        stack.append([d for d, _ in self.decisions[:i]] + [not self.decisions[i][0]])
        finally:
            self.pc = base_pc
            self.heap = base_heap
            self.shadow = base_shadow
            self.writes = base_writes
            self.fresh_refs = base_fresh
            self.decisions, self.prefix = base_decisions, base_prefix
            self.outer_replaying = saved_outer
        for r in out:
            r["birth0"] = birth0
        return out

    def replaying(self):
        return getattr(self, "outer_replaying", False) or len(self.decisions) < len(self.prefix)


class VirtualFunc:
    def __init__(self, cls, name, handler, func):
        self.cls = cls
        self.name = name
        self.handler = handler
        self.func = func
        self.key = "%s.%s" % (cls, name)
        self.qualname = self.key


class E_ModFunc:
    """Stands for the function whose body is a module."""

    def __init__(self, mod):
        self.module = mod
        self.qualname = "<module>"
        self.key = mod.name + ":<module>"
        self.cls = None


def walk_own(node):
    """Nodes of a function without those of nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def named(fs):
    for i, f in enumerate(fs):
        if isinstance(f, tuple):
            yield f
        else:
            yield "%d" % i, f


def raises_of(c):
    for r in c.raises:
        if isinstance(r, str):
            yield r, None, None
        elif len(r) == 2:
            yield r[0], r[1], None
        else:
            yield r


def short(key):
    return key.split(":")[-1]
