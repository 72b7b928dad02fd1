"""Built-in functions, methods of containers and strings, and the assumed behaviour of the standard library."""
import ast
import string

import z3

from .vals import *
from .engine import *
from .interp import *
from .interp import Poison, zb, E_ModFunc
from .loops import Loops, Seq, Bag

os_join = z3.Function("os.path.join", StrS, StrS, StrS)
STRF = {}


def strfun(name, *sorts):
    if name not in STRF:
        STRF[name] = z3.Function(name, *sorts)
    return STRF[name]


def card(S):
    s = S.sort().domain()
    names = {RefS: "ref", StrS: "str"}
    n = names.get(s) or s.name()
    return z3.Function("card_" + n, S.sort(), z3.IntSort())(S)


class Verifier(Loops):

    def call_ext(self, f, args, kwargs, node):
        name = f.name
        sp = getattr(self.spec, "externals", {})
        for k in (name,):
            if k in sp:
                if not getattr(sp[k], "silent", False):
                    self.assumptions.add("library: " + k + ((": " + sp[k].__doc__.strip().split("\n")[0]) if sp[k].__doc__ else ""))
                return sp[k](self, f.recv, args, kwargs, node)
        m = getattr(self, "x_" + name.replace(".", "_"), None)
        if m is not None:
            if f.recv is not None or name.split(".")[0] in ("list", "dict", "set", "str", "tuple", "view", "bytes"):
                recv = f.recv
                if recv is None and args:
                    recv, args = args[0], args[1:]
                return m(recv, args, kwargs, node)
            return m(args, kwargs, node)
        if f.recv is not None and name.startswith("str."):
            return self.str_method(name[4:], f.recv, args, kwargs, node)
        if name.startswith("builtins.dict.") and args:
            return self.super_call(name[14:], args[0], args[1:], kwargs, node)
        if name.startswith("exc."):
            return ExcV(name[4:], args)
        if name.startswith("super."):
            return self.super_call(name[6:], f.recv, args, kwargs, node)
        raise Unsupported("call of " + name)

    def super_call(self, name, recv, args, kwargs, node):
        if name == "__init__":
            return Con(None)
        hd = self.hidden_dict(recv) if isinstance(recv, V) else None
        if hd is not None:
            return self.call_ext(ExtV("dict." + name, hd), args, kwargs, node)
        raise Unsupported("super()." + name)

    # ------------------------------------------------------------ builtins
    def x_builtins_print(self, args, kwargs, node):
        for a in args:
            a = self.force(a) if isinstance(a, V) and prune(a.t).kind == "opt" else a
        return Con(None)

    def x_builtins_len(self, args, kwargs, node):
        v = self.force(args[0])
        if isinstance(v, Con):
            if isinstance(v.v, (str, tuple)):
                return Con(len(v.v))
            raise PyRaise("TypeError")
        if isinstance(v, Tup):
            return Con(len(v.items))
        if isinstance(v, KwV):
            return Con(len(v.d))
        if isinstance(v, ViewV) and v.kind in ("keys", "values", "items"):
            v = self.force(v.args[0])
        if isinstance(v, V):
            t = prune(v.t)
            if t.kind == "list":
                n = self.list_len(v)
                c = self.const_int(n)
                return Con(c) if c is not None else V(INT, n)
            if t.kind in ("set", "dict"):
                if isinstance(prune(t.args[0]), TVar):
                    return Con(0)
                S = self.set_content(v) if t.kind == "set" else self.dict_dom(v)
                return V(INT, self.card(S))
            if t.kind == "sstr":
                return V(INT, z3.Length(v.z))
            if t.kind == "str":
                n = strfun("str_len", StrS, z3.IntSort())(v.z)
                self.assume(n >= 0)
                self.assume((n == 0) == (v.z == str_lit("")))
                return V(INT, n)
            if t.kind == "ref":
                m = self.find_method(t.args[0], "__len__")
                if m:
                    return self.call(BoundV(v, m), [], {}, node)
                hd = self.hidden_dict(v)
                if hd is not None:
                    return self.x_builtins_len([hd], {}, node)
        raise Unsupported("len of %r" % (v,))

    def card(self, S):
        c = card(S)
        x = z3.Const("cdx", S.sort().domain())
        self.assume(z3.And(c >= 0, (c == 0) == (S == z3.EmptySet(S.sort().domain()))))
        h = self.spec_hook("card", S, c)
        return c

    def x_builtins_str(self, args, kwargs, node):
        if not args:
            return Con("")
        return self.to_str(args[0])

    x_builtins_repr = x_builtins_str

    def x_builtins_bool(self, args, kwargs, node):
        if not args:
            return Con(False)
        t = self.truth(args[0])
        return Con(t) if isinstance(t, bool) else V(BOOL, t)

    def x_builtins_int(self, args, kwargs, node):
        v = self.force(args[0])
        if isinstance(v, Con) and isinstance(v.v, (int, float)):
            return Con(int(v.v))
        if isinstance(v, Con) and isinstance(v.v, str):
            try:
                return Con(int(v.v))
            except ValueError:
                raise PyRaise("ValueError")
        if isinstance(v, V) and prune(v.t).kind in ("int", "bool"):
            return V(INT, self.num(v, INT))
        if self.choose():
            raise PyRaise("ValueError")
        return V(INT, self.fresh("int", z3.IntSort()))

    def x_builtins_isinstance(self, args, kwargs, node):
        t = self.isinstance_(args[0], args[1])
        return Con(t) if isinstance(t, bool) else V(BOOL, t)

    def isinstance_(self, v, c):
        items = self.tuple_items(c) if not isinstance(c, (ClassV, ExtV, TypeV)) else None
        if items is not None:
            parts = [zb(self.isinstance_(v, x)) for x in items]
            return z3.simplify(z3.Or(*parts))
        if isinstance(v, V) and prune(v.t).kind == "opt":
            v = self.force(v)
        if isinstance(v, MaybeUnbound):
            v = self.unwrap_unbound(v, "?")
        name = c.cls.name if isinstance(c, ClassV) else (c.name.split(".")[-1] if isinstance(c, (ExtV, TypeV)) else None)
        if name is None:
            raise Unsupported("isinstance with %r" % (c,))
        if name == "object":
            return True
        if isinstance(v, ExcV):
            return name in self.exc_bases(v.exc)
        if isinstance(v, V):
            t = prune(v.t)
            k = t.kind
            if k == "any":
                m = {"str": self.strsort(), "int": INT, "float": REAL, "bool": BOOL}.get(name)
                if m is not None:
                    return isa(m, v.z)
                if name in ("list", "tuple", "set", "dict") or isinstance(c, ClassV) or "." in getattr(c, "name", ""):
                    return strfun("isa_cls_" + name, AnyS, z3.BoolSort())(v.z)
                raise Unsupported("isinstance of a value of unknown type and " + name)
            if k == "ref":
                if isinstance(c, ClassV):
                    if t.args[0] not in self.prog.classes:
                        h = self.spec_hook("isinstance", v, name)
                        if h is not None:
                            return h
                        return False
                    if name in self.mro(t.args[0]):
                        return True
                    if t.args[1]:
                        return False
                    subs = [s for s in self.subclasses(t.args[0]) if name in self.mro(s)]
                    if not subs:
                        return False
                    return z3.Or(*[cls_of(v.z) == self.class_id(s) for s in subs])
                if name in ("str", "int", "list", "tuple", "set", "bool", "float", "bytes"):
                    return False
                if name == "dict":
                    return self.hidden_dict(v) is not None
                h = self.spec_hook("isinstance", v, name)
                if h is not None:
                    return h
                return False
            if k == "fn":
                h = self.spec_hook("isinstance_fn", v, name)
                if h is not None:
                    return h
                raise Unsupported("isinstance of a function and " + name)
        kn = self.kind_name(v)
        if isinstance(v, (FuncV, BoundV, PartialV)):
            if name == "MethodType":
                return isinstance(v, BoundV)
            if name in ("FunctionType", "LambdaType"):
                return isinstance(v, FuncV)
            return False
        if kn is not None:
            if kn == "bool" and name == "int":
                return True
            return kn == name
        if isinstance(v, (ClassV, ModuleV, ExtV)):
            return False
        raise Unsupported("isinstance of %r" % (v,))

    def x_builtins_type(self, args, kwargs, node):
        return self.get_attr(args[0], "__class__")

    def x_builtins_callable(self, args, kwargs, node):
        v = self.force(args[0])
        if isinstance(v, (FuncV, BoundV, PartialV, ClassV)):
            return Con(True)
        if isinstance(v, Con):
            return Con(False)
        if isinstance(v, V) and prune(v.t).kind == "fn":
            return Con(True)
        raise Unsupported("callable")

    def has_attr(self, o, name):
        o = self.force(o)
        if isinstance(o, V) and prune(o.t).kind == "ref":
            cls = prune(o.t).args[0]
            h = self.spec_hook("hasattr", o, name)
            if h is not None:
                return h
            if self.field_decl(cls, name):
                return True
            have = [self.find_method(s, name) is not None or self.find_class_attr(s, name) is not None for s in ([cls] if prune(o.t).args[1] else self.subclasses(cls))]
            if all(have):
                return True
            if not any(have):
                return False
            raise Unsupported("hasattr(%s, %s)" % (cls, name))
        raise Unsupported("hasattr of %r" % (o,))

    def x_builtins_hasattr(self, args, kwargs, node):
        n = self.force(args[1])
        if not isinstance(n, Con):
            raise Unsupported("hasattr with an unknown name")
        t = self.has_attr(args[0], n.v)
        return Con(t) if isinstance(t, bool) else V(BOOL, t)

    def x_builtins_getattr(self, args, kwargs, node):
        n = self.force(args[1])
        h = self.spec_hook("getattr", args[0], n, args[2] if len(args) > 2 else None)
        if h is not None:
            return h
        if not isinstance(n, Con):
            raise Unsupported("getattr with an unknown name")
        if len(args) > 2:
            t = self.has_attr(args[0], n.v)
            if not self.branch(t):
                return args[2]
        return self.get_attr(args[0], n.v)

    def x_builtins_setattr(self, args, kwargs, node):
        n = self.force(args[1])
        if not isinstance(n, Con):
            raise Unsupported("setattr with an unknown name")
        self.set_attr(args[0], n.v, args[2])
        return Con(None)

    def x_builtins_list(self, args, kwargs, node):
        return self.to_list(args[0], node) if args else self.new_list([], self.site(node))

    def x_builtins_set(self, args, kwargs, node):
        return self.to_set(args[0], node) if args else self.new_set([], self.site(node))

    x_builtins_frozenset = x_builtins_set

    def x_builtins_tuple(self, args, kwargs, node):
        if not args:
            return Tup([])
        it = self.known_items(self.force(args[0]))
        if it is not None:
            return Tup(it)
        return self.to_list(args[0], node)

    def x_builtins_dict(self, args, kwargs, node):
        if args:
            o = self.force(args[0])
            if self.is_dict(o) or isinstance(o, KwV):
                d = self.x_dict_copy(o, [], {}, node)
            else:
                raise Unsupported("dict(%r)" % (o,))
        elif kwargs and "**" not in kwargs:
            return KwV(kwargs)
        else:
            d = self.new_dict(self.site(node))
        for k, v in kwargs.items():
            self.set_item(d, Con(k), v)
        return d

    def x_builtins_range(self, args, kwargs, node):
        a = [self.num(self.force(x), INT) for x in args]
        if len(a) == 1:
            return ViewV("range", z3.IntVal(0), a[0])
        if len(a) == 2:
            return ViewV("range", a[0], a[1])
        raise Unsupported("range with a step")

    def x_builtins_enumerate(self, args, kwargs, node):
        return ViewV("enumerate", args[0], args[1] if len(args) > 1 else kwargs.get("start", Con(0)))

    def x_builtins_zip(self, args, kwargs, node):
        return ViewV("zip", *args)

    def x_builtins_map(self, args, kwargs, node):
        if len(args) != 2:
            raise Unsupported("map of several iterables")
        return ViewV("map", args[0], args[1])

    def x_builtins_filter(self, args, kwargs, node):
        return ViewV("filter", args[0], args[1])

    def x_builtins_reversed(self, args, kwargs, node):
        return ViewV("reversed", args[0])

    def x_builtins_iter(self, args, kwargs, node):
        return args[0]

    def x_builtins_all(self, args, kwargs, node):
        return self.all_any(args[0], True, node)

    def x_builtins_any(self, args, kwargs, node):
        return self.all_any(args[0], False, node)

    def all_any(self, v, is_all, node):
        v = self.force(v)
        if isinstance(v, GenV):
            l = self.to_list(v, node, True)
        elif isinstance(v, ViewV) and v.kind == "map":
            src = self.iter_source(v.args[1], node)

            def one(x):
                t = self.truth(self.call(v.args[0], [x], {}, node))
                return Con(t) if isinstance(t, bool) else V(BOOL, t)
            l = self.comprehend("list", src, one, node, False)
        else:
            l = v
        src = self.iter_source(l, node)
        if src.items is not None:
            for x in src.items:
                if self.truthy(x) != is_all:
                    return Con(not is_all)
            return Con(is_all)
        i = z3.Const("aai", src.isort)
        if src.kind == "seq" and tkey(src.elem) == "bool":
            b = z3.Select(src.array(), i)
        else:
            b = zb(self.truth(src.get(i)))
        if is_all:
            return V(BOOL, z3.ForAll([i], z3.Implies(src.in_range(i), b)))
        return V(BOOL, z3.Exists([i], z3.And(src.in_range(i), b)))

    def x_builtins_sum(self, args, kwargs, node):
        src = self.iter_source(self.to_list(args[0], node) if isinstance(args[0], (GenV, ViewV)) else args[0], node)
        if src.items is not None:
            r = args[1] if len(args) > 1 else Con(0)
            for x in src.items:
                r = self.binop(ast.Add(), r, x, node)
            return r
        raise Unsupported("sum over an unknown collection")

    def x_builtins_max(self, args, kwargs, node):
        return self.minmax(args, kwargs, node, True)

    def x_builtins_min(self, args, kwargs, node):
        return self.minmax(args, kwargs, node, False)

    def minmax(self, args, kwargs, node, is_max):
        if kwargs.get("key") is not None:
            raise Unsupported("max with a key")
        if len(args) > 1:
            items = args
        else:
            l = args[0]
            if isinstance(l, (GenV, ViewV)):
                l = self.to_list(l, node)
            src = self.iter_source(l, node)
            if src.items is None:
                if src.kind == "bag":
                    src = self.as_seq(src)
                n = src.n()
                if "default" in kwargs:
                    if not self.branch(n > 0):
                        return kwargs["default"]
                elif not self.branch(n > 0):
                    raise PyRaise("ValueError")
                t = prune(src.elem)
                if t.kind not in ("int", "real"):
                    raise Unsupported("max of %r" % t)
                m = self.fresh("max", sort_of(t))
                i = z3.Int("mxi")
                w = self.fresh("argmax", z3.IntSort())
                arr = src.array()
                c = (lambda a, b: a <= b) if is_max else (lambda a, b: a >= b)
                self.assume(z3.And(0 <= w, w < n, z3.Select(arr, w) == m))
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), c(z3.Select(arr, i), m)), patterns=[z3.Select(arr, i)]))
                return V(t, m)
            items = src.items
            if not items:
                if "default" in kwargs:
                    return kwargs["default"]
                raise PyRaise("ValueError")
        r = items[0]
        for x in items[1:]:
            c = self.compare(ast.Gt() if is_max else ast.Lt(), x, r)
            if isinstance(c, bool):
                r = x if c else r
            else:
                t = self.join_type(self.type_of(x), self.type_of(r))
                r = V(t, z3.If(c, self.num(x, t), self.num(r, t)))
        return r

    def x_builtins_abs(self, args, kwargs, node):
        v = self.force(args[0])
        z = self.num(v, self.type_of(v))
        return V(self.type_of(v), z3.If(z < 0, -z, z))

    def x_builtins_sorted(self, args, kwargs, node):
        l = args[0]
        src = self.iter_source(l if not isinstance(l, (GenV,)) else self.to_list(l, node), node)
        if src.items is not None and len(src.items) <= 1 and src.items == []:
            return self.new_list([], self.site(node))
        if src.items is not None:
            lst = self.new_list(src.items, self.site(node))
            src = Seq(lambda: self.list_len(lst), lambda i: self.list_get(lst, i), None, lst, lst.t.args[0], lambda: self.list_arr(lst))
        if src.elem is None or src.kind == "seq" and src.array is None:
            lst = self.to_list(l, node)
            src = self.iter_source(lst, node)
        # a permutation of the elements
        et = prune(src.elem)
        es = sort_of(et)
        r = self.alloc("list", List(et))
        arr = self.fresh("sorted", z3.ArraySort(z3.IntSort(), es))
        n = self.fresh("sorted_n", z3.IntSort())
        j, k = z3.Int("srj"), z3.Int("srk")
        self.assume(n >= 0)
        if src.kind == "bag":
            S = src.cur()
            pos = z3.Function("spos!%d" % self.bump(), es, z3.IntSort())
            x = z3.Const("srx", es)
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(z3.Select(S, z3.Select(arr, j)), pos(z3.Select(arr, j)) == j)), patterns=[z3.Select(arr, j)]))
            self.assume(z3.ForAll([x], z3.Implies(z3.Select(S, x), z3.And(0 <= pos(x), pos(x) < n, z3.Select(arr, pos(x)) == x)), patterns=[z3.Select(S, x)]))
            self.assume(n == self.card(S))
            strict = True
        else:
            a0 = src.array()
            self.assume(n == src.n())
            f = z3.Function("sfrom!%d" % self.bump(), z3.IntSort(), z3.IntSort())
            g = z3.Function("sto!%d" % self.bump(), z3.IntSort(), z3.IntSort())
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= f(j), f(j) < n, g(f(j)) == j, z3.Select(arr, j) == z3.Select(a0, f(j)))), patterns=[z3.Select(arr, j)]))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= g(j), g(j) < n, f(g(j)) == j, z3.Select(arr, g(j)) == z3.Select(a0, j))), patterns=[z3.Select(a0, j)]))
            strict = False
        key = kwargs.get("key")
        if et.kind == "str" and key is None and not kwargs.get("reverse"):
            self.ext_state["str_order"] = True
            lt = str_lt(z3.Select(arr, j), z3.Select(arr, k))
            if not strict:
                lt = z3.Or(lt, z3.Select(arr, j) == z3.Select(arr, k))
            self.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), lt), patterns=[z3.MultiPattern(z3.Select(arr, j), z3.Select(arr, k))]))
        self.list_write(r, n, arr)
        return r

    def x_builtins_exit(self, args, kwargs, node):
        raise PyRaise("SystemExit", args[0] if args else Con(None), self.where())

    x_builtins_quit = x_builtins_exit
    x_sys_exit = x_builtins_exit

    def x_builtins_id(self, args, kwargs, node):
        return V(INT, self.fresh("id", z3.IntSort()))

    def x_builtins_chr(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Con):
            return Con(chr(v.v))
        return self.opaque_str("chr", [v])

    def x_functools_partial(self, args, kwargs, node):
        return PartialV(args[0], list(args[1:]), dict(kwargs))

    def x_traceback_print_exc(self, args, kwargs, node):
        return Con(None)

    def x_sys_stdout_flush(self, args, kwargs, node):
        return Con(None)

    x_sys_stderr_flush = x_sys_stdout_flush
    x_warnings_warn = x_sys_stdout_flush

    # ------------------------------------------------------------ lists
    def x_list_append(self, o, args, kwargs, node):
        self.list_append(o, args[0])
        return Con(None)

    def x_list_extend(self, o, args, kwargs, node):
        self.list_extend(o, args[0])
        return Con(None)

    def x_list_copy(self, o, args, kwargs, node):
        return self.to_list(o, node)

    def x_list_clear(self, o, args, kwargs, node):
        self.list_write(o, z3.IntVal(0), None)
        return Con(None)

    def x_list_pop(self, o, args, kwargs, node):
        n = self.list_len(o)
        if isinstance(prune(prune(o.t).args[0]), TVar):
            raise PyRaise("IndexError")
        if not self.branch(n > 0):
            raise PyRaise("IndexError")
        i = self.force(args[0]) if args else Con(-1)
        if isinstance(i, Con) and i.v == -1:
            x = self.list_get(o, z3.simplify(n - 1))
            self.list_write(o, z3.simplify(n - 1), None)
            return x
        if isinstance(i, Con) and i.v == 0:
            x = self.list_get(o, z3.IntVal(0))
            a = self.list_arr(o)
            arr = self.fresh("shift", a.sort())
            j = z3.Int("shj")
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), z3.Select(arr, j) == z3.Select(a, j + 1)), patterns=[z3.Select(arr, j)]))
            self.assume(z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < n), z3.Select(arr, j - 1) == z3.Select(a, j)), patterns=[z3.Select(a, j)]))
            self.list_write(o, z3.simplify(n - 1), arr)
            return x
        raise Unsupported("list.pop at an index")

    def x_list_insert(self, o, args, kwargs, node):
        i = self.force(args[0])
        self.learn_elem(o, 0, args[1])
        if not (isinstance(i, Con) and i.v == 0):
            raise Unsupported("list.insert")
        n = self.list_len(o)
        t = prune(prune(o.t).args[0])
        a = self.list_arr(o)
        arr = self.fresh("insert", a.sort())
        j = z3.Int("inj")
        self.assume(z3.Select(arr, 0) == self.to_term(args[1], t))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j + 1) == z3.Select(a, j)), patterns=[z3.Select(a, j)]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= n), z3.Select(arr, j) == z3.Select(a, j - 1)), patterns=[z3.Select(arr, j)]))
        self.list_write(o, z3.simplify(n + 1), arr)
        return Con(None)

    def x_list_index(self, o, args, kwargs, node):
        x = args[0]
        if not self.branch(zb(self.contains(o, x))):
            raise PyRaise("ValueError")
        i = self.fresh("index", z3.IntSort())
        t = prune(prune(o.t).args[0])
        z = self.key_term(x, t)
        j = z3.Int("ixj")
        self.assume(z3.And(0 <= i, i < self.list_len(o), z3.Select(self.list_arr(o), i) == z))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Select(self.list_arr(o), j) != z)))
        return V(INT, i)

    def x_list_count(self, o, args, kwargs, node):
        raise Unsupported("list.count")

    def x_list_sort(self, o, args, kwargs, node):
        r = self.x_builtins_sorted([o], kwargs, node)
        self.list_write(o, self.list_len(r), self.list_arr(r))
        return Con(None)

    # ------------------------------------------------------------ sets
    def x_set_add(self, o, args, kwargs, node):
        x = self.force(args[0])
        self.learn_elem(o, 0, x)
        t = prune(prune(o.t).args[0])
        self.set_write(o, z3.Store(self.set_content(o), self.key_term(x, t), z3.BoolVal(True)))
        return Con(None)

    def x_set_discard(self, o, args, kwargs, node):
        t = prune(prune(o.t).args[0])
        if isinstance(t, TVar):
            return Con(None)
        self.set_write(o, z3.Store(self.set_content(o), self.key_term(args[0], t), z3.BoolVal(False)))
        return Con(None)

    def x_set_remove(self, o, args, kwargs, node):
        if not self.branch(zb(self.contains(o, args[0]))):
            raise PyRaise("KeyError")
        return self.x_set_discard(o, args, kwargs, node)

    def x_set_copy(self, o, args, kwargs, node):
        return self.to_set(o, node)

    def x_set_clear(self, o, args, kwargs, node):
        t = prune(prune(o.t).args[0])
        if not isinstance(t, TVar):
            self.set_write(o, z3.EmptySet(sort_of(t)))
        return Con(None)

    def x_set_pop(self, o, args, kwargs, node):
        t = prune(prune(o.t).args[0])
        S = self.set_content(o)
        if not self.branch(S != z3.EmptySet(sort_of(t))):
            raise PyRaise("KeyError")
        x = self.fresh("popped", sort_of(t))
        self.assume(z3.Select(S, x))
        self.set_write(o, z3.Store(S, x, z3.BoolVal(False)))
        return self.from_term(x, t)

    def x_set_union(self, o, args, kwargs, node):
        r = self.to_set(o, node)
        for a in args:
            r = self.set_op("union", r, self.to_set(a, node), node)
        return r

    def x_set_difference(self, o, args, kwargs, node):
        r = self.to_set(o, node)
        for a in args:
            r = self.set_op("difference", r, self.to_set(a, node), node)
        return r

    def x_set_intersection(self, o, args, kwargs, node):
        r = self.to_set(o, node)
        for a in args:
            r = self.set_op("intersection", r, self.to_set(a, node), node)
        return r

    def x_set_update(self, o, args, kwargs, node):
        for a in args:
            s = self.to_set(a, node)
            tb = prune(prune(s.t).args[0])
            if isinstance(tb, TVar):
                continue
            if isinstance(prune(prune(o.t).args[0]), TVar):
                self.unify(o.t.args[0], tb)
            self.set_write(o, z3.SetUnion(self.set_content(o), self.set_content(s)))
        return Con(None)

    def x_set_difference_update(self, o, args, kwargs, node):
        for a in args:
            s = self.to_set(a, node)
            if isinstance(prune(prune(s.t).args[0]), TVar) or isinstance(prune(prune(o.t).args[0]), TVar):
                continue
            self.set_write(o, z3.SetDifference(self.set_content(o), self.set_content(s)))
        return Con(None)

    def x_set_issubset(self, o, args, kwargs, node):
        s = self.to_set(args[0], node)
        return V(BOOL, z3.IsSubset(self.set_content(o), self.set_content(s)))

    # ------------------------------------------------------------ dictionaries
    def x_dict_get(self, o, args, kwargs, node):
        d = args[1] if len(args) > 1 else Con(None)
        if isinstance(o, KwV):
            k = self.force(args[0])
            if isinstance(k, Con):
                return o.d.get(k.v, d)
        if not self.branch(zb(self.contains(o, args[0]))):
            return d
        return self.get_item(o, args[0])

    def x_dict___getitem__(self, o, args, kwargs, node):
        if isinstance(o, V) and prune(o.t).kind == "ref":
            o = self.hidden_dict(o)
        return self.get_item(o, args[0])

    def x_dict___setitem__(self, o, args, kwargs, node):
        if isinstance(o, V) and prune(o.t).kind == "ref":
            o = self.hidden_dict(o)
        self.set_item(o, args[0], args[1])
        return Con(None)

    def x_dict___init__(self, o, args, kwargs, node):
        return Con(None)

    def x_dict_keys(self, o, args, kwargs, node):
        return ViewV("keys", o)

    def x_dict_values(self, o, args, kwargs, node):
        return ViewV("values", o)

    def x_dict_items(self, o, args, kwargs, node):
        return ViewV("items", o)

    def x_dict_update(self, o, args, kwargs, node):
        if args:
            self.dict_update(o, args[0])
        for k, v in kwargs.items():
            self.set_item(o, Con(k), v)
        return Con(None)

    def x_dict_copy(self, o, args, kwargs, node):
        if isinstance(o, KwV):
            r = KwV(o.d)
            r.rest = getattr(o, "rest", None)
            return r
        t = prune(o.t)
        r = self.alloc("dict", Dict(*o.t.args))
        if not isinstance(prune(t.args[0]), TVar):
            kd, kv = self.dict_keys_(t)
            self.hwrite(kd, t, r.z, self.dict_dom(o))
            self.hwrite(kv, t, r.z, self.dict_val(o))
        return r

    def x_dict_pop(self, o, args, kwargs, node):
        if isinstance(o, KwV) and isinstance(args[0], Con):
            if args[0].v in o.d:
                return o.d.pop(args[0].v)
            if len(args) > 1:
                return args[1]
            raise PyRaise("KeyError")
        if not self.branch(zb(self.contains(o, args[0]))):
            if len(args) > 1:
                return args[1]
            raise PyRaise("KeyError", args[0])
        v = self.get_item(o, args[0])
        self.del_item(o, args[0])
        return v

    def x_dict_setdefault(self, o, args, kwargs, node):
        d = args[1] if len(args) > 1 else Con(None)
        if isinstance(o, KwV) and isinstance(args[0], Con):
            return o.d.setdefault(args[0].v, d)
        if not self.branch(zb(self.contains(o, args[0]))):
            self.set_item(o, args[0], d)
            return d
        return self.get_item(o, args[0])

    def x_dict_clear(self, o, args, kwargs, node):
        t = prune(o.t)
        if not isinstance(prune(t.args[0]), TVar):
            self.hwrite(self.dict_keys_(t)[0], t, o.z, z3.EmptySet(sort_of(t.args[0])))
        return Con(None)

    # ------------------------------------------------------------ strings
    def format_known(self, recv, args, kwargs):
        """A known template whose plain fields are given strings."""
        if not isinstance(recv, Con) or not isinstance(recv.v, str):
            return None
        out, k = [Con("")], 0
        try:
            fields = list(string.Formatter().parse(recv.v))
        except ValueError:
            return None
        for text, field, spec, conv in fields:
            out.append(Con(text))
            if field is None:
                continue
            if spec or conv:
                return None
            if field == "":
                field = str(k)
                k += 1
            if field.isdigit() and int(field) < len(args):
                x = self.force(args[int(field)])
            elif field in kwargs:
                x = self.force(kwargs[field])
            else:
                return None
            if not self.is_str(x):
                return None
            out.append(x)
        r = out[0]
        for x in out[1:]:
            r = self.concat(r, x)
        return r

    def str_method(self, name, recv, args, kwargs, node):
        recv = self.force(recv)
        args = [self.force(a) for a in args]
        if isinstance(recv, Con) and all(isinstance(a, Con) for a in args) and not kwargs and name not in ("format", "join"):
            r = getattr(recv.v, name)(*[a.v for a in args])
            if isinstance(r, list):
                return self.new_list([Con(x) for x in r], self.site(node))
            if isinstance(r, tuple):
                return Tup([Con(x) for x in r])
            return Con(r)
        h = self.spec_hook("str_method", name, recv, args, kwargs, node)
        if h is not None:
            return h
        t = self.strsort()
        if name == "format":
            return self.format_known(recv, args, kwargs) or self.opaque_str("format", args)
        if name == "join":
            l = args[0]
            items = None
            if not isinstance(l, (GenV, ViewV)):
                items = self.known_items(l)
            if items is None:
                l = self.to_list(l, node)
                items = self.list_items(l)
            if items is not None:
                if not items:
                    return Con("")
                r = items[0]
                for x in items[1:]:
                    if not (isinstance(recv, Con) and recv.v == ""):
                        r = self.concat(r, recv)
                    r = self.concat(r, x)
                return r
            if t is STR:
                lt = prune(prune(l.t).args[0])
                if lt.kind != "str":
                    raise Unsupported("join of %r" % lt)
                f = strfun("str_join", StrS, z3.IntSort(), z3.ArraySort(z3.IntSort(), StrS), StrS)
                return V(STR, f(self.to_term(recv, STR), self.list_len(l), self.list_arr(l)))
            raise Unsupported("join of an unknown list")
        if t is SSTR:
            z = self.to_term(recv, SSTR)
            if name == "startswith" and len(args) == 1 and self.is_str(args[0]):
                return V(BOOL, z3.PrefixOf(self.to_term(args[0], SSTR), z))
            if name == "endswith" and len(args) == 1 and self.is_str(args[0]):
                return V(BOOL, z3.SuffixOf(self.to_term(args[0], SSTR), z))
        bools = ("startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace")
        strs = ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "capitalize", "expandtabs", "zfill")
        if t is STR and all(self.is_str(a) for a in args):
            zs = [self.to_term(a, STR) for a in [recv] + args]
            if name in bools:
                return V(BOOL, strfun("str_%s_%d" % (name, len(zs)), *([StrS] * len(zs) + [z3.BoolSort()]))(*zs))
            if name in strs:
                return V(STR, strfun("str_%s_%d" % (name, len(zs)), *([StrS] * len(zs) + [StrS]))(*zs))
            if name == "split" and len(zs) <= 2:
                # a list of at least one element (with a separator), determined by the arguments
                fn = strfun("str_split_n%d" % len(zs), *([StrS] * len(zs) + [z3.IntSort()]))
                fa = strfun("str_split_a%d" % len(zs), *([StrS] * len(zs) + [z3.ArraySort(z3.IntSort(), StrS)]))
                r = self.alloc("list", List(STR))
                n = fn(*zs)
                self.assume(n >= (1 if len(zs) == 2 else 0))
                self.list_write(r, n, fa(*zs))
                return r
            if name == "encode":
                return V(ANY, self.fresh("bytes", AnyS))
        raise Unsupported("str.%s" % name)

    # ------------------------------------------------------------ library functions of names only
    def pure_str(self, name, args, ret=None):
        """A function of strings without effects, determined by its arguments."""
        self.assumptions.add("library: %s is a function of its arguments (and of the unchanged file system)" % name)
        t = self.strsort()
        zs = []
        for a in args:
            a = self.force(a)
            if isinstance(a, V) and prune(a.t).kind == "any":
                a = self.any_as_str(a)
            if not self.is_str(a):
                raise PyRaise("TypeError")
            zs.append(self.to_term(a, t))
        ret = ret or t
        s = sort_of(t)
        return V(ret, strfun("%s/%d" % (name, len(zs)), *([s] * len(zs) + [sort_of(ret)]))(*zs))

    def x_os_path_join(self, args, kwargs, node):
        r = args[0]
        for a in args[1:]:
            r = self.pure_str("os.path.join", [r, a])
        return r

    def x_os_path_dirname(self, args, kwargs, node):
        return self.pure_str("os.path.dirname", args)

    def x_os_path_basename(self, args, kwargs, node):
        return self.pure_str("os.path.basename", args)

    def x_os_path_normpath(self, args, kwargs, node):
        return self.pure_str("os.path.normpath", args)

    def x_os_path_abspath(self, args, kwargs, node):
        return self.pure_str("os.path.abspath", args)

    def x_os_path_realpath(self, args, kwargs, node):
        return self.pure_str("os.path.realpath", args)

    def x_os_path_expanduser(self, args, kwargs, node):
        return self.pure_str("os.path.expanduser", args)

    def x_os_path_relpath(self, args, kwargs, node):
        return self.pure_str("os.path.relpath", args)

    def x_os_path_isabs(self, args, kwargs, node):
        return self.pure_str("os.path.isabs", args, BOOL)

    def x_os_path_split(self, args, kwargs, node):
        return Tup([self.pure_str("os.path.dirname", args), self.pure_str("os.path.basename", args)])

    def x_os_path_splitext(self, args, kwargs, node):
        return Tup([self.pure_str("os.path.splitext0", args), self.pure_str("os.path.splitext1", args)])

    def x_shlex_quote(self, args, kwargs, node):
        return self.pure_str("shlex.quote", args)
