"""Types, sorts and values of the symbolic interpreter."""
import z3

RefS = z3.DeclareSort("Ref")
StrS = z3.DeclareSort("PyStr")
AnyS = z3.DeclareSort("PyAny")
FnS = z3.DeclareSort("PyFn")
null = z3.Const("null", RefS)
any_none = z3.Const("any_None", AnyS)
any_true = z3.Const("any_True", AnyS)
any_false = z3.Const("any_False", AnyS)
any_truthy = z3.Function("any_truthy", AnyS, z3.BoolSort())


class Type:
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        return self.kind + ("[" + ",".join(map(str, self.args)) + "]" if self.args else "")

    def __eq__(self, o):
        return isinstance(o, Type) and repr(prune(self)) == repr(prune(o))

    def __hash__(self):
        return hash(repr(prune(self)))


class TVar:
    """Element type of a container literal that is not known yet."""
    n = 0

    def __init__(self, site=None):
        self.site = site
        self.val = None
        TVar.n += 1
        self.id = TVar.n

    def __repr__(self):
        return repr(self.val) if self.val is not None else "?%d" % self.id


def prune(t):
    while isinstance(t, TVar) and t.val is not None:
        t = t.val
    if isinstance(t, Type) and t.args and t.kind != "ref":
        return Type(t.kind, *[prune(a) for a in t.args])
    return t


INT = Type("int")
REAL = Type("real")
BOOL = Type("bool")
STR = Type("str")
SSTR = Type("sstr")     # strings in the theory of sequences
NONE = Type("none")
ANY = Type("any")
FN = Type("fn")


def Ref(cls, exact=False):
    return Type("ref", cls, exact)


def List(t):
    return Type("list", t)


def Set(t):
    return Type("set", t)


def Dict(k, v):
    return Type("dict", k, v)


def Opt(t):
    return Type("opt", t)


def TupT(*ts):
    return Type("tup", *ts)


REFLIKE = ("ref", "list", "set", "dict")
_opt = {}
_tup = {}


def is_reflike(t):
    t = prune(t)
    return isinstance(t, Type) and t.kind in REFLIKE


def tkey(t):
    """Name of the sort class of an element type, used in heap keys."""
    t = prune(t)
    if t.kind in REFLIKE or (t.kind == "opt" and is_reflike(t.args[0])):
        return "ref"
    if t.kind == "opt":
        return "opt_" + tkey(t.args[0])
    if t.kind == "tup":
        return "tup_" + "_".join(tkey(a) for a in t.args)
    return t.kind


def sort_of(t):
    t = prune(t)
    if isinstance(t, TVar):
        raise TypeError("unknown element type")
    k = t.kind
    if k in REFLIKE:
        return RefS
    if k == "int":
        return z3.IntSort()
    if k == "real":
        return z3.RealSort()
    if k == "bool":
        return z3.BoolSort()
    if k == "str":
        return StrS
    if k == "sstr":
        return z3.StringSort()
    if k == "any":
        return AnyS
    if k == "fn":
        return FnS
    if k == "opt":
        if is_reflike(t.args[0]):
            return RefS
        return opt_dt(t.args[0])[0]
    if k == "tup":
        return tup_dt(t)[0]
    raise TypeError("no sort for %r" % t)


def opt_dt(t):
    n = "Opt_" + tkey(t)
    if n not in _opt:
        d = z3.Datatype(n)
        d.declare("none_" + n)
        d.declare("some_" + n, ("val_" + n, sort_of(t)))
        d = d.create()
        _opt[n] = (d, getattr(d, "none_" + n), getattr(d, "some_" + n), getattr(d, "val_" + n), getattr(d, "is_none_" + n))
    return _opt[n]


def tup_dt(t):
    n = tkey(t)
    if n not in _tup:
        d = z3.Datatype(n)
        d.declare("mk_" + n, *[("%s_%d" % (n, i), sort_of(a)) for i, a in enumerate(t.args)])
        d = d.create()
        _tup[n] = (d, getattr(d, "mk_" + n), [getattr(d, "%s_%d" % (n, i)) for i in range(len(t.args))])
    return _tup[n]


_lits = {}


def str_lit(s):
    if s not in _lits:
        z = _lits[s] = z3.Const("str:" + repr(s), StrS)
        _lit_text[z.get_id()] = (z, s)
    return _lits[s]


_lit_text = {}


def lit_text(z):
    """The text of a literal, or None."""
    r = _lit_text.get(z.get_id())
    return r[1] if r is not None else None


_box = {}


def box(t, term):
    """Injection of a typed term into the sort of arbitrary values."""
    k = tkey(t)
    if k == "any":
        return term
    if k == "bool":
        return z3.If(term, any_true, any_false)
    if k not in _box:
        s = sort_of(t)
        _box[k] = (z3.Function("box_" + k, s, AnyS), z3.Function("unbox_" + k, AnyS, s), z3.Function("isa_" + k, AnyS, z3.BoolSort()), s)
    return _box[k][0](term)


def unbox(t, term):
    box(t, z3.Const("x", sort_of(t)))
    return _box[tkey(t)][1](term)


def isa(t, term):
    if tkey(t) == "bool":
        return z3.Or(term == any_true, term == any_false)
    box(t, z3.Const("x", sort_of(t)))
    return _box[tkey(t)][2](term)


def base_axioms():
    ax = [z3.Distinct(any_none, any_true, any_false), z3.Not(any_truthy(any_none)), any_truthy(any_true), z3.Not(any_truthy(any_false))]
    lits = list(_lits.values())
    if len(lits) > 1:
        ax.append(z3.Distinct(*lits))
    ks = sorted(_box)
    for k in ks:
        b, u, i, s = _box[k]
        x = z3.Const("bx_" + k, s)
        facts = [u(b(x)) == x, i(b(x)), b(x) != any_none, b(x) != any_true, b(x) != any_false]
        for k2 in ks:
            if k2 != k:
                facts.append(z3.Not(_box[k2][2](b(x))))
        ax.append(z3.ForAll([x], z3.And(*facts), patterns=[b(x)]))
        for c in (any_none, any_true, any_false):
            ax.append(z3.Not(i(c)))
    return ax


# ---------------------------------------------------------------- values

class Value:
    pass


class Con(Value):
    """A concrete Python constant."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Con(%r)" % (self.v,)


class V(Value):
    """A symbolic value of a type."""

    def __init__(self, t, z):
        self.t = t
        self.z = z

    def __repr__(self):
        return "V(%r,%s)" % (prune(self.t), str(self.z)[:60])


class Tup(Value):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tup(%r)" % (self.items,)


class KwV(Value):
    """A dictionary with concrete string keys (keyword arguments, literals)."""

    def __init__(self, d):
        self.d = dict(d)


class FuncV(Value):
    def __init__(self, func, env=None, defaults=None, kwdefaults=None):
        self.func = func
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.ident = None

    def __repr__(self):
        return "FuncV(%s)" % self.func.key


class BoundV(Value):
    def __init__(self, selfv, func):
        self.selfv = selfv
        self.func = func

    def __repr__(self):
        return "BoundV(%r.%r)" % (self.selfv, self.func)


class ClassV(Value):
    def __init__(self, cls):
        self.cls = cls


class ModuleV(Value):
    def __init__(self, name):
        self.name = name


class ExtV(Value):
    """Something outside licant, by dotted name, possibly bound to a receiver."""

    def __init__(self, name, recv=None):
        self.name = name
        self.recv = recv

    def __repr__(self):
        return "ExtV(%s)" % self.name


class PartialV(Value):
    def __init__(self, f, args, kwargs):
        self.f = f
        self.args = args
        self.kwargs = kwargs


class CoroV(Value):
    """A coroutine object: the body runs when it is awaited."""

    def __init__(self, thunk, what, bound=None):
        self.thunk = thunk
        self.what = what
        self.bound = bound      # arguments of the coroutine function


class GenV(Value):
    """A generator expression or lazy map/filter that has not been consumed."""

    def __init__(self, node, env, module):
        self.node = node
        self.env = env
        self.module = module


class ViewV(Value):
    """dict.keys()/values()/items(), enumerate(...), zip(...), range(...), reversed(...)."""

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args


class SuperV(Value):
    def __init__(self, selfv, cls):
        self.selfv = selfv
        self.cls = cls


class Star(Value):
    """*args of a symbolic list at a call."""

    def __init__(self, v):
        self.v = v


class MaybeUnbound(Value):
    def __init__(self, unbound, value):
        self.unbound = unbound
        self.value = value
