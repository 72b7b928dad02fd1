"""Base class of the specifications in /verif/specs and helpers to write formulas."""
import z3

from .vals import *
from .engine import *
from .interp import *
from .interp import named, short, cls_of, zb
from .loops import Seq, Bag
from .models import Verifier, strfun, card

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


class Spec:
    strings = "abs"
    rlimit = 40000000
    schema = {}
    globals = {}
    ghosts = {}
    axioms = []
    virtuals = {}
    attr_hooks = {}
    setattr_hooks = {}
    externals = {}
    constructors = {}
    ext_classes = ()
    init_fields = {}

    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}
        for n in ("schema", "globals", "ghosts", "virtuals", "attr_hooks", "setattr_hooks", "externals", "constructors", "init_fields"):
            setattr(self, n, dict(getattr(type(self), n)))
        self.axioms = list(type(self).axioms)
        self.setup()

    def setup(self):
        pass

    def add(self, *cs):
        for c in cs:
            self.contracts[c.key] = c
        return cs[0] if len(cs) == 1 else cs

    def invariants(self, c):
        return []


def forall(sorts, f, pats=None):
    """forall([sort or (name, sort)], lambda x..: formula, lambda x..: [patterns])"""
    vs = []
    for s in sorts:
        forall.n += 1
        vs.append(z3.Const("q%d" % forall.n, s))
    body = f(*vs)
    if isinstance(body, bool):
        body = z3.BoolVal(body)
    if pats:
        ps = pats(*vs)
        return z3.ForAll(vs, body, patterns=[p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in ps])
    return z3.ForAll(vs, body)


forall.n = 0


def exists(sorts, f):
    vs = []
    for s in sorts:
        forall.n += 1
        vs.append(z3.Const("q%d" % forall.n, s))
    return z3.Exists(vs, f(*vs))


I = z3.IntSort()
B = z3.BoolSort()
sel = z3.Select


def lit(s):
    return str_lit(s)


class Opaque:
    """Marks a parameter that stands for any value (never inspected)."""
