"""C03: A failed step stops its dependents and makes the execution fail."""
from .solver_exec import *

S = make("bfc")
SLOW = ()
ASSUMPTIONS = ASSUMPTIONS_
TRUSTED = []


def units(prog):
    s = S(prog)
    return [(s, [s.doit_impl, s.t_doit, s.dec, s.r_doit, s.release, s.worker, s.start, s.run, s.exec])]
