"""C01: A step starts only after all its dependencies have finished."""
from .solver_exec import *

S = make("b")
SLOW = ()
ASSUMPTIONS = ASSUMPTIONS_
TRUSTED = []


def units(prog):
    s = S(prog)
    return [(s, [s.doit_impl, s.t_doit, s.dec, s.r_doit, s.release, s.worker, s.start, s.run, s.exec])]
