"""C04: an execution always comes to an end."""
from .solver_exec import *

S = make("bfda")
SLOW = ()
ASSUMPTIONS = ASSUMPTIONS_
TRUSTED = []


def units(prog):
    s = S(prog)
    return [(s, [s.doit_impl, s.t_doit, s.dec, s.r_doit, s.release, s.worker, s.start, s.run, s.exec])]
