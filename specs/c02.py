"""C02: Each step runs at most once; success means every step ran."""
from .solver_exec import *

S = make("bfd")
SLOW = ()
ASSUMPTIONS = ASSUMPTIONS_
TRUSTED = []


def units(prog):
    s = S(prog)
    return [(s, [s.doit_impl, s.t_doit, s.dec, s.r_doit, s.release, s.worker, s.start, s.run, s.exec])]
