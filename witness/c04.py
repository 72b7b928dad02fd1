"""C04: random sets of steps, numbers of workers, results and orders in which actions finish."""
from solver_lib import *

RULE = ("random acyclic sets of up to 10 steps with 1 to 8 workers, actions that return various values, False or raise, finishing in random orders (a loop with virtual time that also detects waiting forever; "
        "one case in ten with real threads); the recorded starts and ends are judged")
TIMEOUT = 20


def cases(rng, tier):
    yield from graph_cases(rng, tier)


def run(case):
    return check_end(case, execute(case))
