"""C03: the optimisation finds the true least-cost solution."""
from harness import gen
from harness.core import Test
from checks.common import compare_fn

MIX = gen.O(storage=(0, 1), stores=(0, 1), links=(0, 3), lines=(0, 3), trafos=True, dc=20, com=15, ramp=20, esum=15,
            pset=10, globals=30)
QP = gen.O(quad=50, storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), mod=0)

TESTS = [
    Test("mixed", lambda: gen.networks(MIX), compare_fn(), 100, 4000,
         "random networks with all component classes and features, LP/MILP; PyPSA's outcome, cost and solution are compared with an independent formulation; non-trivial: optimum with non-zero cost"),
    Test("quadratic", lambda: gen.networks(QP), compare_fn(), 30, 1500,
         "random networks with quadratic marginal costs (QP); same comparison"),
]
