"""C02: operational limits and activity."""
from harness import gen
from harness.core import Test
from checks.common import binds, compare_fn

LIM = gen.O(buses=(1, 3), storage=(0, 1), stores=(0, 1), links=(0, 3), lines=(0, 3), ext=25, pset=35, esum=40, series=60, inactive=15, com=5)
MULTI = gen.O(buses=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), ext=20, periods=100, inactive=10, mod=0, pset=20)


def nontrivial(spec, n, M, x, ref):
    return binds(M, x, ("p-bounds", "s-bounds", "dispatch", "store", "soc", "e-bounds", "p_set", "e_set", "soc_set", "e_sum_min", "e_sum_max"))


TESTS = [
    Test("limits", lambda: gen.networks(LIM), compare_fn(nontrivial), 100, 4000,
         "per-unit limits, prescribed dispatch/energy, e_sum limits and active flags; every documented limit re-checked on the results and the optimum compared; non-trivial: a limit binds"),
    Test("activity", lambda: gen.networks(MULTI), compare_fn(nontrivial), 40, 1500,
         "multi-period networks with build years and lifetimes; inactive components must not take part; non-trivial: a limit binds"),
]
