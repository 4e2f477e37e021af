"""C04: storage units."""
from harness import gen
from harness.core import Test
from checks.common import compare_fn, var_values

SU = gen.O(buses=(1, 2), T=(2, 5), storage=(1, 2), gens=(0, 2), loads=(0, 1), links=(0, 1), ext=20, series=50, inactive=6, mod=5)
SUM = gen.O(buses=(1, 1), storage=(1, 2), gens=(1, 1), loads=(1, 1), links=(0, 0), ext=15, series=40, periods=100, inactive=4, mod=0)


def moving(spec, n, M, x, ref):
    return any(len({round(v, 4) for v in d.values()}) > 1 for d in var_values(M, x, "StorageUnit", "soc").values())


TESTS = [
    Test("storage", lambda: gen.networks(SU), compare_fn(moving), 110, 4000,
         "storage units with losses, efficiencies, inflow, spillage, cyclic or initial state, prescribed state; recursion re-checked on results, optimum compared; non-trivial: some state of charge varies"),
    Test("periods", lambda: gen.networks(SUM), compare_fn(moving), 50, 1500,
         "the same over several investment periods with per-period cyclicity and initial values; non-trivial: some state of charge varies"),
]
