"""C05: stores."""
from harness import gen
from harness.core import Test
from checks.common import compare_fn, var_values

ST = gen.O(buses=(1, 2), T=(2, 5), stores=(1, 2), gens=(1, 2), loads=(0, 1), links=(0, 1), ext=25, series=50, inactive=6, mod=5)
STM = gen.O(buses=(1, 1), stores=(1, 2), gens=(1, 1), loads=(1, 1), links=(0, 0), ext=20, series=40, periods=100, inactive=4, mod=0)


def moving(spec, n, M, x, ref):
    return any(len({round(v, 4) for v in d.values()}) > 1 for d in var_values(M, x, "Store", "e").values())


TESTS = [
    Test("stores", lambda: gen.networks(ST), compare_fn(moving), 110, 4000,
         "stores with standing losses, cyclic or initial energy, per-unit energy limits, prescribed energy; recursion re-checked on results, optimum compared; non-trivial: some energy level varies"),
    Test("periods", lambda: gen.networks(STM), compare_fn(moving), 50, 1500,
         "the same over several investment periods with per-period cyclicity and initial values; non-trivial: some energy level varies"),
]
