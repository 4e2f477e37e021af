"""C09: capacity expansion."""
from harness import gen
from harness.core import Test
from checks.common import compare_fn, binds

EXP = gen.O(buses=(1, 3), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), trafos=True, ext=80, mod=0, inactive=8, series=25)
MOD = gen.O(buses=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 1), ext=80, mod=60, inactive=5, series=15, T=(2, 3))


def built(spec, n, M, x, ref):
    return any(len(k) == 3 and k[2] != "n_mod" and x[i] > 1e-4 for k, i in M.v.items() if k[0] != "theta")


TESTS = [
    Test("expansion", lambda: gen.networks(EXP), compare_fn(built), 100, 4000,
         "extendable generators, storage, stores, links, lines, transformers with bounds, prescribed capacities and capital costs; bounds, cost and optimum compared; non-trivial: some positive optimised capacity"),
    Test("modular", lambda: gen.networks(MOD), compare_fn(built), 50, 2000,
         "modular expansion (integer number of modules); non-trivial: some positive optimised capacity"),
]
