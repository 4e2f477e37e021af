"""C10: global constraints."""
from harness import gen
from harness.core import Test
from checks.common import compare_fn, binds

GLB = gen.O(buses=(1, 3), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), ext=45, mod=0, globals=80, busnom=30, inactive=6, series=20, gens=(1, 2), loads=(1, 2), shed=97, dump=70, carriers=["gas", "wind"])
GLBM = gen.O(buses=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 1), ext=55, mod=0, globals=85, busnom=35, growth=40, periods=100, inactive=4,
             series=15, gens=(1, 2), loads=(1, 2), shed=97, dump=70, carriers=["gas", "wind"])


def bind(spec, n, M, x, ref):
    return binds(M, x, ("global", "busnom", "growth"))


TESTS = [
    Test("limits", lambda: gen.networks(GLB), compare_fn(bind), 100, 4000,
         "networks with primary energy, operational, transmission volume/cost and technology capacity limits of all senses; each evaluated on the results and the optimum compared; non-trivial: some global constraint binds"),
    Test("periods", lambda: gen.networks(GLBM), compare_fn(bind), 50, 2000,
         "the same with investment periods (period-specific limits, growth limits); non-trivial: some global constraint binds"),
]
