"""C11: multi-investment-period planning."""
from harness import gen
from harness.core import Test
from checks.common import compare_fn

MI = gen.O(buses=(1, 3), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), ext=50, mod=8, globals=15, growth=20, periods=100, inactive=6, ramp=10,
           series=25, gens=(0, 2))


def nontrivial(spec, n, M, x, ref):
    S = M.S
    for cls, cs in S.comps.items():
        for c in cs:
            if "build_year" in c.a and len({S.active_in(c, p) for p in S.periods}) > 1:
                return True
    return False


TESTS = [
    Test("pathway", lambda: gen.networks(MI), compare_fn(nontrivial), 100, 5000,
         "networks over 2-3 investment periods with build years, lifetimes, period weightings, all component classes; results and optimum compared; non-trivial: a component is available in some periods only"),
]
