"""C08: ramp limits."""
from harness import gen
from harness.core import Test
from checks.common import binds, compare_fn

RAMP = gen.O(buses=(1, 2), T=(3, 6), gens=(1, 2), links=(0, 2), loads=(1, 1), ramp=75, com=0, ext=30, shed=80, dump=50, inactive=6, storage=(0, 1))
COM = gen.O(buses=(1, 2), T=(3, 5), gens=(1, 2), links=(0, 1), loads=(1, 1), ramp=90, com=80, ext=10, shed=90, dump=70, inactive=4, mod=0)


def bind(spec, n, M, x, ref):
    return binds(M, x, ("ramp-up", "ramp-down"))


TESTS = [
    Test("ramps", lambda: gen.networks(RAMP), compare_fn(bind), 90, 3000,
         "fixed and extendable generators/links with static or per-snapshot ramp limits; full comparison with the reference problem; non-trivial: a ramp limit binds in the optimum"),
    Test("committable", lambda: gen.networks(COM), compare_fn(bind), 70, 2500,
         "committable units with ramp, start-up and shut-down limits; non-trivial: a ramp limit binds"),
]
