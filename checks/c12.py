"""C12: transmission losses."""
from hypothesis import strategies as st

from harness import gen
from harness.core import Test
from checks.common import compare_fn, var_values

LOSS = gen.O(buses=(2, 4), T=(1, 3), lines=(1, 4), trafos=True, dc=15, par=20, gens=(0, 1), loads=(0, 1), links=(0, 1), ext=12, inactive=8, series=25,
             shed=95, dump=40, mod=0, losses=True)


@st.composite
def specs(draw):
    spec = draw(gen.networks(LOSS))
    spec["losses"] = draw(st.sampled_from([1, 2, 3, 4, 6]))
    return spec


def run(spec, ctx):
    compare_fn(lossy, losses=spec["losses"], kw=None)(spec, ctx)
    ctx.label(f"tangents:{spec['losses']}")


def lossy(spec, n, M, x, ref):
    return any(v > 1e-4 for cls in ("Line", "Transformer") for d in var_values(M, x, cls, "loss").values() for v in d.values())


TESTS = [
    Test("losses", specs, run, 110, 4000,
         "lines and transformers with 1-6 loss tangents, fixed and extendable, in AC and DC parts; loss bounds, halves at both ends, terminal powers and optimum compared; non-trivial: some positive loss"),
]
