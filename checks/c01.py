"""C01: nodal energy balance."""
from harness import gen, net, refopt, solcheck
from harness.core import Test, Violation
from checks.common import compare_fn, label_spec

BAL = gen.O(buses=(2, 4), storage=(0, 1), stores=(0, 1), links=(0, 4), lines=(0, 4), trafos=True, dc=25, com=10, ext=15, neg_sign=25,
            inactive=12, gens=(0, 1), mod=5)
SCARCE = gen.O(buses=(1, 3), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), shed=0, dump=0, loads=(0, 1), gens=(0, 2), ext=35, mod=0)


def nontrivial(spec, n, M, x, ref):
    return sum(1 for r in M.rows if isinstance(r[3], tuple) and r[3][0] == "balance" and len(r[0]) >= 2) >= 2


TESTS = [
    Test("balance", lambda: gen.networks(BAL), compare_fn(nontrivial), 100, 4000,
         "networks of several buses with multi-port links, lines, transformers, DC parts, signs, inactive components; balance recomputed from reported results at every bus and snapshot, plus full comparison; non-trivial: at least two balances with two or more dispatchable terms"),
    Test("scarce", lambda: gen.networks(SCARCE), compare_fn(nontrivial), 40, 1500,
         "no load shedding: unservable load must end infeasible or be refused, never be dropped; non-trivial as above"),
]
