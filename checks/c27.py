"""C27: statistics agree with the results they summarise."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, statmodel as SM
from harness.core import Test, Violation
from harness.gen import D
from checks.common import compare_fn


@st.composite
def specs(draw):
    d = D(draw)
    spec = SM.gen(d)
    spec["groupby"] = d.pick(["default", "default", False])
    spec["agg"] = d.pick(["default", "default", "sum", "mean", False])
    return spec


def run_tables(spec, ctx):
    S = SM.System(spec)
    n = S.build()
    seen = 0
    for stat in SM.STATS:
        kw = {"round": 10}
        if spec["groupby"] is False:
            kw["groupby"] = False
        if spec["agg"] != "default" and stat not in SM.STATIC + ("system_cost",):
            kw["aggregate_time"] = spec["agg"]
        want = S.statistic(stat, kw)
        got = SM.table(getattr(n.statistics, stat)(**kw))
        SM.compare(f"statistics.{stat}({kw})", got, want)
        seen += bool(SM.nonzero(want))
        if stat in ("optimal_capacity", "installed_capacity"):
            kw["storage"] = True
            SM.compare(f"statistics.{stat}({kw})", SM.table(getattr(n.statistics, stat)(**kw)), S.statistic(stat, kw))
        if stat == "opex":
            for c in (SM.COSTS[spec["seed"] % 7], list(SM.COSTS[spec["seed"] % 5:][:2])):
                kw["cost_types"] = c
                SM.compare(f"statistics.{stat}({kw})", SM.table(n.statistics.opex(**kw)), S.statistic(stat, kw))
    for k in ("missing", "custom"):
        if spec[k]:
            ctx.label(k)
    ctx.label("periods" if spec["periods"] else "single")
    ctx.nontrivial(seen >= 8)


O1 = gen.O(buses=(1, 3), T=(1, 4), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 3), ext=40, mod=10, com=20, inactive=10, series=30, gens=(0, 2), weights=65)
OM = gen.O(buses=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 1), ext=50, mod=10, periods=100, inactive=10, series=20, gens=(1, 2))


def check_solved(spec, ctx, n, M, x, ref):
    kw = {"round": 10}
    # balance of every bus carrier in every snapshot, recomputed from what the statistic reports
    bal = n.statistics.energy_balance(aggregate_time=False, groupby="bus_carrier", nice_names=False, aggregate_across_components=True, **kw)
    if len(bal):
        worst = float(np.nanmax(np.abs(bal.fillna(0.0).to_numpy())))
        if worst > 1e-4 * (1 + float(np.nanmax(np.abs(np.append(n.statistics.supply(**kw).to_numpy().ravel(), 0.0))))):
            raise Violation(f"energy balance of a bus carrier is off by {worst}:\n{bal}")
    # total system cost
    have = float(np.nansum(pd.DataFrame(n.statistics.system_cost(**kw)).to_numpy())) if not spec.get("periods") else None
    per = None
    if spec.get("periods"):
        df = n.statistics.system_cost(**kw)
        per = {p: float(np.nansum(df[p])) if p in df else 0.0 for p in n.investment_periods}
        have = sum(per[p] * float(n.investment_period_weightings.objective[p]) for p in per)
    fixed = 0.0
    for cls, nom in SM.NOM.items():
        c = n.static(cls)
        for nm in c.index:
            if not c.at[nm, nom + "_extendable"]:
                v = float(c.at[nm, nom + "_opt"]) * float(c.at[nm, "capital_cost"])
                if spec.get("periods"):
                    v *= sum(float(n.investment_period_weightings.objective[p]) for p in per if bool(n.get_active_assets(cls, p)[nm]))
                else:
                    v *= bool(c.at[nm, "active"])
                fixed += v
    want = ref + fixed
    ctx.note = abs(want) > 1e-6
    if abs(have - want) > 1e-4 * (1 + abs(want)) + 1e-3:
        raise Violation(f"system cost is {have}, but the optimal cost plus the cost of fixed assets is {want} ({ref} + {fixed})")


def run_solved(spec, ctx):
    compare_fn(lambda *a: bool(ctx.note), check_solved)(spec, ctx)


TESTS = [
    Test("tables", specs, run_tables, 160, 6000,
         "networks with arbitrary result tables: every statistic against independent recomputation; non-trivial: at least 8 statistics with non-zero entries"),
    Test("solved", lambda: gen.networks(O1), run_solved, 30, 1500, "optimised networks: energy balance and system cost against the optimal cost; non-trivial: non-zero cost"),
    Test("periods", lambda: gen.networks(OM), run_solved, 16, 800, "the same with investment periods"),
]
