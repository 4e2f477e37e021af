"""C28: grouping, filtering and aggregation of statistics."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import statmodel as SM
from harness.core import Test, Violation
from harness.gen import D

GROUPS = ["carrier", False, "bus_carrier", "bus", "country", "location", "unit", "name", "active", "initial", "portbus",
          ["bus", "carrier"], ["carrier", "bus_carrier"], ["name", "bus", "carrier"], ["country", "carrier"], ["initial", "bus"], ["bus_carrier", "unit"]]


def one_call(d, spec, stat):
    kw = {}
    if d.p(75):
        kw["groupby"] = d.pick(GROUPS)
    if d.p(35):
        kw["comps"] = d.pick(list(SM.NOM) + ["Load", "ShuntImpedance", "x2", "x3", "x4"])
        if kw["comps"].startswith("x"):
            k = int(kw["comps"][1])
            kw["comps"] = sorted({d.pick(SM.ONE + SM.BRANCH) for _ in range(k)})
    simple = stat not in ("expanded_capacity", "expanded_capex", "capacity_factor", "system_cost", "market_value")
    if stat not in ("capacity_factor", "expanded_capacity") and d.p(40):
        kw["at_port"] = d.pick([True, True, False])
    exact = stat in ("energy_balance", "supply", "withdrawal", "transmission", "market_value")
    if d.p(35):
        c = [x for x in SM.CARRIERS if x]
        have = [b["carrier"] for _, b in spec["buses"]]
        kw["bus_carrier"] = d.pick([d.pick(have), [d.pick(have), d.pick(have)]] + ([] if exact else [d.pick(c), d.pick(["gas|H2", "^g", "C$"]), [d.pick(c)]]))
        if kw["bus_carrier"] == "":
            kw["bus_carrier"] = [""]
    if d.p(35):
        kw["carrier"] = d.pick([d.pick(SM.CARRIERS), d.pick(SM.CARRIERS), [d.pick(SM.CARRIERS), d.pick(SM.CARRIERS)], d.pick(["gas|H2", "^g", "s"])])
        if kw["carrier"] == "":
            kw["carrier"] = [""]
    if d.p(40):
        kw["nice_names"] = d.pick([False, True])
    if d.p(30):
        kw["drop_zero"] = d.pick([False, False, True])
    if d.p(40) and stat not in SM.STATIC + ("system_cost",):
        kw["aggregate_time"] = d.pick(["sum", "mean", False])
    if d.p(25) and simple and not kw.get("at_port") and stat not in SM.ALLPORTS and not (kw.get("bus_carrier") and stat.endswith("capacity")):
        kw["aggregate_groups"] = d.pick(["max", "min", "mean", "sum"])
    if d.p(25) and simple and kw.get("aggregate_groups") != "mean":
        kw["aggregate_across_components"] = True
    kw["round"] = d.pick([10, 10, 10, 0, 1, 3]) if simple and "aggregate_across_components" not in kw else 10
    kw["how"] = d.pick(["kwargs", "kwargs", "options"])
    return kw


@st.composite
def specs(draw):
    d = D(draw)
    spec = SM.gen(d)
    spec["ops"] = []
    for _ in range(5):
        stat = d.pick(SM.STATS)
        spec["ops"].append([stat, one_call(d, spec, stat)])
    return spec


def call(n, stat, kw):
    """The statistic with options as keyword arguments or as global options."""
    import pypsa

    kw = dict(kw)
    how = kw.pop("how", "kwargs")
    kw["groupby"] = SM.callables(kw["groupby"]) if "groupby" in kw else None
    if kw["groupby"] is None:
        del kw["groupby"]
    f = getattr(n.statistics, stat)
    if how == "kwargs":
        return f(**kw)
    args = []
    for k in ("nice_names", "drop_zero", "round"):
        if k in kw:
            args += ["params.statistics." + k, kw.pop(k)]
    with pypsa.option_context(*args):
        return f(**kw)


def run(spec, ctx):
    S = SM.System(spec)
    n = S.build()
    seen = 0
    for stat, kw in spec["ops"]:
        what = f"statistics.{stat}({kw})"
        raw = call(n, stat, kw)
        got, want = SM.table(raw), S.statistic(stat, kw)
        tol = 1e-6
        if kw["round"] < 10:
            bad = {k: v for k, v in got.items() if np.isfinite(v) and abs(v * 10 ** kw["round"] - round(v * 10 ** kw["round"])) > 1e-6}
            if bad:
                raise Violation(f"{what}: not rounded: {bad}")
            half = 0.5 * 10.0 ** -kw["round"] + 1e-9
            for k, v in SM.nonzero(want).items():
                if abs(got.get(k, 0.0) - v) > half * (1 + 1e-9):
                    raise Violation(f"{what}: entry {k} is {got.get(k)}, expected {v}")
            for k, v in SM.nonzero(got).items():
                if k not in want:
                    raise Violation(f"{what}: entry {k} with {v} does not follow from the tables")
        else:
            SM.compare(what, got, want)
        if kw.get("drop_zero") is False and not spec["missing"] and not kw.get("aggregate_across_components") and stat not in ("capacity_factor", "market_value", "transmission"):
            lost = [k for k, v in want.items() if k not in got]
            if lost:
                raise Violation(f"{what}: zeros are dropped: {lost[:4]}")
        elif kw.get("drop_zero") is not False and "aggregate_across_components" not in kw and not stat.startswith(("expanded", "system")):
            zeros = [k for k, v in got.items() if v == 0 and k[1] is None]
            if zeros:
                raise Violation(f"{what}: zeros are kept: {zeros[:4]}")
        ctx.label("stat:" + stat)
        ctx.label(*["opt:" + k for k in kw if k not in ("round", "how")])
        seen += bool(SM.nonzero(want))
    ctx.nontrivial(seen >= 2)


@st.composite
def rel_specs(draw):
    d = D(draw)
    spec = SM.gen(d)
    stat = d.pick([s for s in SM.STATS if s not in ("capacity_factor", "market_value", "expanded_capacity")])
    kw = one_call(d, spec, stat)
    for k in ("round", "aggregate_groups", "aggregate_across_components", "drop_zero", "aggregate_time", "groupby"):
        kw.pop(k, None)
    spec["ops"] = [[stat, kw]]
    spec["by"] = [d.pick([g for g in GROUPS if g is not False]) for _ in range(2)]
    return spec


def total(t):
    out = {}
    for (k, c), v in SM.nonzero(t).items():
        out[c] = out.get(c, 0.0) + v
    return out


def same(what, a, b):
    for k in {**a, **b}:
        if abs(a.get(k, 0.0) - b.get(k, 0.0)) > 1e-6 * (1 + abs(a.get(k, 0.0)) + abs(b.get(k, 0.0))):
            raise Violation(f"{what}: {a.get(k, 0.0)} against {b.get(k, 0.0)} (column {k})")


def run_relations(spec, ctx):
    """Relations between calls, without a model of the values."""
    S = SM.System(spec)
    n = S.build()
    (stat, kw), = spec["ops"]
    kw = dict(kw, round=10)
    f = lambda **x: SM.table(call(n, stat, {**kw, **x}))
    what = f"statistics.{stat}({kw})"
    base = total(f(groupby=False))
    for g in spec["by"]:
        same(f"{what}: total grouped by {g} against ungrouped", total(f(groupby=g)), base)
    same(f"{what}: total across components against ungrouped", total(f(aggregate_across_components=True)), base)
    if "comps" not in kw:
        parts = {}
        for c in S.has & set(SM.BRANCH if stat == "transmission" else SM.ONE + SM.BRANCH):
            for k, v in total(f(comps=c)).items():
                parts[k] = parts.get(k, 0.0) + v
        same(f"{what}: sum over component types against all", parts, base)
    if "carrier" not in kw:
        parts = {}
        for c in {x.a["carrier"] for x in S.assets if "carrier" in x.a}:
            for k, v in total(f(carrier=[c])).items():
                parts[k] = parts.get(k, 0.0) + v
        rest = total(f(comps=["Transformer", "ShuntImpedance"])) if "comps" not in kw else total(f(comps=[c for c in ([kw["comps"]] if isinstance(kw["comps"], str) else kw["comps"]) if c in ("Transformer", "ShuntImpedance")]))
        if stat == "transmission" and "comps" not in kw:
            rest = total(f(comps=["Transformer"]))
        for k, v in rest.items():
            parts[k] = parts.get(k, 0.0) + v
        same(f"{what}: sum over carriers against all", parts, base)
    if "bus_carrier" not in kw and stat not in ("optimal_capacity", "installed_capacity", "transmission"):
        parts = {}
        for c in {b["carrier"] for b in S.buses.values()}:
            for k, v in total(f(bus_carrier=[c])).items():
                parts[k] = parts.get(k, 0.0) + v
        same(f"{what}: sum over bus carriers against all", parts, base)
    if stat not in SM.STATIC + ("system_cost",) and not (stat == "opex"):
        per = f(aggregate_time=False)
        w, agg = {}, {}
        for (k, t), v in SM.nonzero(per).items():
            cls = k[0] if not isinstance(kw.get("comps"), str) else kw["comps"]
            c = t[0] if isinstance(t, tuple) else None
            agg[k, c] = agg.get((k, c), 0.0) + v * S.weights(cls)[S.sns.index(t)]
        SM.compare(f"{what}: weighted sum over snapshots", f(), agg)
    ctx.label("stat:" + stat)
    ctx.nontrivial(any(base.values()))


@st.composite
def sum_specs(draw):
    d = D(draw)
    spec = SM.gen(d)
    kw = {}
    if d.p(50):
        kw["groupby"] = d.pick(["bus", "bus_carrier", ["bus", "carrier"]])
    if d.p(30):
        kw["carrier"] = [d.pick(SM.CARRIERS), d.pick(SM.CARRIERS)]
    if d.p(30):
        kw["nice_names"] = False
    if d.p(30):
        kw["at_port"] = True
    spec["kw"] = kw
    return spec


FUNCS = ["optimal_capacity", "installed_capacity", "supply", "withdrawal", "energy_balance", "transmission", "capacity_factor", "curtailment", "capex", "opex", "revenue",
         "market_value"]


def run_summary(spec, ctx):
    """The summary table consists of the single statistics."""
    S = SM.System(spec)
    if not spec["items"]:
        return
    n = S.build()
    kw = dict(spec["kw"], round=10)
    kw.setdefault("at_port", False)
    kw.setdefault("groupby", "carrier")
    got = SM.table(n.statistics(**kw))
    cells = 0
    for s in FUNCS:
        raw = getattr(n.statistics, s)(**kw)
        part = {(k, c[1] if isinstance(c, tuple) else None): v for (k, c), v in got.items() if (c[0] if isinstance(c, tuple) else c) == raw.attrs["name"]}
        SM.compare(f"column {raw.attrs['name']} of statistics({kw})", part, SM.table(raw))
        cells += len(part)
    ctx.nontrivial(cells)


TESTS = [
    Test("options", specs, run, 200, 8000,
         "random statistics with random groupers, filters, aggregations, ports and options against independent recomputation; non-trivial: at least 2 of 5 calls with non-zero values"),
    Test("relations", rel_specs, run_relations, 120, 5000,
         "partition relations between calls: groups, component types, carriers, bus carriers and snapshots add up; non-trivial: non-zero total"),
    Test("summary", sum_specs, run_summary, 30, 1000, "the summary table against the single statistics; non-trivial: non-empty table"),
]
