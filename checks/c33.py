"""C33: symbolic model expressions evaluate at the solution to the statistics of the same name."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, net, solcheck, statmodel as SM
from harness.core import Test, Violation
from harness.gen import D
from checks.common import compare_fn

O = gen.O(buses=(1, 3), T=(1, 4), gens=(0, 3), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), trafos=True, ext=50, mod=5, com=10,
          inactive=10, series=40, neg_sign=15, weights=65)

PAIRS = {"capex": "capex", "capacity": "optimal_capacity", "opex": "opex", "energy_balance": "energy_balance", "supply": "supply",
         "withdrawal": "withdrawal", "transmission": "transmission", "curtailment": "curtailment", "operation": None}
STATIC = ("capex", "capacity")
PORTS = ("energy_balance", "supply", "withdrawal")
LINEAR = ["Generator", "Load", "Link"]  # one sign throughout: supply and withdrawal are linear there


@st.composite
def specs(draw):
    spec = draw(gen.networks(O))
    d = D(draw)
    passive = {a[k] for cls, _, a in spec["comps"] if cls in ("Line", "Transformer") for k in ("bus0", "bus1")}
    for b, a in [c[1:] for c in spec["comps"] if c[0] == "Bus"]:
        if b not in passive and d.p(60):
            a["carrier"] = d.pick(["AC", "heat", "H2"])
    q = []
    for name in PAIRS:
        for _ in range(1 if d.p(70) else 2):
            kw = {}
            if d.p(60):
                kw["groupby"] = d.pick(["carrier", "bus_carrier", ["bus", "carrier"], ["bus_carrier", "carrier"], "bus", ["carrier"], False])
            if d.p(30):
                kw["comps"] = d.pick(["Generator", "Link", ["Generator"], ["Link", "Generator"], ["Load", "Store"], ["StorageUnit", "Store", "Line"]])
            if d.p(25):
                kw["bus_carrier"] = d.pick(["AC", "heat", "H2", ["AC", "heat"]])
            if d.p(25):
                kw["carrier"] = d.pick(["gas", "wind", ["gas", "wind"], "AC"])
            if d.p(25):
                kw["nice_names"] = d.pick([True, False])
            if d.p(20) and not isinstance(kw.get("comps"), str):
                kw["aggregate_across_components"] = True
            if name not in STATIC and d.p(50):
                kw["aggregate_time"] = d.pick(["sum", "mean", False]) if name != "operation" else d.pick(["mean", "sum", False])
            elif name == "capacity" and d.p(25):
                kw["storage"] = True
                kw.pop("comps", None)
            if name in PORTS + ("capacity",) and d.p(25):
                kw["at_port"] = d.pick([True, False])
            q.append([name, kw])
    spec["queries"] = q
    spec["limit"] = [d.int(0, 20), d.pick([0.5, 0.9, 0.95]), d.pick([True, False])]
    return spec


def entries(expr, vals=None):
    """{(key, time): value} of an evaluated expression."""
    s = expr.solution if vals is None else vals
    out = {}
    if s.ndim == 0:
        return {} if float(s) == 0 or np.isnan(float(s)) else {((), None): float(s)}
    dims = [d for d in s.dims if d not in ("snapshot",)]
    if len(dims) > 1:
        raise Violation(f"expression has dimensions {s.dims}")
    timed = "snapshot" in s.dims
    if not dims:
        return {((), t): float(v) for t, v in zip(s.indexes["snapshot"], s.values)}
    s = s.transpose(dims[0], *(["snapshot"] if timed else []))
    for i, k in enumerate(s.indexes[dims[0]]):
        k = tuple(SM.plain(y) for y in k) if isinstance(k, tuple) else (SM.plain(k),)
        for j, t in enumerate(s.indexes["snapshot"] if timed else [None]):
            v = float(s.values[i, j] if timed else s.values[i])
            if (k, t) in out:
                raise Violation(f"entry {k} occurs twice in the expression")
            out[k, t] = v
    return out


def statistic(n, name, kw):
    kw = dict(kw)
    if name == "opex":
        kw["cost_types"] = "marginal_cost"
    if name == "operation":
        # energy withdrawn at the first port of branches, energy in stores, production and consumption elsewhere
        m = n.copy()
        for c in ("Line", "Link", "Transformer"):
            for k in m.pnl(c):
                if k[0] == "p" and k[1:].isdigit() and k != "p0":
                    m.pnl(c)[k] = m.pnl(c)[k] * 0
            if not m.pnl(c).p0.empty:
                m.pnl(c)["p0"] = -m.pnl(c).p0
        m.generators["sign"] = m.loads["sign"] = m.stores["sign"] = m.storage_units["sign"] = 1.0
        if not m.stores.empty:
            m.stores_t["p"] = m.stores_t.e
        kw.setdefault("aggregate_time", "mean")
        kw.setdefault("groupby", "carrier")
        kw["at_port"] = False
        return m.statistics.energy_balance(round=10, **kw)
    return getattr(n.statistics, PAIRS[name])(round=10, **kw)


def prepare(name, kw, n):
    """Keyword arguments in the common domain of both accessors."""
    kw = dict(kw)
    if name in ("supply", "withdrawal"):
        kw.setdefault("groupby", "carrier")
        kw["comps"] = [c for c in LINEAR if not n.df(c).empty and (n.get_switchable_as_dense(c, "p_set" if c == "Load" else "p_min_pu") >= 0).all(axis=None)]
        if not kw["comps"]:
            return None
    bc = kw.pop("bus_carrier", None)
    if bc is not None:
        have = set(n.buses.carrier)
        kw["bus_carrier"] = bc if isinstance(bc, str) else [c for c in bc if c in have]
        if not set([bc] if isinstance(bc, str) else kw["bus_carrier"]) & have:
            return None
    if isinstance(kw.get("comps"), str):
        kw["comps"] = [kw["comps"]] if n.df(kw["comps"]).empty else kw["comps"]
    if isinstance(kw.get("comps"), list):
        kw["comps"] = [c for c in kw["comps"] if not n.df(c).empty]
        if not kw["comps"]:
            return None
    if name == "transmission":
        if kw.get("comps") is not None:
            return None
    return kw


def run_solution(spec, ctx):
    def extra(spec, ctx, n, M, x, ref):
        seen = 0
        for name, kw in spec["queries"]:
            kw = prepare(name, kw, n)
            if kw is None:
                continue
            what = f"{name}({kw})"
            got = entries(getattr(n.optimize.expressions, name)(**kw))
            want = SM.table(statistic(n, name, kw))
            SM.compare("expression " + what, got, want, tol=1e-5)
            seen += bool(SM.nonzero(want))
            ctx.label("expr:" + name)
        ctx.note = seen

    ctx.note = 0
    compare_fn(lambda *a: ctx.note >= 4, extra)(spec, ctx)


def run_limits(spec, ctx):
    """A constraint on an expression bounds the statistic."""
    n = net.build(spec)
    if solcheck.optimize(n, spec) != "optimal":
        return ctx.nontrivial(False)
    kw = {"groupby": ["carrier"], "nice_names": False}
    cands = []
    for name in ("capacity", "capex", "opex", "energy_balance", "curtailment", "operation"):
        e = getattr(n.optimize.expressions, name)(**kw)
        for (k, t), v in SM.nonzero(entries(e)).items():
            if abs(v) > 1e-3 and (e.sel(group=k).vars.values >= 0).any():
                cands.append((name, k, v))
    if not cands:
        return ctx.nontrivial(False)
    i, f, upper = spec["limit"]
    obj = n.objective
    for j in range(min(3, len(cands))):
        name, key, v = cands[(i + j) % len(cands)]
        bound = v * f if (v > 0) == upper else v * (2 - f)

        def extra(n, sns):
            e = getattr(n.optimize.expressions, name)(**kw)
            e = e.sel(group=key)
            n.model.add_constraints(e <= bound if upper else e >= bound, name="limit-on-expression")

        m = net.build(spec)
        res = solcheck.optimize(m, spec, extra_functionality=extra)
        ctx.label("limit:" + name)
        if res != "optimal":
            ctx.label("infeasible")
            continue
        got = SM.table(statistic(m, name, kw)).get((key, None), 0.0)
        tol = 1e-5 * (1 + abs(bound))
        if (got > bound + tol) if upper else (got < bound - tol):
            raise Violation(f"{name} of {key} is {got} although the expression was constrained to be {'<=' if upper else '>='} {bound} (unconstrained {v})")
        if m.objective < obj - 1e-5 * (1 + abs(obj)):
            raise Violation(f"an additional constraint on {name} reduced the objective from {obj} to {m.objective}")
        return ctx.nontrivial(True)
    ctx.nontrivial(False)


TESTS = [
    Test("solution", specs, run_solution, 36, 1500,
         "optimised networks: expressions with groupings, filters and aggregations against the statistics; non-trivial: at least 4 with non-zero entries"),
    Test("limits", specs, run_limits, 18, 900, "a constraint on one group of an expression bounds the statistic; non-trivial: solved with the constraint"),
]
