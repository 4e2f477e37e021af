"""C16: near-optimal alternatives stay within the cost budget."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import gen, net, refopt, solcheck
from harness.core import Test, Violation
from harness.gen import D
from harness.refopt import NOM
from checks.common import label_spec

O1 = gen.O(buses=(1, 3), T=(1, 3), gens=(1, 3), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), ext=60, mod=8, com=8, inactive=8, series=30, globals=30,
           weights=60, esum=8, shed=90, dump=60, busnom=10, ramp=8)
OM = gen.O(buses=(1, 2), gens=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 1), ext=75, mod=0, inactive=6, series=20, periods=100, globals=15, loads=(1, 2), shed=97, dump=80)

# attributes with variables: (class, name of the variable, key of the reference)
DISPATCH = {"Generator": [("p", "p")], "Link": [("p", "p")], "Line": [("s", "s")], "Transformer": [("s", "s")], "Store": [("p", "p"), ("e", "e")],
            "StorageUnit": [("p_dispatch", "p_dispatch"), ("p_store", "p_store"), ("state_of_charge", "soc")]}


def coef(d):
    return d.pick([1.0, 1.0, 2.0, 0.5, -1.0, 0.0, 3])


def specs_for(opt):
    @st.composite
    def specs(draw):
        spec = draw(gen.networks(opt))
        d = D(draw)
        T = net.nsteps(spec)
        have = {}
        for cls, nm, a in spec["comps"]:
            if cls in NOM:
                have.setdefault(cls, []).append((nm, bool(a.get(NOM[cls] + "_extendable"))))
        w = []
        for cls, items in have.items():
            ext = [nm for nm, e in items if e]
            if ext and d.p(65):
                form = d.pick(["dict", "series", "float", "series_all"])
                if form == "float":
                    w.append([cls, NOM[cls], form, d.pick([1.0, 2, 0.5])])
                elif form == "series_all":
                    w.append([cls, NOM[cls], form, [[nm, coef(d)] for nm, _ in items]])
                else:
                    w.append([cls, NOM[cls], form, [[nm, coef(d)] for nm in ext if d.p(70)]])
            if d.p(30):
                attr, _ = d.pick(DISPATCH[cls])
                form = d.pick(["dict", "series", "float", "frame", "frame"])
                names = [nm for nm, _ in items]
                if form == "float":
                    w.append([cls, attr, form, d.pick([1.0, 2, 0.5])])
                elif form == "frame":
                    w.append([cls, attr, form, [[nm, [coef(d) for _ in range(T)]] for nm in names if d.p(75)]])
                else:
                    w.append([cls, attr, form, [[nm, coef(d)] for nm in names if d.p(70)]])
        spec["items_w"] = w or None
        spec["sense"] = d.pick(["min", "max", "min", "min", 1, -1, "minimize"])
        spec["slack"] = d.pick([0.05, 0.1, 0.01, 0.5, 0.05, 0.0])
        return spec

    return specs


def vector(M, spec):
    """Coefficients of the reference variables."""
    S = M.S
    c = np.zeros(len(M.lb))
    items = spec["items_w"]
    if items is None:
        items = [["Generator", "p_nom", "float", 1.0]]
    used = []
    for cls, attr, form, data in items:
        by = dict(map(tuple, [(k, tuple(v) if isinstance(v, list) else v) for k, v in data])) if isinstance(data, list) else None
        for comp in S.all(cls):
            k = data if by is None else by.get(comp.name)
            if k is None:
                continue
            if attr == NOM.get(cls):
                i = M.v.get((cls, comp.name, attr))
                if i is not None:
                    c[i] += k
                continue
            key = dict(DISPATCH[cls])[attr]
            for t in range(net.nsteps(spec)):
                i = M.v.get((cls, comp.name, key, t))
                if i is not None:
                    c[i] += k[t] if isinstance(k, tuple) else k
    return c


def weights(n, spec):
    import pandas as pd

    if spec["items_w"] is None:
        return None
    out = {}
    for cls, attr, form, data in spec["items_w"]:
        if form == "float":
            v = data
        elif form == "dict":
            v = dict(map(tuple, data))
        elif form == "frame":
            v = pd.DataFrame({k: s for k, s in data}, index=n.snapshots, dtype=float)
        else:
            v = pd.Series({k: s for k, s in data}, dtype=float)
        out.setdefault(cls, {})[attr] = v
    return out


def fixed_cost(S, spec):
    tot = 0.0
    for cls in NOM:
        for c in S.all(cls):
            if not c.get(NOM[cls] + "_extendable"):
                tot += S.cost_active(c) * c.get("capital_cost") * c.get(NOM[cls])
    return tot


def budgeted(M, limit):
    M2 = copy.copy(M)
    M2.rows = list(M.rows)
    M2.row([(i, a) for i, a in enumerate(M.obj)], -np.inf, limit - M.const, ("budget",))
    return M2


def run(spec, ctx):
    from harness import attrs as A

    label_spec(spec, ctx)
    A.reset_link_ports()
    M = refopt.build(spec)
    if M.quad or not any(k[0] != "theta" and len(k) == 4 for k in M.v):
        return ctx.nontrivial(False)
    c = vector(M, spec)
    if not c.any():
        return ctx.nontrivial(False)
    want, opt, _ = M.solve()
    if want != "optimal":
        return ctx.nontrivial(False)
    total = opt + fixed_cost(M.S, spec)
    if total <= 1e-6:
        ctx.label("no-positive-cost")  # slack relative to a positive cost
        return ctx.nontrivial(False)
    sense = 1 if spec["sense"] in (1, "min", "minimize") else -1
    limit = opt + spec["slack"] * total
    d = 1e-5 * (1 + abs(total))
    st0, v0, _ = budgeted(M, limit).solve(c, sense)
    st1, v1, _ = budgeted(M, limit + d).solve(c, sense)
    ctx.label("alternative:" + st0, f"slack:{spec['slack']}", f"sense:{sense}")
    if st0 not in ("optimal", "infeasible") and not (st0 == "unbounded"):
        return ctx.nontrivial(False)
    if st0 == "infeasible":  # by rounding of the optimum
        st0, v0, _ = budgeted(M, limit + 1e-7 * (1 + abs(total))).solve(c, sense)
        if st0 != "optimal":
            return ctx.nontrivial(False)
    n = net.build(spec)
    kw = {"multi_investment_periods": True} if spec.get("periods") else {}
    try:
        got = solcheck.optimize(n, spec, **kw)
    except ValueError as e:
        if "nodal balance" in str(e) or "Objective function could not be created" in str(e):
            return ctx.nontrivial(False)
        raise
    if got != "optimal":
        ctx.label("not-optimal")
        return ctx.nontrivial(False)
    opts = {"mip_rel_gap": 0.0, "mip_abs_gap": 1e-9, "threads": 1, "time_limit": 30.0, "output_flag": False}
    what = f"alternative with weights {spec['items_w']}, sense {spec['sense']} and slack {spec['slack']}"
    w = weights(n, spec)
    got = solcheck.normalise(*n.optimize.optimize_mga(weights=w, sense=spec["sense"], slack=spec["slack"], solver_name="highs", solver_options=opts, **kw))
    if st0 == "unbounded":
        if got == "optimal":
            raise Violation(f"{what} is unbounded, but an optimal solution is reported")
        return ctx.nontrivial(False)
    if got != "optimal" and any(M.integer):
        ctx.label("milp-failed")
        return ctx.nontrivial(False)
    if got != "optimal":
        raise Violation(f"{what}: optimum {v0} of the budgeted problem exists, but the optimisation ends with {got!r}")
    x = solcheck.values(M, n)
    solcheck.check_rows(M, x)
    cost, scale = solcheck.cost(M, x)
    cost += M.const
    if cost > limit + 2e-4 + 2e-5 * (scale + abs(total)):
        raise Violation(f"{what} costs {cost + total - opt}, but the optimum is {total} and thus the budget {limit + total - opt}")
    xx = np.where(np.isnan(x), 0.0, x)
    val = float((c * xx).sum())
    tol = 2e-4 + 2e-5 * float(np.abs(c * xx).sum())
    if sense * val > sense * v0 + tol:
        raise Violation(f"{what} has the weighted sum {val}, but {v0} is possible within the budget")
    if st1 == "optimal" and sense * val < sense * v1 - tol:
        raise Violation(f"{what} has the weighted sum {val}, which is better than the optimum {v0} of the budgeted problem")
    # what is written to the metadata
    if n.meta.get("slack") != spec["slack"]:
        raise Violation(f"{what}: slack in the metadata is {n.meta.get('slack')}")
    # improves on the optimum
    st2, v2, _ = budgeted(M, opt + 1e-9 * (1 + abs(total))).solve(c, sense)
    ctx.nontrivial(st2 == "optimal" and abs(v2 - v0) > 1e-4 or spec["slack"] == 0)


TESTS = [
    Test("single", specs_for(O1), run, 55, 1800, "alternatives against the budgeted reference problem; non-trivial: the weighted sum differs from the one at the optimum, or no slack"),
    Test("periods", specs_for(OM), run, 30, 900, "with investment periods"),
]
