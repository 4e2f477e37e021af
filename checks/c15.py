"""C15: security-constrained optimisation."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import gen, net, refopt, solcheck
from harness.core import Test, Violation
from checks.common import label_spec

MESH = gen.O(buses=(3, 5), T=(1, 2), lines=(3, 7), trafos=True, dc=25, par=35, gens=(0, 1), loads=(0, 1), links=(0, 1), storage=(0, 0), stores=(0, 0), ext=15,
             inactive=7, series=20, shed=100, dump=60, mod=0)


@st.composite
def specs(draw):
    spec = draw(gen.networks(MESH))
    d = gen.D(draw)
    # a spanning ring makes most outages non-islanding
    br = outageable(spec)
    if d.p(25):
        spec["outages"] = None
    else:
        spec["outages"] = [b for b in br if d.p(60)] or br[:1]
    spec["form"] = d.pick(["multi", "multi", "names"])
    return spec


def active(spec):
    return [(c, n, a) for c, n, a in spec["comps"] if c in ("Line", "Transformer") and a.get("active", True)]


def outageable(spec):
    """Active branches whose loss leaves their end points connected."""
    act = active(spec)
    out = []
    for c in act:
        parent = {}

        def find(x):
            while parent.setdefault(x, x) != x:
                x = parent[x]
            return x

        for o in act:
            if o is not c:
                parent[find(o[2]["bus0"])] = find(o[2]["bus1"])
        if find(c[2]["bus0"]) == find(c[2]["bus1"]):
            out.append([c[0], c[1]])
    return out


def z_of(S, c):
    x, r = S.z_eff(c)
    return x if S.bus[c.get("bus0")].get("carrier") == "AC" else r


def dcflow(S, branches, inj):
    """Flows of the branches for bus injections (balanced per component)."""
    buses = list(S.bus)
    pos = {b: i for i, b in enumerate(buses)}
    K = np.zeros((len(buses), len(branches)))
    for j, c in enumerate(branches):
        K[pos[c.get("bus0")], j] += 1
        K[pos[c.get("bus1")], j] -= 1
    y = np.array([1.0 / z_of(S, c) for c in branches])
    th = np.linalg.lstsq((K * y) @ K.T, np.array([inj[b] for b in buses]), rcond=None)[0]
    return y * (K.T @ th)


def component(S, branches, bus):
    seen, todo = {bus}, [bus]
    while todo:
        b = todo.pop()
        for c in branches:
            for x, y in ((c.get("bus0"), c.get("bus1")), (c.get("bus1"), c.get("bus0"))):
                if x == b and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return seen


def run(spec, ctx):
    label_spec(spec, ctx)
    ok = outageable(spec)
    outs = ok if spec["outages"] is None else [b for b in spec["outages"] if b in ok]
    if spec["outages"] is None and len(ok) != len(active(spec)) or not outs and spec["outages"] is not None:
        outs = ok
        implicit = False
    else:
        implicit = spec["outages"] is None
    M = refopt.build(spec)
    if not any(k[0] != "theta" and len(k) == 4 for k in M.v) or not M.S.bus:
        return
    S = M.S
    branches = [c for cls in ("Line", "Transformer") for c in S.all(cls) if c.get("active")]
    by = {(c.cls, c.name): c for c in branches}
    base_status, base, _ = M.solve()
    for o in outs:
        c = by[tuple(o)]
        comp = component(S, branches, c.get("bus0"))
        rest = [k for k in branches if k is not c and k.get("bus0") in comp]
        for t in S.sns:
            f = {(k.cls, k.name): M.var(("post", o[0], o[1], k.cls, k.name, t)) for k in rest}
            th = {b: M.var(("th", o[0], o[1], b, t)) for b in comp}
            for k in rest:
                z = z_of(S, k)
                M.row([(th[k.get("bus0")], 1 / z), (th[k.get("bus1")], -1 / z), (f[k.cls, k.name], -1)], 0, 0, "post-kvl")
                m = k.get("s_max_pu", t)
                if k.get("s_nom_extendable"):
                    cap = M.v[(k.cls, k.name, "s_nom")]
                    M.row([(f[k.cls, k.name], 1), (cap, -m)], -np.inf, 0, "post-limit")
                    M.row([(f[k.cls, k.name], 1), (cap, m)], 0, np.inf, "post-limit")
                else:
                    M.row([(f[k.cls, k.name], 1)], -m * k.get("s_nom"), m * k.get("s_nom"), "post-limit")
            for b in comp:
                coefs = []
                for k in rest:
                    coefs += [(f[k.cls, k.name], s) for p, s in (("bus0", 1), ("bus1", -1)) if k.get(p) == b]
                for k in branches:
                    coefs += [(M.v[(k.cls, k.name, "s", t)], -s) for p, s in (("bus0", 1), ("bus1", -1)) if k.get(p) == b]
                M.row(coefs, 0, 0, "post-balance")
    want, ref, _ = M.solve()
    if want == "unknown":
        return
    n = net.build(spec)
    kw = {"solver_name": "highs", "solver_options": {"threads": 1, "time_limit": 30.0, "output_flag": False}}
    if implicit:
        arg = None
    elif spec["form"] == "names" and all(o[0] == "Line" for o in outs):
        arg = [o[1] for o in outs]
    else:
        arg = pd.MultiIndex.from_tuples([tuple(o) for o in outs]) if outs else pd.MultiIndex.from_arrays([[], []])
    ctx.label("arg:" + ("none" if arg is None else type(arg).__name__))
    if not outs and not implicit:
        arg = []
    try:
        got = solcheck.normalise(*n.optimize.optimize_security_constrained(branch_outages=arg, **kw))
    except ValueError as e:
        if "Objective function could not be created" in str(e) or "nodal balance" in str(e) and want == "infeasible":
            return
        raise
    ctx.label("outcome:" + want)
    if want == "infeasible":
        if got == "optimal":
            raise Violation(f"no dispatch survives the outages {outs}, but an optimal solution is reported")
        return
    if want != "optimal":
        return
    if got != "optimal":
        raise Violation(f"a dispatch surviving {outs} exists at cost {ref}, but the optimisation ends with {got!r}")
    B = refopt.build(spec)
    x = solcheck.values(B, n)
    solcheck.check_rows(B, x)
    solcheck.check_outputs(S, n)
    V = solcheck.View(n)
    worst = 0.0
    for t in S.sns:
        inj = {b: V("Bus", "p", b, t) for b in S.bus}
        for o in outs:
            c = by[tuple(o)]
            rest = [k for k in branches if k is not c]
            for k, f in zip(rest, dcflow(S, rest, inj)):
                cap = k.get("s_max_pu", t) * (V.nom(k.cls, k.name) if k.get("s_nom_extendable") else k.get("s_nom"))
                if abs(f) > cap + 1e-3 + 1e-4 * abs(cap):
                    raise Violation(f"after the outage of {o} at {t}, {k.cls} {k.name!r} carries {f}, limit {cap}")
                worst = max(worst, abs(f) / (cap + 1e-9)) if abs(f) > 1e-3 else worst
    solcheck.check_objective(B, n, spec, x, None, None)
    val, scale = solcheck.cost(B, x)
    tol = 5e-5 * scale + 1e-3
    if abs(val - ref) > tol:
        raise Violation(f"cost {val}, the cheapest dispatch surviving {outs} costs {ref}")
    if base_status == "optimal" and val < base - tol:
        raise Violation(f"cost {val} below the cost {base} without security constraints")
    ctx.nontrivial(bool(outs) and base_status == "optimal" and ref > base + 1e-3)
    ctx.label("post-limit-binds" if worst > 0.9999 else "slack")


TESTS = [
    Test("outages", specs, run, 90, 4000,
         "meshed AC/DC networks with lines and transformers and non-islanding outages given as names, index or default; every outage recomputed on the result and the optimum compared with an independent security-constrained LP; non-trivial: the outages raise the cost"),
]
