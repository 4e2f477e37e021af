"""C17: results do not depend on the representation of the same system."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness import attrs as A, gen, net, pfgen, solcheck
from harness.core import Test, Violation
from harness.gen import D
from checks.common import label_spec

NOM = {"Generator": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom", "Link": "p_nom", "Line": "s_nom", "Transformer": "s_nom"}
COSTS = ["marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "spill_cost", "capital_cost", "start_up_cost", "shut_down_cost", "stand_by_cost"]
# optimisation results and set points without static meaning in optimisation
NOT_SERIES = {("Generator", "p_set"), ("Link", "p_set"), ("StorageUnit", "p_set"), ("Store", "p_set"), ("Store", "e_set"), ("StorageUnit", "state_of_charge_set")}


def scaled(v, k):
    if isinstance(v, list):
        return [x if x is None else x * k for x in v]
    return v if v in ("inf", "-inf", None) else v * k


def varying(cls, attr):
    if cls == "Link" and attr[:-1] == "efficiency":
        attr = "efficiency"
    i = A.CLASSES[cls]["attrs"].get(attr)
    return i is not None and "series" in i["type"] and "static" in i["type"] and i["kind"] == "float" and (cls, attr) not in NOT_SERIES


def rename(spec, cls, names):
    """Give the components of a class other names, following the references."""
    m = {}
    for c in spec["comps"]:
        if c[0] == cls:
            m[c[1]] = names[len(m)]
            c[1] = m[c[1]]
    if cls == "Bus":
        for c in spec["comps"]:
            for k in c[2]:
                if k.startswith("bus") and (k == "bus" or k[3:].isdigit()) and c[2][k] in m:
                    c[2][k] = m[c[2][k]]
    return m


def half_keys(cls, opt):
    if not opt:
        return {"Load": ["p_set", "q_set"], "Generator": ["p_set", "q_set", "p_nom"], "StorageUnit": ["p_set", "q_set"], "Store": ["p_set", "q_set"],
                "Link": ["p_set"], "Line": ["b", "g", "s_nom", "num_parallel"], "ShuntImpedance": ["b", "g"]}[cls]
    nom = NOM.get(cls)
    k = [nom, nom + "_min", nom + "_max", nom + "_set"] if nom else []
    return k + {"Load": ["p_set"], "Generator": ["e_sum_min", "e_sum_max", "p_set"], "StorageUnit": ["state_of_charge_initial", "inflow", "state_of_charge_set", "p_set"],
                "Store": ["e_initial", "e_set", "p_set"], "Link": ["p_set"], "Line": ["b", "g"]}[cls]


def split(c, opt, second):
    """Two equal parallel halves of a component."""
    cls, name, a = c
    out = []
    for nm in (name, second):
        b = copy.deepcopy(a)
        for k in half_keys(cls, opt):
            if k in b:
                b[k] = scaled(b[k], 0.5)
        if cls == "Line":
            if b.get("type"):
                b["num_parallel"] = 0.5 * a.get("num_parallel", 1.0)
            for k in ("x", "r"):
                if k in b:
                    b[k] = 2.0 * b[k]
        if opt and "marginal_cost_quadratic" in b:
            b["marginal_cost_quadratic"] = scaled(b["marginal_cost_quadratic"], 2.0)
        out.append([cls, nm, b])
    return out


def shuffled(d, seq):
    return [seq[i] for i in d.draw(st.permutations(range(len(seq))))]


OPT = dict(buses=(1, 4), T=(1, 4), gens=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 4), ext=35, mod=8, com=12, ramp=15, inactive=15, series=25,
           weights=50, esum=15, shed=75, dump=50, periods=15, dc=15, pset=15, par=25, quad=8)
OF = {"plain": gen.O(globals=40, busnom=15, growth=15, **OPT), "losses": gen.O(losses=True, **{**OPT, "lines": (1, 4), "com": 0, "mod": 0, "quad": 0}),
      "linearized": gen.O(**{**OPT, "com": 60, "quad": 0, "uceq": 50})}


@st.composite
def opt_specs(draw):
    d = D(draw)
    mode = d.pick(["plain", "plain", "plain", "losses", "linearized"])
    spec = gen.gen_network(d, OF[mode])
    T = net.nsteps(spec)
    for c in spec["comps"]:
        if c[2].get("committable"):
            c[2].pop("build_year", None)
            c[2].pop("lifetime", None)
    spec["mode"] = [mode, d.int(1, 3)]
    comps = copy.deepcopy(spec["comps"])
    steps = []
    factor = 1.0
    for _ in range(d.int(1, 3)):
        k = d.pick(["reorder", "rename", "series", "series", "swap", "split", "split", "scale", "inactive", "ports", "labels", "constant"])
        new = None
        if k == "reorder":
            head = shuffled(d, [c for c in comps if c[0] == "Carrier"]) + shuffled(d, [c for c in comps if c[0] == "Bus"])
            new = head + shuffled(d, [c for c in comps if c[0] not in ("Carrier", "Bus")])
        elif k == "rename":
            cls = d.pick(sorted({c[0] for c in comps} - {"Carrier"}))
            have = [c[1] for c in comps if c[0] == cls]
            new = copy.deepcopy(comps)
            rename({"comps": new}, cls, d.draw(st.permutations(have)) if d.p(50) else [f"{'zyx'[i % 3]}{20 - i}" for i in range(len(have))])
        elif k == "series":
            new = copy.deepcopy(comps)
            for c in new:
                for a, v in list(c[2].items()):
                    if not isinstance(v, list) and varying(c[0], a) and d.p(60):
                        c[2][a] = [v] * T
        elif k == "constant":  # default values written out
            new = copy.deepcopy(comps)
            for c in new:
                for a, i in A.CLASSES[c[0]]["attrs"].items():
                    if varying(c[0], a) and a not in c[2] and i["default"] is not None and abs(float(i["default"])) < 1e9 and not a.startswith("ramp") and d.p(15):
                        c[2][a] = [float(i["default"])] * T if d.p(60) else float(i["default"])
        elif k == "swap":
            new = copy.deepcopy(comps)
            for c in new:
                if c[0] == "Line" and d.p(60):
                    c[2]["bus0"], c[2]["bus1"] = c[2]["bus1"], c[2]["bus0"]
        elif k == "ports":
            new = copy.deepcopy(comps)
            for c in new:
                if c[0] == "Link" and "bus2" in c[2]:
                    a = c[2]
                    a["bus1"], a["bus2"] = a["bus2"], a["bus1"]
                    a["efficiency"], a["efficiency2"] = a.get("efficiency2", 1.0), a.get("efficiency", 1.0)
        elif k == "split":
            cand = [c for c in comps if (c[0] in NOM or c[0] == "Load") and c[0] != "Transformer" and not c[2].get("committable") and not any(x.endswith("_nom_mod") for x in c[2])]
            if cand:
                c = d.pick(cand)
                i = comps.index(c)
                second = c[1] + d.pick([" half", "-0"])
                if not any(x[0] == c[0] and x[1] == second for x in comps):
                    new = comps[:i] + split(c, True, second) + comps[i + 1:]
        elif k == "scale":
            f = d.pick([0.5, 2.0, 4.0])
            new = copy.deepcopy(comps)
            for c in new:
                for a in COSTS:
                    if a in c[2]:
                        c[2][a] = scaled(c[2][a], f)
                if c[0] == "GlobalConstraint" and c[2].get("type") == "transmission_expansion_cost_limit":
                    c[2]["constant"] = scaled(c[2]["constant"], f)
            factor *= f
        elif k == "inactive":
            new = [c for c in comps if c[2].get("active", True)]
            if len(new) == len(comps):
                new = None
        elif k == "labels":
            steps.append("labels")
            continue
        if new is not None:
            comps = new
            steps.append(k)
    spec["other"] = comps
    spec["steps"] = steps
    spec["factor"] = factor
    return spec


def outcome(spec, comps, other_labels=False):
    s = dict(spec, comps=comps)
    if other_labels:
        s["sns"] = {"int": "str", "str": "dt", "dt": "int"}[spec["sns"]]
    A.reset_link_ports()
    n = net.build(s)
    kw = {"multi_investment_periods": True} if spec.get("periods") else {}
    if spec["mode"][0] == "losses":
        kw["transmission_losses"] = spec["mode"][1]
    if spec["mode"][0] == "linearized":
        kw["linearized_unit_commitment"] = True
    try:
        got = solcheck.optimize(n, s, **kw)
    except ValueError as e:
        if "nodal balance" in str(e) or "Objective function could not be created" in str(e):
            return "refused", None, n
        raise
    return got, (float(n.objective) + float(n.objective_constant) if got == "optimal" else None), n


def run_opt(spec, ctx):
    label_spec(spec, ctx)
    if not spec["steps"] or not any(c[0] in NOM and c[2].get("active", True) and c[0] not in ("Line", "Transformer") for c in spec["comps"]):
        return ctx.nontrivial(False)
    known = ("optimal", "infeasible")
    got, cost, n = outcome(spec, spec["comps"])
    new, cost2, m = outcome(spec, spec["other"], "labels" in spec["steps"])
    for s in spec["steps"]:
        ctx.label("step:" + s)
    ctx.label("outcome:" + got)
    if "refused" in (got, new):
        return ctx.nontrivial(False)
    what = f"{spec['mode'][0]} optimisation after {spec['steps']}"
    integer = any(c[2].get("committable") or any(x.endswith("_nom_mod") for x in c[2]) for c in spec["comps"])
    if got not in known or new not in known:
        # limits of the solver are no statement, but unbounded problems stay unbounded
        return ctx.nontrivial(False)
    if got != new:
        raise Violation(f"{what}: the result is {new!r} instead of {got!r}")
    if got != "optimal":
        return ctx.nontrivial(False)
    want = cost * spec["factor"]
    eps = (1e-3 if integer else 1e-5) * max(abs(want), abs(cost2), 1.0) + 1e-3
    if abs(cost2 - want) > eps:
        raise Violation(f"{what}: the optimal cost is {cost2} instead of {want}")
    ctx.nontrivial(abs(cost) > 1e-6)


# ----- power flow ------------------------------------------------------------
PF = pfgen.PO(dc=10, extra=(0, 4), buses=(1, 6), load=25.0, xpu=(2e-4, 2e-3), inactive=12)


@st.composite
def pf_specs(draw):
    d = D(draw)
    spec = pfgen.gen_pf(d, PF)
    T = net.nsteps(spec)
    spec["linear"] = d.p(50)
    if not spec["linear"]:
        car = {c[1]: c[2]["carrier"] for c in spec["comps"] if c[0] == "Bus"}
        spec["comps"] = [c for c in spec["comps"] if not (c[0] in ("Line", "Transformer") and car[c[2]["bus0"]] == "DC")]
    comps = copy.deepcopy(spec["comps"])
    steps, swaps, splits, maps = [], [], [], {}
    for k in shuffled(d, ["reorder", "series", "swap", "split", "inactive", "rename"])[: d.int(1, 3)]:
        if k == "reorder":
            # the order of generators and buses decides about the slack
            head = [c for c in comps if c[0] in ("LineType", "TransformerType", "Bus", "Generator")]
            comps = head + shuffled(d, [c for c in comps if c not in head])
        elif k == "series":
            for c in comps:
                for a, v in list(c[2].items()):
                    if not isinstance(v, list) and a in ("p_set", "q_set", "efficiency", "efficiency2", "v_mag_pu_set") and d.p(60):
                        c[2][a] = [v] * T
        elif k == "swap":
            for c in comps:
                if c[0] == "Line" and d.p(60):
                    c[2]["bus0"], c[2]["bus1"] = c[2]["bus1"], c[2]["bus0"]
                    swaps.append(c[1])
        elif k == "split":
            cand = [c for c in comps if c[0] in ("Line", "Load", "StorageUnit", "Store", "Link", "ShuntImpedance") or c[0] == "Generator" and c[2]["control"] == "PQ"]
            if not cand:
                continue
            c = d.pick(cand)
            i = comps.index(c)
            comps = comps[:i] + split(c, False, c[1] + " half") + comps[i + 1:]
            splits.append([c[0], c[1]])
        elif k == "inactive":
            comps = [c for c in comps if c[2].get("active", True)]
        else:
            cls = d.pick(sorted({c[0] for c in comps} - {"LineType", "TransformerType"}))
            have = [c[1] for c in comps if c[0] == cls]
            if splits or cls in maps:
                continue
            m = rename({"comps": comps}, cls, [f"{'zyx'[i % 3]}{20 - i}" for i in range(len(have))])
            maps[cls] = m
            if cls == "Line":
                swaps = [m.get(x, x) for x in swaps]
        steps.append(k)
    spec.update(other=comps, steps=steps, swaps=swaps, splits=splits, maps={c: [[k, v] for k, v in m.items()] for c, m in maps.items()})
    return spec


OUT = {"Bus": ["v_mag_pu", "v_ang", "p", "q"], "Line": ["p0", "q0", "p1", "q1"], "Transformer": ["p0", "q0", "p1", "q1"], "Link": ["p0", "p1", "p2"],
       "Load": ["p", "q"], "Store": ["p", "q"], "StorageUnit": ["p", "q"], "ShuntImpedance": ["p", "q"], "Generator": ["p", "q"]}


def flow(spec, comps):
    A.reset_link_ports()
    n = net.build(dict(spec, comps=comps))
    if spec["linear"]:
        n.lpf()
        return n, True, 0
    r = n.pf()
    return n, bool(np.all(r["converged"])), int(np.max(np.asarray(r["n_iter"]), initial=0))


def run_pf(spec, ctx):
    label_spec(spec, ctx)
    for s in spec["steps"]:
        ctx.label("step:" + s)
    # a generator of the slack which is removed or renamed keeps its place
    n, ok, it = flow(spec, spec["comps"])
    m, ok2, it2 = flow(spec, spec["other"])
    what = f"{'linear' if spec['linear'] else 'non-linear'} power flow after {spec['steps']}"
    if not ok:
        return ctx.nontrivial(False)
    if not ok2:
        if it <= 5:
            raise Violation(f"{what}: does not converge, but it did in {it} iterations")
        return ctx.nontrivial(False)
    gone = {(c[0], c[1]) for c in spec["comps"] if not c[2].get("active", True)}
    maps = {c: dict(m) for c, m in spec["maps"].items()}
    split_of = {tuple(x) for x in spec["splits"]}
    scale = 1.0 + sum(np.max(np.abs([net.num(x) for x in np.atleast_1d(c[2].get(a, 0.0))])) for c in spec["comps"] for a in ("p_set", "q_set"))
    moved = False
    for cls, attrs in OUT.items():
        names = [c[1] for c in spec["comps"] if c[0] == cls]
        for nm in names:
            if (cls, nm) in gone:
                continue
            other = maps.get(cls, {}).get(nm, nm)
            for a in attrs:
                d1, d2 = n.dynamic(cls).get(a), m.dynamic(cls).get(a)
                if d1 is None or nm not in d1:
                    continue
                b = a
                if cls == "Line" and other in spec["swaps"]:
                    b = a[0] + {"0": "1", "1": "0"}[a[1]]
                    d2 = m.dynamic(cls).get(b)
                    moved = True
                if d2 is None or other not in d2:
                    raise Violation(f"{what}: no {b} of {cls} {other!r}")
                x, y = d1[nm].to_numpy(float), d2[other].to_numpy(float)
                if (cls, other) in split_of:
                    z = d2[other + " half"].to_numpy(float)
                    if cls != "Generator" and not np.allclose(y, z, atol=1e-6 * scale):  # a generator may be the slack
                        raise Violation(f"{what}: halves of {cls} {other!r} have {b} {y} and {z}")
                    y = y + z
                eps = 1e-6 if a.startswith("v_") else 2e-5 * scale
                if not np.allclose(x, y, atol=eps, rtol=1e-6, equal_nan=True):
                    raise Violation(f"{what}: {b} of {cls} {other!r} is {y} instead of {x}")
    ctx.nontrivial(bool(spec["steps"]) and any(c[0] in ("Line", "Transformer") and c[2].get("active", True) for c in spec["comps"]))


TESTS = [
    Test("optimise", opt_specs, run_opt, 60, 2500, "pairs of representations of a network, optimised (plain, with losses, with relaxed commitment); non-trivial: an optimum with cost"),
    Test("flow", pf_specs, run_pf, 120, 5000, "pairs of representations of a power flow network; non-trivial: a transformed network with branches"),
]
