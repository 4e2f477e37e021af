"""C34: renaming components keeps all references."""
from hypothesis import strategies as st

from harness import anynet as N, gen, net, pfgen, solcheck
from harness.core import Test, Violation
from harness.gen import D

CLASSES = ["Bus", "Bus", "Bus", "Carrier", "Generator", "Load", "Store", "StorageUnit", "Line", "Link", "Transformer", "ShuntImpedance", "GlobalConstraint",
           "LineType", "TransformerType", "Shape"]
ONE = ("Generator", "Load", "Store", "StorageUnit", "ShuntImpedance")


def mapping(d, have, taken):
    """Distinct new names for some of the names: fresh names, swaps and chains."""
    if not have:
        return {}
    k = d.int(1, len(have))
    old = have[:]
    while len(old) > k:
        old.pop(d.int(0, len(old) - 1))
    pool = ["new", "new 2", "é", "10", "x.y", "bus", "A", "a", "None", "n1n1"]
    pool = [x for x in pool if x not in have and x not in taken]
    kind = d.pick(["fresh", "swap", "chain"])
    if kind == "swap" and len(old) > 1:
        return {o: old[(i + 1) % len(old)] for i, o in enumerate(old)}
    new = {}
    for i, o in enumerate(old):
        if kind == "chain" and i + 1 < len(old):
            new[o] = old[i + 1]
        elif pool:
            new[o] = pool.pop(d.int(0, len(pool) - 1))
    vals = list(new.values())
    # the names must stay unique
    final = [new.get(x, x) for x in have]
    return new if len(set(final)) == len(final) and len(set(vals)) == len(vals) else {}


@st.composite
def specs(draw):
    d = D(draw)
    h = N.header(d)
    items = N.items(draw, d, h["T"], std=True, shapes=True)
    spec = {"head": h, "items": items, "renames": [], "topology": d.p(40)}
    cur = {}
    for cls, nm, *_ in items:
        cur.setdefault(cls, []).append(nm)
    # references which are not drawn by the generator
    everything = [(c, nm) for c, nms in cur.items() for nm in nms if c not in ("Shape", "GlobalConstraint")]
    for it in items:
        if it[0] == "Shape" and d.p(70) and everything:
            it[2]["component"], it[2]["idx"] = d.pick(everything)
        if it[0] == "GlobalConstraint" and d.p(50) and cur.get("Carrier"):
            it[2]["type"] = d.pick(["tech_capacity_expansion_limit", "operational_limit"])
            it[2]["carrier_attribute"] = d.pick(cur["Carrier"])
        if it[0] in ("Line", "Transformer") and cur.get(it[0] + "Type") and d.p(50):
            it[2]["type"] = d.pick(cur[it[0] + "Type"])
        if it[0] == "Bus" and cur.get("Generator") and d.p(20):
            it[2]["generator"] = d.pick(cur["Generator"])
    for _ in range(d.int(1, 3)):
        cls = d.pick([c for c in CLASSES if c == "Bus" or c in cur])
        m = mapping(d, cur.get(cls, []), ())
        if m:
            spec["renames"].append([cls, [[k, v] for k, v in m.items()], d.pick(["network", "component"])])
            cur[cls] = [m.get(x, x) for x in cur[cls]]
    return spec


def refs(cls, attr, static):
    """Class whose names are in the column, or None."""
    import re

    if cls != "Bus" and re.fullmatch(r"bus\d*", attr) or (cls == "SubNetwork" and attr == "slack_bus"):
        return "Bus"
    if attr == "carrier" and cls not in ("Carrier",):
        return "Carrier"
    if attr == "sub_network":
        return "SubNetwork"
    if attr == "type" and cls in ("Line", "Transformer"):
        return cls + "Type"
    if cls == "Bus" and attr == "generator":
        return "Generator"
    return None


def snapshot(n):
    """All data of a network as plain tables."""
    out = {}
    for c in n.components.values():
        sta = {}
        for nm in c.static.index:
            sta[nm] = {a: N.cell(c.static.at[nm, a]) for a in c.static.columns if a not in ("obj",)}
        dyn = {}
        for a, df in c.dynamic.items():
            dyn[a] = {nm: [N.cell(v) for v in df[nm].to_numpy()] for nm in df.columns}
        out[c.name] = (list(c.static.index), sta, dyn)
    return out


def expect(before, cls, m):
    out = {}
    for c, (order, sta, dyn) in before.items():
        ren = (lambda x: m.get(x, x)) if c == cls else (lambda x: x)
        new = {}
        for nm, row in sta.items():
            r = dict(row)
            for a in row:
                if refs(c, a, sta) == cls:
                    r[a] = m.get(r[a], r[a])
            if c == "Shape" and row.get("component") == cls:
                r["idx"] = m.get(r["idx"], r["idx"])
            if c == "GlobalConstraint" and cls == "Carrier" and row.get("type") in ("tech_capacity_expansion_limit", "operational_limit"):
                r["carrier_attribute"] = m.get(r["carrier_attribute"], r["carrier_attribute"])
            new[ren(nm)] = r
        out[c] = ([ren(x) for x in order], new, {a: {ren(nm): v for nm, v in t.items()} for a, t in dyn.items()})
    return out


def diff(got, want, what):
    for c in want:
        go, gs, gd = got[c]
        wo, ws, wd = want[c]
        if go != wo:
            raise Violation(f"{what}: names of {c} are {go}, expected {wo}")
        for nm in ws:
            for a in ws[nm]:
                if a not in gs[nm] or not N.eq(gs[nm][a], ws[nm][a]):
                    raise Violation(f"{what}: {c} {nm!r} has {a}={gs[nm].get(a)!r}, expected {ws[nm][a]!r}")
        for a in wd:
            if set(gd.get(a, {})) != set(wd[a]):
                raise Violation(f"{what}: series {a} of {c} are of {sorted(gd.get(a, {}))}, expected {sorted(wd[a])}")
            for nm in wd[a]:
                if len(gd[a][nm]) != len(wd[a][nm]) or not all(N.eq(x, y) for x, y in zip(gd[a][nm], wd[a][nm])):
                    raise Violation(f"{what}: series {a} of {c} {nm!r} changed")


def rename(n, cls, m, how):
    if how == "component":
        n.components[cls].rename_component_names(**m)
    else:
        n.rename_component_names(cls, **m)


def run_data(spec, ctx):
    n = N.build(spec)
    if spec["topology"]:
        n.determine_network_topology()
    referenced = 0
    for cls, m, how in spec["renames"]:
        m = dict(m)
        if spec["topology"] and cls == "SubNetwork":
            continue
        before = snapshot(n)
        rename(n, cls, m, how)
        want = expect(before, cls, m)
        diff(snapshot(n), want, f"renaming {cls} {m}")
        nm = n.static(cls).index.name
        if nm != cls:
            raise Violation(f"index of {cls} is called {nm!r} after renaming")
        referenced += any(w[1][k] != b[1][k] for c, w in want.items() for b in [before[c]] if c != cls for k in w[1])
        ctx.label(cls)
    if spec["topology"] and len(n.sub_networks):
        names = [f"s{i}" for i in range(len(n.sub_networks))]
        m = dict(zip(n.sub_networks.index, names))
        before = snapshot(n)
        rename(n, "SubNetwork", m, "network")
        diff(snapshot(n), expect(before, "SubNetwork", m), f"renaming SubNetwork {m}")
    ctx.nontrivial(referenced > 0)


# ----- results do not depend on names --------------------------------------
O = gen.O(buses=(1, 4), T=(1, 3), gens=(0, 2), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 3), trafos=True, ext=35, mod=10, com=10, inactive=10,
          series=35, globals=60, busnom=20)


@st.composite
def solve_specs(draw):
    spec = draw(gen.networks(O))
    d = D(draw)
    cur = {}
    for cls, nm, _ in spec["comps"]:
        cur.setdefault(cls, []).append(nm)
    ren = []
    for cls in ["Bus"] + [c for c in CLASSES[3:] if c in cur]:
        if cls in cur and (cls == "Bus" or d.p(40)):
            names = [x for x in cur[cls] if not (cls == "Carrier" and x in ("AC", "DC"))]
            m = mapping(d, names, cur[cls])
            if m:
                ren.append([cls, [[k, v] for k, v in m.items()], "network"])
    spec["renames"] = ren
    return spec


def run_solve(spec, ctx):
    names = {}
    n = net.build(spec)
    a = attempt(n, spec)
    m = net.build(spec)
    for cls, mm, how in spec["renames"]:
        mm = dict(mm)
        if cls == "Carrier" and any("nom_m" in c for c in m.buses.columns):
            continue  # names of carriers are part of the names of custom bus attributes
        if cls == "Carrier" and (m.global_constraints.type.isin(["transmission_volume_expansion_limit", "transmission_expansion_cost_limit"])).any():
            continue  # lists of carriers in one text
        rename(m, cls, mm, how)
        names[cls] = mm
    b = attempt(m, spec)
    if a != b:
        raise Violation(f"after renaming {names}, optimising gives {b} instead of {a}")
    if a != "optimal":
        return ctx.nontrivial(False)
    if abs(n.objective - m.objective) > 1e-5 * (1 + abs(n.objective)):
        raise Violation(f"after renaming {names}, the objective is {m.objective} instead of {n.objective}")
    ctx.nontrivial(len(names) > 0 and abs(n.objective) > 1e-6)


def attempt(n, spec):
    try:
        return solcheck.optimize(n, spec)
    except ValueError as e:
        if "nodal balance" in str(e) or "Objective function could not be created" in str(e):
            return "refused"
        raise


@st.composite
def pf_specs(draw):
    d = D(draw)
    spec = pfgen.gen_pf(d, pfgen.PO(extra=(0, 3), buses=(1, 5)))
    cur = {}
    for cls, nm, _ in spec["comps"]:
        cur.setdefault(cls, []).append(nm)
    ren = []
    for cls in cur:
        if cls != "Carrier" and (cls == "Bus" or d.p(40)):
            m = mapping(d, cur[cls], ())
            if m:
                ren.append([cls, [[k, v] for k, v in m.items()], "network"])
    spec["renames"] = ren
    return spec


def run_pf(spec, ctx):
    n, m = net.build(spec), net.build(spec)
    names = {}
    if spec["renames"] and len(spec["renames"]) % 2:
        m.determine_network_topology()
    for cls, mm, how in spec["renames"]:
        rename(m, cls, dict(mm), how)
        names[cls] = dict(mm)
    n.lpf()
    m.lpf()
    total = 0.0
    for cls, attrs in (("Bus", ["v_ang", "p"]), ("Line", ["p0", "p1"]), ("Transformer", ["p0", "p1"]), ("Generator", ["p"]), ("Link", ["p0"])):
        f = names.get(cls, {})
        for a in attrs:
            x, y = n.dynamic(cls)[a], m.dynamic(cls)[a]
            want = x.rename(columns=f)
            if set(want.columns) != set(y.columns):
                raise Violation(f"after renaming {names}: {a} of {cls} for {sorted(y.columns)}, expected {sorted(want.columns)}")
            if len(y.columns):
                e = (want - y[want.columns]).abs().to_numpy()
                s = 1e-7 * (1 + want.abs().to_numpy())
                if not (e <= s).all():
                    raise Violation(f"after renaming {names}, the linear power flow has other {a} of {cls}:\n{y}\ninstead of\n{want}")
                total += float(want.abs().to_numpy().sum())
    ctx.nontrivial(bool(names) and total > 1e-6)


TESTS = [
    Test("data", specs, run_data, 140, 6000, "networks with all classes: every table after partial, complete and cyclic renamings; non-trivial: the renaming changed a reference"),
    Test("pf", pf_specs, run_pf, 50, 2500, "linear power flow before and after renaming; non-trivial: non-zero flows"),
    Test("solve", solve_specs, run_solve, 12, 600, "optimisation before and after renaming; non-trivial: renamed and non-zero objective"),
]
