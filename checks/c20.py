"""C20: derived electrical parameters."""
import numpy as np
from hypothesis import strategies as st

from harness import net, pfgen, refpf
from harness.core import Test, Violation, close
from harness.gen import D

OPT = pfgen.PO(buses=(2, 5), links=(0, 1), types=55, periods=0, T=(1, 2), dc=25, tmodel=60)
ATTRS = ["x_pu", "r_pu", "g_pu", "b_pu", "x_pu_eff", "r_pu_eff"]
PHYS = {"Line": ["x", "r", "g", "b"], "Transformer": ["x", "r", "g", "b", "s_nom", "tap_ratio", "tap_side", "phase_shift"]}


@st.composite
def specs(draw):
    d = D(draw)
    spec = pfgen.gen_pf(d, OPT)
    spec["how"] = d.pick(["values", "values", "twice", "lpf", "topology"])
    edits = []
    for cls, name, a in spec["comps"]:
        if cls == "Line" and d.p(25):
            k = d.pick(["num_parallel", "length", "x", "r", "b", "g"])
            if k in ("num_parallel", "length") or "type" not in a:
                edits.append([cls, name, k, pfgen.fine(d, 0.5, 3)])
        if cls == "Transformer" and d.p(35):
            k = d.pick(["num_parallel", "tap_position", "x", "r", "s_nom", "b", "model"])
            if "type" in a and k in ("num_parallel", "tap_position"):
                edits.append([cls, name, k, d.int(-4, 4) if k == "tap_position" else pfgen.fine(d, 0.5, 3)])
            elif "type" not in a and k not in ("num_parallel", "tap_position"):
                edits.append([cls, name, k, d.pick(["t", "pi"]) if k == "model" else pfgen.fine(d, 0.5, 3)])
        if cls == "ShuntImpedance" and d.p(30):
            edits.append([cls, name, d.pick(["g", "b"]), pfgen.fine(d, -1, 1)])
    spec["edits"] = edits if d.p(60) else []
    return spec


def compute(n, how):
    if how == "lpf":
        n.lpf()
    else:
        if how == "topology":
            n.determine_network_topology()
        n.calculate_dependent_values()
        if how == "twice":
            n.calculate_dependent_values()


def compare(spec, n):
    P = refpf.P(spec)
    for c in P.branches:
        row = n.static(c.cls).loc[c.name]
        phys, pu = P.phys(c), P.per_unit(c)
        for k in PHYS[c.cls]:
            if not close(row[k], phys[k], 1e-9, 1e-12 + (1e-6 * abs(phys['g']) if k == 'b' else 0)):
                raise Violation(f"{c.cls} {c.name!r}: {k} is {row[k]}, expected {phys[k]}")
        for k in ATTRS:
            if not close(row[k], pu[k], 1e-7, 1e-11 + (1e-6 * abs(pu['g_pu']) if k in ('b_pu', 'g_pu') else 0)):
                raise Violation(f"{c.cls} {c.name!r}: {k} is {row[k]}, expected {pu[k]}")
        for k in c.attrs:
            if k in PHYS[c.cls] or net.is_series(c.attrs[k]) or k in ("bus0", "bus1"):
                continue
            if row[k] != c.attrs[k]:
                raise Violation(f"{c.cls} {c.name!r}: user's {k}={c.attrs[k]!r} became {row[k]!r}")
        if c.cls == "Line":
            b = P.bus[c.get("bus0")]
            if row["v_nom"] != b.get("v_nom"):
                raise Violation(f"Line {c.name!r}: v_nom {row['v_nom']}, bus0 has {b.get('v_nom')}")
            want = c.get("carrier") or b.get("carrier")
            if row["carrier"] != want:
                raise Violation(f"Line {c.name!r}: carrier {row['carrier']!r}, expected {want!r}")
    for c in P.all("ShuntImpedance"):
        row = n.shunt_impedances.loc[c.name]
        v2 = P.bus[c.get("bus")].get("v_nom") ** 2
        for k in ("g", "b"):
            if not close(row[k], c.get(k), 1e-12, 0):
                raise Violation(f"ShuntImpedance {c.name!r}: {k} changed from {c.get(k)} to {row[k]}")
            if not close(row[k + "_pu"], c.get(k) * v2, 1e-9, 1e-12):
                raise Violation(f"ShuntImpedance {c.name!r}: {k}_pu is {row[k + '_pu']}, expected {c.get(k) * v2}")
    # Y matrix entries are covered by the power flow check (C19)
    return P


def apply(spec, edits):
    comps = [[c, nm, dict(a)] for c, nm, a in spec["comps"]]
    by = {(c, nm): a for c, nm, a in comps}
    for cls, name, k, v in edits:
        if (cls, name) in by:
            by[cls, name][k] = v
    return dict(spec, comps=comps)


def run(spec, ctx):
    n = net.build(spec)
    compute(n, spec["how"])
    P = compare(spec, n)
    ctx.label("how:" + spec["how"])
    names = {(c.cls, c.name) for c in P.branches} | {("ShuntImpedance", c.name) for c in P.all("ShuntImpedance")}
    edits = [e for e in spec["edits"] if (e[0], e[1]) in names]
    if edits:
        for cls, name, k, v in edits:
            n.static(cls).loc[name, k] = v
        compute(n, spec["how"])
        compare(apply(spec, edits), n)
        ctx.label("edited")
    for c in P.branches:
        ctx.label(c.cls + (":typed" if c.get("type") else ":untyped"))
        if c.cls == "Transformer":
            p = P.phys(c)
            ctx.label(f"tap_side{p['tap_side']}", "model:" + p["model"])
    ctx.nontrivial(any(c.cls == "Transformer" or c.get("type") or P.bus[c.get("bus0")].get("v_nom") != 1.0 for c in P.branches))


TESTS = [
    Test("parameters", specs, run, 320, 20000,
         "networks of typed and untyped lines, transformers (T and pi model, taps, parallel circuits) and shunts, with later edits and recomputation, against a transcription of the documented formulas and a frozen copy of the standard types; non-trivial: some parameter needs a conversion"),
]
