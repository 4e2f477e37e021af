"""C18: linear power flow."""
import numpy as np
from hypothesis import strategies as st

from harness import net, pfgen, refpf
from harness.core import Test, Violation
from harness.gen import D

OPT = pfgen.PO(extra=(0, 5), buses=(1, 7))


@st.composite
def specs(draw):
    d = D(draw)
    spec = pfgen.gen_pf(d, OPT)
    T = net.nsteps(spec)
    spec["call"] = d.pick(["all", "all", "subset", "single", "split"])
    spec["sel"] = d.int(1, max(T - 1, 1))
    edits = []
    for _ in range(d.int(0, 3)):
        i = d.int(0, 99)
        kind = d.pick(["active", "active", "p_set", "x", "control", "remove"])
        edits.append([kind, i, pfgen.fine(d, 0.5, 30)])
    spec["edits"] = edits if d.p(60) else []
    return spec


def tol(P, i):
    s = sum(abs(c.get("p_set", i)) for cls in refpf.ONEPORTS for c in P.all(cls)) + 1.0
    return 1e-6 * s


def slack_of(P, n, buses, fresh):
    """The reported slack bus of an island, checked against the documented rule."""
    names = {str(n.buses.at[b, "sub_network"]) for b in buses}
    if len(names) != 1:
        raise Violation(f"buses {buses} are connected but in sub-networks {names}")
    slack = n.sub_networks.at[names.pop(), "slack_bus"]
    if slack not in buses:
        raise Violation(f"slack bus {slack!r} is not one of {buses}")
    gens = [g for g in P.all("Generator") if g.get("bus") in buses and g.get("active")]
    slacks = [g for g in gens if g.get("control") == "Slack"] if fresh else []
    cand = {g.get("bus") for g in slacks or gens}
    if cand and slack not in cand:
        raise Violation(f"slack bus of {buses} is {slack!r}, but the {'slack ' if slacks else ''}generators are at {sorted(cand)}")
    return slack


def dyn(n, cls, attr, name, i):
    df = n.dynamic(cls)[attr]
    if name not in df.columns:
        raise Violation(f"no series {attr} of {cls} {name!r} after the power flow")
    return float(df[name].iloc[i])


def near(got, want, eps, what):
    if not abs(got - want) <= eps:
        raise Violation(f"{what}: {got}, expected {want}")


def compare(P, n, steps, fresh):
    cyc = False
    for buses in P.islands():
        dc = P.bus[buses[0]].get("carrier") == "DC"
        slack = slack_of(P, n, buses, fresh)
        for i in steps:
            eps = tol(P, i)
            inj = P.set_injection(i)
            for b in buses:
                inj[b] -= P.shunt(b).real
            th, flow = P.lpf(buses, inj, slack)
            mism = -sum(inj[b] for b in buses)
            t = n.snapshots[i]
            for b in buses:
                want = inj[b] + (mism if b == slack else 0.0)
                near(dyn(n, "Bus", "p", b, i), want, eps, f"injection at bus {b!r} at {t}")
                if dc:
                    near(dyn(n, "Bus", "v_mag_pu", b, i), 1 + th[b], 1e-7 + 1e-6 * abs(th[b]), f"voltage magnitude at DC bus {b!r} at {t}")
                    near(dyn(n, "Bus", "v_ang", b, i), 0.0, 0, f"voltage angle at DC bus {b!r} at {t}")
                else:
                    near(dyn(n, "Bus", "v_ang", b, i), th[b], 1e-7 + 1e-6 * abs(th[b]), f"voltage angle at bus {b!r} at {t}")
                    near(dyn(n, "Bus", "v_mag_pu", b, i), 1.0, 0, f"voltage magnitude at bus {b!r} at {t}")
            big = max([abs(f) for f in flow.values()] + [1.0])
            for (cls, name), f in flow.items():
                near(dyn(n, cls, "p0", name, i), f, eps + 1e-6 * big, f"flow p0 of {cls} {name!r} at {t}")
                near(dyn(n, cls, "p1", name, i), -f, eps + 1e-6 * big, f"flow p1 of {cls} {name!r} at {t}")
            # generators: set points, but one generator at the slack bus takes the mismatch
            moved = 0.0
            takers = []
            for g in P.all("Generator"):
                if g.get("bus") in buses and g.get("active"):
                    diff = dyn(n, "Generator", "p", g.name, i) - g.get("p_set", i)
                    if abs(diff) > eps:
                        takers.append(g.name)
                        if g.get("bus") != slack:
                            raise Violation(f"generator {g.name!r} not at the slack bus changed by {diff} at {t}")
                        moved += diff * g.get("sign")
            if len(takers) > 1:
                raise Violation(f"several generators {takers} took up the slack at {t}")
            if any(g.get("bus") == slack and g.get("active") for g in P.all("Generator")):
                near(moved, mism, 3 * eps, f"slack taken up by generators at {slack!r} at {t}")
    for i in steps:
        t = n.snapshots[i]
        for cls in ("Load", "StorageUnit", "Store"):
            for c in P.all(cls):
                near(dyn(n, cls, "p", c.name, i), c.get("p_set", i) if c.get("active") else 0.0, 1e-9, f"p of {cls} {c.name!r} (active={c.get('active')}) at {t}")
        for c in P.all("Generator"):
            if not c.get("active"):
                near(dyn(n, "Generator", "p", c.name, i), 0.0, 1e-9, f"p of inactive generator {c.name!r} at {t}")
        for c in P.all("ShuntImpedance"):
            g = c.get("g") * P.bus[c.get("bus")].get("v_nom") ** 2 if c.get("active") else 0.0
            near(dyn(n, "ShuntImpedance", "p", c.name, i), g, 1e-7 + 1e-9 * abs(g), f"p of shunt {c.name!r} (active={c.get('active')}) at {t}")
        for c in P.all("Link"):
            p = c.get("p_set", i) if c.get("active") else 0.0
            near(dyn(n, "Link", "p0", c.name, i), p, 1e-9, f"p0 of link {c.name!r} (active={c.get('active')}) at {t}")
            for b, e in P.link_ports(c):
                near(dyn(n, "Link", "p" + b[3:], c.name, i), -p * c.get(e, i), 1e-7, f"p{b[3:]} of link {c.name!r} at {t}")
        for c in P.branches:
            if not c.get("active"):
                for k in ("p0", "p1"):
                    near(dyn(n, c.cls, k, c.name, i), 0.0, 0, f"{k} of inactive {c.cls} {c.name!r} at {t}")
    return cyc


def inputs(n):
    out = {}
    for cls in refpf.ONEPORTS + ("Link", "ShuntImpedance", "Line", "Transformer", "Bus"):
        for k in ("p_set", "q_set", "efficiency", "active", "bus", "bus0", "bus1", "bus2", "v_nom", "v_mag_pu_set", "sign", "tap_ratio", "phase_shift"):
            if k in n.static(cls) and (k != "v_nom" or cls == "Bus"):
                out[cls, k] = n.static(cls)[k].copy()
            if k in n.dynamic(cls):
                out[cls, k, "t"] = n.dynamic(cls)[k].copy()
    return out


def same_inputs(n, before, what):
    typed = set(n.transformers.index[n.transformers.type != ""])
    for k, v in inputs(n).items():
        w = before[k]
        if k[0] == "Transformer" and k[1] in ("tap_ratio", "phase_shift"):
            v, w = v.drop(typed), w.drop(typed)
        if not v.equals(w):
            raise Violation(f"{what} changed the input {k}")


def apply_edits(spec, n, edits):
    """Apply edits to the network and return the edited spec."""
    comps = [[c, nm, dict(a)] for c, nm, a in spec["comps"]]
    for kind, i, val in edits:
        if kind == "active":
            pool = [c for c in comps if "v_nom" not in c[2] and c[0] not in ("LineType", "TransformerType")]
        elif kind == "remove":
            pool = [c for c in comps if c[0] in ("Line", "Transformer", "Load", "Generator", "Link", "ShuntImpedance")]
        elif kind == "p_set":
            pool = [c for c in comps if c[0] in refpf.ONEPORTS + ("Link",) and not isinstance(c[2].get("p_set", 0), list)]
        elif kind == "x":
            pool = [c for c in comps if c[0] == "Line" and "type" not in c[2]]
        else:
            pool = [c for c in comps if c[0] == "Generator"]
        if not pool:
            continue
        c = pool[i % len(pool)]
        if kind == "remove":
            comps.remove(c)
            n.remove(c[0], c[1])
            continue
        if kind == "active":
            k, v = "active", not c[2].get("active", True)
        elif kind == "p_set":
            k, v = "p_set", val
        elif kind == "x":
            v2 = [b for b in comps if b[0] == "Bus" and b[1] == c[2]["bus0"]][0][2]["v_nom"] ** 2
            carrier = [b for b in comps if b[0] == "Bus" and b[1] == c[2]["bus0"]][0][2]["carrier"]
            k, v = ("r" if carrier == "DC" else "x"), val * 1e-4 * v2
        else:
            k, v = "control", ["PQ", "PV", "Slack"][int(val) % 3]
        c[2][k] = v
        n.static(c[0]).loc[c[1], k] = v
    return dict(spec, comps=comps)


def run(spec, ctx):
    P = refpf.P(spec)
    n = net.build(spec)
    T = P.T
    before = inputs(n)
    call, k = spec["call"], min(spec["sel"], max(T - 1, 1))
    sns = n.snapshots
    ctx.label("call:" + call)
    if call == "all":
        n.lpf()
        steps = list(range(T))
    elif call == "single":
        k = min(k, T - 1)
        n.lpf(sns[k])
        steps = [k]
    elif call == "subset":
        n.lpf(sns[:k])
        steps = list(range(k))
    else:
        n.lpf(sns[:k])
        if k < T:
            n.lpf(sns[k:])
        steps = list(range(T))
    compare(P, n, steps, True)
    same_inputs(n, before, "the power flow")
    for i in set(range(T)) - set(steps):
        for c in P.branches:
            near(dyn(n, c.cls, "p0", c.name, i), 0.0, 0, f"p0 of {c.name!r} at snapshot {sns[i]} not asked for")
    if spec["edits"]:
        ctx.label("edited")
        spec2 = apply_edits(spec, n, spec["edits"])
        n.lpf()
        compare(refpf.P(spec2), n, list(range(T)), False)
    for c in P.branches:
        if not c.get("active"):
            ctx.label("inactive")
        if P.bus[c.get("bus0")].get("carrier") == "DC":
            ctx.label("dc")
        if c.cls == "Transformer" and P.phys(c)["phase_shift"]:
            ctx.label("phase-shift")
    if P.all("ShuntImpedance"):
        ctx.label("shunt")
    mesh = len(P.active_branches) - len(P.bus) + len(P.islands())
    ctx.label("meshed" if mesh else "radial")
    ctx.nontrivial(len(P.active_branches) >= 1 and any(abs(v) > 1e-3 for v in P.set_injection(0).values()))


TESTS = [
    Test("lpf", specs, run, 280, 20000,
         "random AC/DC networks with lines, transformers (taps, phase shifts, types), shunts, links and all set-point components, whole/partial/single-snapshot calls and edits followed by a second run, against an independent dense solver; non-trivial: power flows over some branch"),
]
