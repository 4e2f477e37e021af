"""Hypothesis generators of power flow networks."""
from __future__ import annotations

from hypothesis import strategies as st

from harness.gen import D, NAMES


class PO:
    """Options of the power flow generator (percentages unless noted)."""

    def __init__(self, **kw):
        self.buses = (1, 6)
        self.T = (1, 3)
        self.periods = 10
        self.dc = 30
        self.extra = (0, 4)  # branches beyond the spanning forest
        self.par = 25
        self.split = 25  # chance that a bus starts a new island
        self.trafos = True
        self.types = 25
        self.tmodel = 50
        self.links = (0, 2)
        self.shunts = (0, 2)
        self.storage = True
        self.inactive = 10
        self.q = True
        self.load = 40.0
        self.xpu = (2e-4, 4e-3)
        self.sign = 10
        self.connected = False
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


LINE_TYPES = ["Al/St 240/40 2-bundle 220.0", "NAYY 4x150 SE", "490-AL1/64-ST1A 380.0", "149-AL1/24-ST1A 110.0"]
TRAFO_TYPES = ["160 MVA 380/110 kV", "25 MVA 110/20 kV", "0.4 MVA 20/0.4 kV", "100 MVA 220/110 kV"]


@st.composite
def networks(draw, o):
    return gen_pf(D(draw), o)


def fine(d, lo, hi):
    """A value without structure in [lo, hi]."""
    return lo + (hi - lo) * d.int(0, 997) / 997


def gen_types(d):
    out = []
    if d.p(60):
        out.append(["LineType", "LT", {
            "f_nom": d.pick([50.0, 60.0, 16.7]), "r_per_length": fine(d, 0.01, 0.3), "x_per_length": fine(d, 0.1, 0.5),
            "c_per_length": fine(d, 5, 300), "i_nom": fine(d, 0.1, 2)}])
    if d.p(60):
        out.append(["TransformerType", "TT", {
            "f_nom": 50.0, "s_nom": fine(d, 10, 200), "v_nom_0": 110.0, "v_nom_1": 20.0, "vsc": fine(d, 5, 20), "vscr": fine(d, 0.1, 2),
            "pfe": fine(d, 0, 60), "i0": fine(d, 0.02, 0.3), "phase_shift": d.pick([0.0, 30.0, 150.0, -30.0]), "tap_side": d.int(0, 1),
            "tap_neutral": d.int(-1, 2), "tap_min": -9, "tap_max": 9, "tap_step": fine(d, 0.5, 2.5)}])
    return out


def gen_line(d, o, v, types):
    a = {}
    if types and d.p(o.types):
        a["type"] = d.pick(types)
        a["length"] = fine(d, 1, 60)
        a["num_parallel"] = d.pick([1.0, 2.0, 0.5, 3.0, 1.7])
        if d.p(40):
            a["x"] = fine(d, 0.1, 5)  # overridden by the type
        return a
    a["x"] = fine(d, *o.xpu) * v * v
    a["r"] = fine(d, 0.05, 0.6) * a["x"] if d.p(75) else 0.0
    if d.p(50):
        a["b"] = fine(d, 0, 3) / v / v
    if d.p(30):
        a["g"] = fine(d, 0, 1) / v / v
    if d.p(20):
        a["length"] = fine(d, 1, 60)
        a["num_parallel"] = d.pick([1.0, 2.0])  # ignored without a type
    return a


def gen_trafo(d, o, types):
    a = {"s_nom": d.pick([20.0, 50.0, 100.0, 7.5])}
    if types and d.p(o.types):
        a["type"] = d.pick(types)
        a["num_parallel"] = d.pick([1.0, 2.0, 0.5, 3.0])
        a["tap_position"] = d.int(-3, 3)
    else:
        a["x"] = fine(d, *o.xpu) * a["s_nom"]
        a["r"] = fine(d, 0.02, 0.3) * a["x"]
        if d.p(50):
            a["b"] = -fine(d, 0, 2) / a["s_nom"]
        if d.p(50):
            a["g"] = fine(d, 0, 1) / a["s_nom"]
        if d.p(60):
            a["tap_ratio"] = d.pick([0.95, 1.05, 0.9, 1.1])
        if d.p(40):
            a["tap_side"] = 1
        if d.p(50):
            a["phase_shift"] = d.pick([1.0, -2.0, 3.0, 5.0, 30.0, -150.0])
    if o.tmodel and d.p(100 - o.tmodel):
        a["model"] = "pi"
    return a


def gen_pf(d, o):
    periods = [2020, 2030] if o.periods and d.p(o.periods) else None
    n = d.int(1, 2) if periods else d.int(*o.T)
    T = n * (len(periods) if periods else 1)
    spec = {"n": n, "sns": d.pick(["int", "dt", "str"]), "periods": periods, "comps": []}
    comps = spec["comps"]
    types = gen_types(d) if o.types else []
    ltypes = LINE_TYPES + [c[1] for c in types if c[0] == "LineType"]
    ttypes = TRAFO_TYPES + [c[1] for c in types if c[0] == "TransformerType"]
    nb = d.int(*o.buses)
    names = d.names(nb)
    island = [0]
    for i in range(1, nb):
        island.append(island[-1] + 1 if not o.connected and d.p(o.split) else d.int(0, island[-1]))
    carrier = {k: ("DC" if o.dc and d.p(o.dc) else "AC") for k in range(max(island) + 1)}
    volt = {k: d.pick([1.0, 10.0, 110.0, 380.0]) for k in carrier}

    def ser(f, pc=50):
        return d.maybe_series(T, pc, f)

    def flag(a):
        if o.inactive and d.p(o.inactive):
            a["active"] = False

    buses = []
    for i, b in enumerate(names):
        k = island[i]
        a = {"carrier": carrier[k], "v_nom": volt[k] if d.p(70) or carrier[k] == "DC" or not o.trafos else d.pick([1.0, 10.0, 110.0, 380.0])}
        if d.p(40):
            a["v_mag_pu_set"] = ser(lambda: fine(d, 0.97, 1.03), 40)
        buses.append((b, a))
        comps.append(["Bus", b, a])

    gnames = iter(d.names(10))
    for i, (b, _) in enumerate(buses):
        for _ in range(d.pick([0, 0, 1, 1, 2])):
            nm = next(gnames, None)
            if nm is None:
                break
            a = {"bus": b, "control": d.pick(["PQ", "PQ", "PV", "PV", "Slack"]), "p_set": ser(lambda: fine(d, 0, o.load))}
            if o.q and d.p(50):
                a["q_set"] = ser(lambda: fine(d, -o.load / 4, o.load / 4))
            if d.p(60):
                a["p_nom"] = d.pick([10.0, 50.0, 25.0])
            if o.sign and d.p(o.sign):
                a["sign"] = d.pick([-1.0, 0.5])
            flag(a)
            comps.append(["Generator", nm, a])
    lnames = iter(d.names(8))
    for b, _ in buses:
        for _ in range(d.pick([0, 1, 1, 2])):
            nm = next(lnames, None)
            if nm is None:
                break
            a = {"bus": b, "p_set": ser(lambda: fine(d, 0, o.load))}
            if o.q and d.p(60):
                a["q_set"] = ser(lambda: fine(d, -o.load / 8, o.load / 4))
            flag(a)
            comps.append(["Load", nm, a])
    if o.storage:
        for cls in ("StorageUnit", "Store"):
            snames = iter(d.names(3))
            for nm in snames:
                if not d.p(35):
                    continue
                a = {"bus": d.pick(names), "p_set": ser(lambda: fine(d, -o.load / 2, o.load / 2))}
                if o.q and d.p(50):
                    a["q_set"] = ser(lambda: fine(d, -o.load / 8, o.load / 8))
                if o.sign and d.p(o.sign):
                    a["sign"] = d.pick([-1.0, 0.5])
                flag(a)
                comps.append([cls, nm, a])
    shn = d.names(3)
    for k in range(d.int(*o.shunts)):
        i = d.int(0, nb - 1)
        v2 = buses[i][1]["v_nom"] ** 2
        a = {"bus": buses[i][0], "g": fine(d, 0, o.load / 8) / v2, "b": fine(d, -o.load / 8, o.load / 8) / v2}
        flag(a)
        comps.append(["ShuntImpedance", shn[k], a])
    kn = d.names(3)
    for k in range(d.int(*o.links)):
        a = {"bus0": d.pick(names), "bus1": d.pick(names), "p_set": ser(lambda: fine(d, -o.load / 2, o.load / 2))}
        if d.p(60):
            a["efficiency"] = ser(lambda: d.pick([0.5, 0.9, 1.0, 0.75]))
        if d.p(40):
            a["bus2"] = d.pick(names)
            a["efficiency2"] = ser(lambda: d.pick([0.25, -0.5, 0.6]))
        flag(a)
        comps.append(["Link", kn[k], a])

    lines, trafos = [], []

    def branch(i, j):
        (b0, a0), (b1, a1) = buses[i], buses[j]
        ends = {"bus0": b0, "bus1": b1}
        same = a0["v_nom"] == a1["v_nom"]
        if o.trafos and a0["carrier"] == "AC" and (not same or d.p(20)):
            a = {**ends, **gen_trafo(d, o, ttypes)}
            flag(a)
            trafos.append(a)
        else:
            a = {**ends, **gen_line(d, o, a0["v_nom"], ltypes)}
            if a0["carrier"] == "DC" and "type" not in a:
                a["r"] = fine(d, *o.xpu) * a0["v_nom"] ** 2
                if d.p(50):
                    a["x"] = 0.0
            if d.p(20):
                a["carrier"] = a0["carrier"]
            flag(a)
            lines.append(a)

    pairs = []
    for i in range(1, nb):
        prev = [j for j in range(i) if island[j] == island[i]]
        if prev:
            j = d.pick(prev)
            pairs.append((i, j) if d.p(50) else (j, i))
    cand = [(i, j) for i in range(nb) for j in range(nb) if i != j and island[i] == island[j]]
    for _ in range(d.int(*o.extra)):
        if pairs and d.p(o.par):
            i, j = d.pick(pairs)
            pairs.append((i, j) if d.p(50) else (j, i))
        elif cand:
            pairs.append(d.pick(cand))
    for i, j in pairs:
        branch(i, j)
    ln = d.names(min(len(lines), 15))
    tn = d.names(min(len(trafos), 15))
    bs = [["Line", nm, a] for nm, a in zip(ln, lines)] + [["Transformer", nm, a] for nm, a in zip(tn, trafos)]
    bs = d.draw(st.permutations(bs)) if bs and d.p(50) else bs
    spec["comps"] = types + comps + list(bs)
    return spec
