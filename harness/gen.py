"""Hypothesis generators of network specs for the optimisation checks."""
from __future__ import annotations

from hypothesis import strategies as st

NAMES = ["n2", "n10", "a", "Z", "b c", "0", "m-1", "é", "10", "9", "x.y", "q", "n1", "B", "k"]


class D:
    """Drawing helper."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def p(self, percent):
        """True with about the given probability; simplest value: the likelier one."""
        if percent >= 70:
            return self.draw(st.integers(0, 99)) < percent
        return self.draw(st.integers(0, 99)) >= 100 - percent

    def pick(self, seq):
        return self.draw(st.sampled_from(list(seq)))

    def q(self, lo, hi, step=0.25):
        """Multiple of step within [lo, hi]."""
        a, b = round(lo / step), round(hi / step)
        return self.draw(st.integers(a, b)) * step

    def series(self, T, f):
        return [f() for _ in range(T)]

    def maybe_series(self, T, percent, f):
        if self.p(percent):
            return self.series(T, f)
        return f()

    def names(self, k, prefix=""):
        perm = self.draw(st.permutations(NAMES))
        return [prefix + x for x in perm[:k]]


class O:
    """Options of the network generator."""

    def __init__(self, **kw):
        self.buses = (1, 3)
        self.T = (2, 4)
        self.sns = None
        self.weights = 50  # percent with non-unit snapshot weightings
        self.periods = 0  # percent with investment periods
        self.shed = 85  # percent with load shedding everywhere
        self.dump = 40  # percent with free disposal
        self.loads = (0, 2)
        self.gens = (0, 2)
        self.storage = (0, 0)
        self.stores = (0, 0)
        self.links = (0, 1)
        self.lines = (0, 0)
        self.trafos = False
        self.dc = 0
        self.ext = 20  # percent extendable
        self.mod = 15  # percent modular of the extendables
        self.com = 0
        self.ramp = 0
        self.inactive = 8
        self.series = 35
        self.quad = 0
        self.esum = 0
        self.pset = 0
        self.globals = 0
        self.carriers = ["gas", "wind", "coal"]
        self.losses = False
        self.neg_sign = 10
        self.hot = 0  # percent of nonzero init/cyclic
        self.par = 15  # percent parallel lines
        self.busnom = 0  # percent with per-bus carrier capacity limits
        self.growth = 0  # percent with carrier growth limits (multi-period)
        self.uceq = 0  # percent with equal start-up and shut-down costs
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


@st.composite
def networks(draw, opt):
    return gen_network(D(draw), opt)


def gen_network(d, o):
    periods = None
    n = d.int(*o.T)
    if o.periods and d.p(o.periods):
        k = d.int(2, 3)
        periods = [2020, 2030, 2040][:k] if d.p(60) else [2025, 2030, 2050][:k]
        n = d.int(1, 3)
    T = n * (len(periods) if periods else 1)
    spec = {"n": n, "sns": o.sns or d.pick(["int", "dt", "str"]), "periods": periods, "comps": []}
    if d.p(o.weights):
        w = [1.0, 2.0, 3.0, 0.5, 4.0]
        spec["weights"] = {k: d.series(T, lambda: d.pick(w)) for k in ("objective", "stores", "generators")}
    if periods and d.p(80):
        spec["pweights"] = {k: [d.pick([1.0, 2.0, 10.0, 0.5, 5.0]) for _ in periods] for k in ("objective", "years")}
    comps = spec["comps"]

    # carriers
    cars = list(o.carriers)
    for c in cars:
        a = {}
        if d.p(60):
            a["co2_emissions"] = d.q(0.25, 2)
        comps.append(["Carrier", c, a])
    comps.append(["Carrier", "AC", {}])
    comps.append(["Carrier", "DC", {}])

    # buses
    nb = d.int(*o.buses)
    bnames = d.names(nb)
    dc_from = nb
    if o.dc and nb >= 2 and d.p(o.dc):
        dc_from = d.int(1, nb - 1)
    buses = []
    vset = [1.0, 2.0, 10.0] if (o.lines[1] or o.trafos) else [1.0]
    v0 = d.pick(vset)
    for i, b in enumerate(bnames):
        a = {"v_nom": v0 if not o.trafos or d.p(60) else d.pick(vset), "carrier": "AC" if i < dc_from else "DC"}
        comps.append(["Bus", b, a])
        buses.append((b, a))

    def life(a):
        """build year / lifetime (multi-period) and the active flag."""
        if periods and d.p(60):
            a["build_year"] = d.pick([0, 2010] + periods)
            a["lifetime"] = d.pick([5, 10, 15, 25, "inf"]) if d.p(70) else "inf"
        if d.p(o.inactive):
            a["active"] = False

    def cap(a, nom, lo, hi, cc=(0, 20), mx=True):
        a[nom] = d.q(lo, hi, 5)
        if d.p(o.ext):
            a[nom + "_extendable"] = True
            a["capital_cost"] = d.q(cc[0], cc[1], 1)
            if d.p(30):
                a[nom + "_min"] = d.q(0, 20, 5)
            if mx and d.p(60) or o.losses:
                a[nom + "_max"] = a.get(nom + "_min", 0) + d.q(5 if o.losses else 0, 60, 5)
            if o.mod and d.p(o.mod):
                a[nom + "_mod"] = d.pick([3.0, 5.0, 7.5, 10.0])
                lim = a.get(nom + "_max", 1e9)
                if lim != 1e9 and lim // a[nom + "_mod"] * a[nom + "_mod"] < a.get(nom + "_min", 0):
                    a.pop(nom + "_min", None)
            elif d.p(8):
                a[nom + "_set"] = a.get(nom + "_min", 0) + d.q(0, 1, 0.25) * (a.get(nom + "_max", 20 + a.get(nom + "_min", 0)) - a.get(nom + "_min", 0))
            return True
        return False

    def ser(f):
        return d.maybe_series(T, o.series, f)

    shed = d.p(o.shed)
    dump = d.p(o.dump)
    if shed:
        for i, (b, _) in enumerate(buses):
            comps.append(["Generator", f"shed {b}", {"bus": b, "p_nom": 1000.0, "marginal_cost": 200.0 + 13 * i, "carrier": "shed"}])
        comps.insert(0, ["Carrier", "shed", {}])
    if dump:
        for b, _ in buses:
            comps.append(["Generator", f"dump {b}", {"bus": b, "p_nom": 500.0, "sign": -1.0, "carrier": "shed"}])
        if not shed:
            comps.insert(0, ["Carrier", "shed", {}])

    lnames = iter(d.names(8))
    for b, _ in buses:
        for _ in range(d.int(*o.loads)):
            a = {"bus": b, "p_set": ser(lambda: d.q(0, 60, 5))}
            if d.p(o.neg_sign):
                a["sign"] = d.pick([1.0, -2.0])
            if d.p(o.inactive):
                a["active"] = False
            nm = next(lnames, None)
            if nm is not None:
                comps.append(["Load", nm, a])

    gnames = iter(d.names(8))
    for b, _ in buses:
        for _ in range(d.int(*o.gens)):
            nm = next(gnames, None)
            if nm is None:
                break
            comps.append(["Generator", nm, gen_generator(d, o, T, b, cars, cap, ser, life)])

    snames = iter(d.names(6))
    for b, _ in buses:
        for _ in range(d.int(*o.storage)):
            nm = next(snames, None)
            if nm:
                comps.append(["StorageUnit", nm, gen_storage(d, o, T, b, cars, cap, ser, life)])
    snames = iter(d.names(6))
    for b, _ in buses:
        for _ in range(d.int(*o.stores)):
            nm = next(snames, None)
            if nm:
                comps.append(["Store", nm, gen_store(d, o, T, b, cars, cap, ser, life)])

    knames = iter(d.names(6))
    for _ in range(d.int(*o.links)):
        nm = next(knames, None)
        if nm:
            comps.append(["Link", nm, gen_link(d, o, T, bnames, cap, ser, life)])

    if o.lines[1]:
        gen_branches(d, o, T, spec, buses, cap, ser, life, dc_from)
    if o.globals:
        gen_globals(d, o, spec, periods)
    return spec


def gen_generator(d, o, T, b, cars, cap, ser, life):
    a = {"bus": b, "carrier": d.pick(cars), "marginal_cost": ser(lambda: d.q(0, 40, 1))}
    ext = cap(a, "p_nom", 0, 100)
    if d.p(50):
        a["p_max_pu"] = ser(lambda: d.q(0.25, 1, 0.25))
    if d.p(20):
        a["p_min_pu"] = ser(lambda: d.pick([0.0, 0.25, -0.5, 0.1]))
        if d.p(50):
            a["p_max_pu"] = ser(lambda: d.q(0.5, 1, 0.25))
    if d.p(o.neg_sign):
        a["sign"] = d.pick([-1.0, 0.5])
    if d.p(30):
        a["efficiency"] = ser(lambda: d.pick([0.5, 0.8, 1.0, 0.4]))
    if o.quad and d.p(o.quad):
        a["marginal_cost_quadratic"] = ser(lambda: d.q(0, 1, 0.125))
    if o.pset and d.p(o.pset) and not ext:
        lo = 0.0
        a["p_set"] = d.series(T, lambda: None if d.p(60) else d.q(lo, 1, 0.25) * 0.25 * a["p_nom"])
    if o.esum and d.p(o.esum):
        if d.p(60):
            a["e_sum_max"] = d.q(0, 100, 5)
        if d.p(40):
            a["e_sum_min"] = d.q(0, 30, 5)
            if "e_sum_max" in a and a["e_sum_max"] < a["e_sum_min"]:
                a["e_sum_max"] = a["e_sum_min"]
    if o.com and not ext and d.p(o.com):
        commit(d, o, T, a)
    if o.ramp and d.p(o.ramp):
        ramp(d, o, T, a, bool(a.get("committable")))
    life(a)
    return a


def commit(d, o, T, a):
    a["committable"] = True
    a["p_nom"] = d.q(20, 100, 5)
    a.pop("p_set", None)
    a["p_min_pu"] = d.pick([0.0, 0.25, 0.5, 0.1]) if d.p(75) else d.series(T, lambda: d.pick([0.0, 0.2, 0.4]))
    if d.p(40):
        a["p_max_pu"] = d.maybe_series(T, 50, lambda: d.pick([1.0, 0.75, 0.5]))
    if d.p(60):
        a["start_up_cost"] = d.q(0, 800, 50)
    if d.p(50):
        a["shut_down_cost"] = a["start_up_cost"] if "start_up_cost" in a and d.p(50) else d.q(0, 500, 50)
    if o.uceq and d.p(o.uceq):
        a["start_up_cost"] = a["shut_down_cost"] = d.q(50, 500, 50)
        a["p_min_pu"] = d.pick([0.25, 0.5, 0.4]) if d.p(40) else d.series(T, lambda: d.pick([0.0, 0.25, 0.5]))
        a["p_max_pu"] = d.series(T, lambda: d.pick([1.0, 0.5, 0.75]))
    if d.p(40):
        a["stand_by_cost"] = d.q(0, 200, 10)
    if d.p(50):
        a["min_up_time"] = d.int(0, 4)
    if d.p(50):
        a["min_down_time"] = d.int(0, 4)
    if d.p(60):
        if d.p(50):
            a["up_time_before"], a["down_time_before"] = 0, d.int(1, 3)
        else:
            a["up_time_before"], a["down_time_before"] = d.int(1, 3), 0


def ramp(d, o, T, a, com):
    r = [0.1, 0.25, 0.5, 0.75]
    if d.p(75):
        a["ramp_limit_up"] = d.pick(r) if d.p(85 if com else 70) else d.series(T, lambda: d.pick(r + [1.0]))
    if d.p(75):
        a["ramp_limit_down"] = d.pick(r) if d.p(85 if com else 70) else d.series(T, lambda: d.pick(r + [1.0]))
    if com:
        if d.p(50):
            a["ramp_limit_start_up"] = d.pick([0.5, 0.6, 0.8, 1.0])
        if d.p(50):
            a["ramp_limit_shut_down"] = d.pick([0.5, 0.6, 0.8, 1.0])


def gen_storage(d, o, T, b, cars, cap, ser, life):
    a = {"bus": b, "carrier": d.pick(cars)}
    cap(a, "p_nom", 5, 50)
    a["max_hours"] = d.pick([1.0, 2.0, 4.0, 6.0])
    if d.p(60):
        a["efficiency_store"] = ser(lambda: d.pick([0.9, 0.75, 0.5, 1.0]))
    if d.p(60):
        a["efficiency_dispatch"] = ser(lambda: d.pick([0.9, 0.75, 0.5, 1.0]))
    if d.p(50):
        a["standing_loss"] = ser(lambda: d.pick([0.0, 0.1, 0.25, 0.5]))
    if d.p(50):
        a["inflow"] = ser(lambda: d.pick([0.0, 5.0, 10.0, 40.0]))
    if d.p(45):
        a["cyclic_state_of_charge"] = True
    cyc = a.get("cyclic_state_of_charge")
    if d.p(50):
        a["cyclic_state_of_charge_per_period"] = d.p(50)
    if d.p(30):
        a["state_of_charge_initial_per_period"] = d.p(50)
    if d.p(60):
        base = a["p_nom"] if not a.get("p_nom_extendable") else max(a.get("p_nom_min", 0), 5)
        a["state_of_charge_initial"] = d.q(0, 1, 0.25) * base * a["max_hours"]
    if not cyc and d.p(15) and not a.get("p_nom_extendable"):
        a["state_of_charge_set"] = d.series(T, lambda: None if d.p(75) else d.q(0, 0.5, 0.25) * a["p_nom"] * a["max_hours"])
    if d.p(30):
        a["marginal_cost"] = ser(lambda: d.q(0, 20, 1))
    if d.p(25):
        a["marginal_cost_storage"] = ser(lambda: d.q(0, 4, 0.5))
    if d.p(30):
        a["spill_cost"] = ser(lambda: d.q(0, 30, 5))
    if d.p(30):
        a["p_max_pu"] = ser(lambda: d.pick([0.5, 0.25, 1.0]))
    if d.p(30):
        a["p_min_pu"] = ser(lambda: d.pick([-0.5, -1.0, 0.0, -0.25]))
    if o.quad and d.p(o.quad):
        a["marginal_cost_quadratic"] = d.q(0, 1, 0.125)
    if d.p(o.neg_sign):
        a["sign"] = d.pick([-1.0, 0.5])
    life(a)
    return a


def gen_store(d, o, T, b, cars, cap, ser, life):
    a = {"bus": b, "carrier": d.pick(cars)}
    cap(a, "e_nom", 10, 100)
    if d.p(50):
        a["standing_loss"] = ser(lambda: d.pick([0.0, 0.1, 0.25, 0.5]))
    if d.p(40):
        a["e_cyclic"] = True
    if d.p(50):
        a["e_cyclic_per_period"] = d.p(50)
    if d.p(30):
        a["e_initial_per_period"] = d.p(50)
    base = a["e_nom"] if not a.get("e_nom_extendable") else max(a.get("e_nom_min", 0), 5)
    if d.p(60):
        a["e_initial"] = d.q(0, 1, 0.25) * base
    if d.p(40):
        a["e_max_pu"] = ser(lambda: d.pick([0.5, 0.75, 1.0]))
        if "e_initial" in a:
            a["e_initial"] *= 0.5
    if d.p(30):
        a["e_min_pu"] = ser(lambda: d.pick([0.0, -0.5, -1.0, 0.1]))
    if d.p(30):
        a["marginal_cost"] = ser(lambda: d.q(0, 20, 1))
    if d.p(30):
        a["marginal_cost_storage"] = ser(lambda: d.q(0, 4, 0.5))
    if o.quad and d.p(o.quad):
        a["marginal_cost_quadratic"] = d.q(0, 1, 0.125)
    if d.p(10) and not a.get("e_nom_extendable"):
        a["e_set"] = d.series(T, lambda: None if d.p(75) else d.q(0.25, 0.5, 0.25) * a["e_nom"])
    if d.p(o.neg_sign):
        a["sign"] = d.pick([-1.0, 0.5])
    life(a)
    return a


def gen_link(d, o, T, bnames, cap, ser, life):
    b0, b1 = d.pick(bnames), d.pick(bnames)
    a = {"bus0": b0, "bus1": b1}
    ext = cap(a, "p_nom", 5, 80)
    if d.p(60):
        a["efficiency"] = ser(lambda: d.pick([0.9, 0.5, 1.0, 0.75, 2.0]))
    if d.p(25):
        a["p_min_pu"] = ser(lambda: d.pick([-1.0, -0.5, 0.0, 0.25]))
    if d.p(30):
        a["p_max_pu"] = ser(lambda: d.pick([0.5, 0.75, 1.0]))
    if d.p(50):
        a["marginal_cost"] = ser(lambda: d.q(0, 10, 1))
    if d.p(35):
        a["bus2"] = d.pick(bnames)
        a["efficiency2"] = ser(lambda: d.pick([0.5, -0.25, 0.75, 0.0]))
        if d.p(40):
            a["bus3"] = d.pick(bnames)
            a["efficiency3"] = ser(lambda: d.pick([0.5, -0.25, 0.25]))
    if o.quad and d.p(o.quad // 2):
        a["marginal_cost_quadratic"] = d.q(0, 1, 0.125)
    if o.pset and d.p(o.pset) and not ext:
        a["p_set"] = d.series(T, lambda: None if d.p(60) else d.q(0.25, 0.5, 0.25) * a["p_nom"])
    if d.p(40):
        a["carrier"] = d.pick(["AC", "DC", "gas"])
    if d.p(40):
        a["length"] = d.q(1, 10, 1)
    if o.com and not ext and d.p(o.com // 2):
        commit(d, o, T, a)
    if o.ramp and d.p(o.ramp):
        ramp(d, o, T, a, bool(a.get("committable")))
    # loops that multiply energy make problems unbounded: keep round trips lossy
    effs = [a.get("efficiency", 1.0)]
    lst = effs[0] if isinstance(effs[0], list) else effs
    if b0 == b1 or max(lst) > 1:
        a["marginal_cost"] = 2.0 if b0 != b1 else 1.0
    life(a)
    return a


def gen_branches(d, o, T, spec, buses, cap, ser, life, dc_from):
    comps = spec["comps"]
    nl = d.int(*o.lines)
    ln = iter(d.names(9))
    tn = iter(d.names(9))
    parts = [list(range(0, dc_from)), list(range(dc_from, len(buses)))]
    made = []
    for k in range(nl):
        part = [p for p in parts if len(p) >= 2]
        if not part:
            return
        part = part[0] if len(part) == 1 else d.pick(part)
        if made and d.p(o.par):
            i, j = d.pick(made)
            if d.p(50):
                i, j = j, i
        else:
            i = d.pick(part)
            j = d.pick([x for x in part if x != i])
        made.append((i, j))
        (b0, a0), (b1, a1) = buses[i], buses[j]
        same = a0["v_nom"] == a1["v_nom"]
        trafo = o.trafos and a0["carrier"] == "AC" and (not same or d.p(15))
        if not same and not trafo:
            a1["v_nom"] = a0["v_nom"] if not o.trafos else a1["v_nom"]
        a = {"bus0": b0, "bus1": b1}
        if trafo:
            nm = next(tn, None)
            if nm is None:
                continue
            cap(a, "s_nom", 10, 100)
            a["s_nom"] = max(a["s_nom"], 10.0)
            a["x"] = d.pick([0.1, 0.2, 0.5, 1.0])
            a["r"] = d.pick([0.01, 0.05, 0.1])
            if d.p(50):
                a["tap_ratio"] = d.pick([0.9, 1.1, 0.5, 1.25])
            cls = "Transformer"
        else:
            nm = next(ln, None)
            if nm is None:
                continue
            cap(a, "s_nom", 5, 100)
            v2 = a0["v_nom"] ** 2
            a["x"] = d.pick([0.1, 0.2, 0.3, 0.5, 1.0]) * v2
            a["r"] = d.pick([0.01, 0.02, 0.05, 0.1]) * (0.02 if o.losses else 1) * v2
            a["carrier"] = a0["carrier"]
            a["length"] = d.q(1, 10, 1)
            cls = "Line"
        if o.losses and cls == "Transformer":
            a["r"] = d.pick([0.001, 0.005, 0.01]) * a["s_nom"] * 0.02
        if d.p(30):
            a["s_max_pu"] = ser(lambda: d.pick([0.5, 0.7, 1.0]))
        life(a)
        comps.append([cls, nm, a])


def gen_globals(d, o, spec, periods):
    comps = spec["comps"]
    types = ["primary_energy", "operational_limit", "transmission_volume_expansion_limit",
             "transmission_expansion_cost_limit", "tech_capacity_expansion_limit"]
    k = 0
    P = lambda: ({"investment_period": d.pick(periods)} if periods and d.p(40) else {})
    gnames = d.names(4)
    for i in range(d.int(1, 3)):
        if not d.p(o.globals):
            continue
        typ = d.pick(types)
        a = {"type": typ, **P()}
        a["sense"] = d.pick(["<=", "<=", "<=", ">=", "=="]) if typ in ("primary_energy", "operational_limit") else d.pick(["<=", "<=", "==", ">="])
        if typ == "primary_energy":
            a["carrier_attribute"] = "co2_emissions"
            a["constant"] = d.q(0, 200, 10) if d.p(40) else d.q(0, 30, 2.5)
        elif typ == "operational_limit":
            a["carrier_attribute"] = d.pick(o.carriers)
            a["constant"] = d.q(0, 100, 5) if d.p(50) else d.q(0, 20, 2.5)
        elif typ.startswith("transmission"):
            a["carrier_attribute"] = d.pick(["AC", "DC", "AC, DC", "[AC,DC]"])
            a["constant"] = d.q(10, 300, 10)
        else:
            a["carrier_attribute"] = d.pick(o.carriers)
            a["constant"] = d.q(10, 60, 5)
            if o.busnom and d.p(25):
                a["bus"] = d.pick([c[1] for c in comps if c[0] == "Bus"])
        comps.append(["GlobalConstraint", gnames[i], a])
    if o.busnom and d.p(o.busnom):
        kind = d.pick(["max", "max", "min"])
        col = f"nom_{kind}_{d.pick(o.carriers)}"
        if periods and d.p(50):
            col += f"_{d.pick(periods)}"
        for c in comps:
            if c[0] == "Bus" and d.p(70):
                c[2][col] = d.q(0, 10, 1) if kind == "min" else d.q(5, 50, 5)
    if periods and o.growth and d.p(o.growth):
        for c in comps:
            if c[0] == "Carrier" and c[1] in o.carriers and d.p(60):
                c[2]["max_growth"] = d.q(5, 50, 5)
                if d.p(40):
                    c[2]["max_relative_growth"] = d.pick([0.5, 1.0, 2.0])
