"""C29: spatial clustering conserves the system."""
import math

from hypothesis import strategies as st

from harness import anynet as N, attrs as A, gen, net, solcheck
from harness.core import Test, Violation
from harness.gen import D

ONE = ("Generator", "Load", "Store", "StorageUnit", "ShuntImpedance")
SUMS = {"p_set", "q_set", "p_nom", "p_nom_max", "p_nom_min", "e_nom", "e_nom_max", "e_nom_min", "weight", "inflow"}
MEANS = {"ramp_limit_up", "ramp_limit_down", "ramp_limit_start_up", "ramp_limit_shut_down"}
WEIGHTED = {"p_max_pu", "p_min_pu", "capital_cost", "marginal_cost", "efficiency", "max_hours"}
FIXED = {"build_year": 0, "lifetime": math.inf, "control": ""}
R = 6371.0


def km(a, b):
    """Great-circle distance from the central angle (spherical law through unit vectors)."""
    def vec(p):
        lon, lat = math.radians(p[0]), math.radians(p[1])
        return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))

    u, v = vec(a), vec(b)
    cross = math.sqrt(sum((u[i - 2] * v[i - 1] - u[i - 1] * v[i - 2]) ** 2 for i in range(3)))
    return R * math.atan2(cross, sum(x * y for x, y in zip(u, v)))


# attributes with values which differ between members of a cluster / which have to agree
FREE = {
    "Generator": ["p_nom", "p_nom_min", "p_nom_max", "p_max_pu", "p_min_pu", "marginal_cost", "capital_cost", "efficiency", "weight", "ramp_limit_up", "p_set", "q_set"],
    "Load": ["p_set", "q_set"],
    "Store": ["e_nom", "e_nom_min", "e_nom_max", "marginal_cost", "capital_cost", "p_set"],
    "StorageUnit": ["p_nom", "p_nom_min", "p_nom_max", "p_max_pu", "p_min_pu", "marginal_cost", "capital_cost", "max_hours", "inflow", "p_set"],
    "ShuntImpedance": [],
}
AGREE = {
    "Generator": ["p_nom_extendable", "committable", "sign", "marginal_cost_quadratic", "start_up_cost", "min_up_time", "p_nom_mod", "stand_by_cost", "active"],
    "Load": ["sign", "active"],
    "Store": ["e_nom_extendable", "e_min_pu", "e_max_pu", "e_initial", "e_cyclic", "standing_loss", "sign"],
    "StorageUnit": ["p_nom_extendable", "efficiency_store", "efficiency_dispatch", "standing_loss", "state_of_charge_initial", "cyclic_state_of_charge", "spill_cost"],
    "ShuntImpedance": ["g", "b"],
}
LFREE = ["s_nom", "s_nom_min", "s_nom_max", "s_max_pu", "capital_cost", "num_parallel", "terrain_factor", "s_nom_extendable", "r", "g", "b", "lifetime", "build_year", "v_ang_min", "v_ang_max"]
LAGREE = ["carrier", "s_nom_mod", "active"]


def val(d, cls, a):
    k = A.attrs_of(cls)[a]["kind"]
    if k == "bool":
        return d.p(50)
    if k == "int":
        return d.int(0, 4)
    if k == "str":
        return d.pick(["AC", "DC", ""])
    if a.endswith("_max") and "nom" in a and d.p(20):
        return "inf"
    if a in ("p_nom", "e_nom", "s_nom") and d.p(25):
        return 0.0
    if a == "v_ang_min":
        return d.q(-6, 0)
    if a in ("weight", "lifetime"):
        return d.q(1, 6)
    return d.q(0, 6)


def network(d, periods=True, aggregate=True):
    nb = d.pick([1, 2, 3, 4, 5, 6, 4, 5])
    T = d.int(1, 3)
    spec = {"n": T, "sns": d.pick(["int", "dt", "str"]), "comps": []}
    if periods and d.p(15):
        spec["periods"] = [2020, 2030]
        spec["pweights"] = {"objective": [1.0, 0.5], "years": [10.0, 5.0]}
    TT = net.nsteps(spec)
    if d.p(50):
        spec["weights"] = {k: [d.q(1, 4) for _ in range(TT)] for k in ("objective", "stores", "generators")}
    comps = spec["comps"]
    buses = [f"b{i}" for i in range(nb)]
    vb = d.pick([[380.0], [110.0, 380.0]])
    country = d.p(30)
    for i, b in enumerate(buses):
        a = {"x": float(d.int(-10, 20)) + i / 8, "y": float(d.int(-30, 60)), "v_nom": d.pick(vb)}
        if country:
            a["country"] = "DE"
        if d.p(3):
            a["carrier"] = "DC"
        if d.p(10):
            a["v_mag_pu_max"] = d.pick([1.1, 1.2])
        comps.append(["Bus", b, a])
    cars = ["wind", "gas"][: d.int(1, 2)]
    for c in cars:
        comps.append(["Carrier", c, {"co2_emissions": d.q(0, 4)}])

    def series(cls, a, v, p):
        i = A.attrs_of(cls)[a]
        if i["varying"] and d.p(p) and not isinstance(v, (bool, str)):
            return [d.q(0, 6) for _ in range(TT)]
        return v

    for cls in ONE:
        k = d.pick([0, 1, 2, 3, 5]) if cls in ("Generator", "Load") else d.pick([0, 0, 1, 2, 3])
        profile = {}
        cc = cars + [""]
        attrs = [a for a in AGREE[cls] if d.p(25)]
        for j in range(k):
            a = {"bus": d.pick(buses)}
            if cls != "ShuntImpedance":
                a["carrier"] = d.pick(cc)
            for f in FREE[cls]:
                if d.p(45):
                    a[f] = series(cls, f, val(d, cls, f), 40)
            for f in attrs:
                key = (f, a.get("carrier"))
                if key not in profile:
                    profile[key] = series(cls, f, val(d, cls, f), 15)
                a[f] = profile[key] if not d.p(2) else val(d, cls, f)
            comps.append([cls, f"{cls[:2]}{j}", a])
    lprof = {f: val(d, "Line", f) for f in LAGREE if d.p(25)}
    lattrs = [f for f in LFREE if d.p(40)]
    if nb > 1:
        for j in range(d.int(0, 6)):
            i0 = d.int(0, nb - 1)
            i1 = (i0 + d.int(1, nb - 1)) % nb
            a = {"bus0": buses[i0], "bus1": buses[i1], "x": d.q(1, 8), "length": d.pick([0.0, 100.0, 250.0])}
            for f in lattrs:
                if d.p(70):
                    a[f] = series("Line", f, val(d, "Line", f), 40)
            a.update(lprof)
            if d.p(2):
                a["s_nom_mod"] = 7.0
            comps.append(["Line", f"l{j}", a])
        for j in range(d.pick([0, 0, 0, 1])):
            i0 = d.int(0, nb - 1)
            comps.append(["Transformer", f"t{j}", {"bus0": buses[i0], "bus1": buses[(i0 + d.int(1, nb - 1)) % nb], "x": d.q(1, 8), "s_nom": d.q(1, 8), "phase_shift": series("Transformer", "s_max_pu", d.q(0, 4), 0),
                                               "s_max_pu": series("Transformer", "s_max_pu", d.q(0, 4), 50)}])
    ports = d.p(35)
    for j in range(d.pick([0, 0, 1, 2, 3])):
        i0, i1 = d.int(0, nb - 1), d.int(0, nb - 1)
        a = {"bus0": buses[i0], "bus1": buses[i1], "length": d.pick([0.0, 0.0, 100.0, 50.0]), "p_nom": d.q(0, 8), "capital_cost": d.q(0, 8), "efficiency": series("Link", "efficiency", d.q(0, 4), 40),
             "marginal_cost": d.q(0, 4), "p_max_pu": series("Link", "p_max_pu", d.q(0, 4), 40)}
        if ports and d.p(60):
            a["bus2"] = d.pick(buses)
            a["efficiency2"] = series("Link", "efficiency", d.q(0, 4), 40)
        comps.append(["Link", f"k{j}", a])
    if d.p(30):
        comps.append(["GlobalConstraint", "co2", {"type": "primary_energy", "carrier_attribute": "co2_emissions", "sense": "<=", "constant": d.q(0, 50)}])
    return spec


@st.composite
def specs(draw):
    d = D(draw)
    spec = network(d)
    buses = [nm for c, nm, _ in spec["comps"] if c == "Bus"]
    kind = d.pick(["any"] * 8 + ["identity", "one"])
    names = ["A", "B", "C", "b0", "10", "2"]
    if kind == "identity":
        m = {b: b for b in buses}
    elif kind == "one":
        m = {b: "A" for b in buses}
    else:
        k = d.int(min(2, len(buses)), max(1, min(4, len(buses))))
        m = {b: d.pick(names[:k]) for b in buses}
    order = sorted(buses) if d.p(50) else sorted(buses, reverse=True)
    spec["busmap"] = [[b, m[b]] for b in order]
    o = {"form": d.pick(["series", "series", "dict"])}
    if d.p(60):
        o["aggregate_one_ports"] = [c for c in ONE if d.p(60)]
    if d.p(50) and "Generator" not in o.get("aggregate_one_ports", []):
        o["aggregate_generators_weighted"] = True
        if d.p(40):
            o["aggregate_generators_carriers"] = [c for c in ("wind", "gas", "") if d.p(50)]
    if d.p(30):
        o["line_length_factor"] = d.pick([1.25, 2.0])
    if d.p(20):
        o["with_time"] = False
    if d.p(20):
        o["scale_link_capital_costs"] = False
    if d.p(15):
        o["bus_strategies"] = {"v_nom": "min"}
    if d.p(20):
        o["custom_line_groupers"] = ["carrier"]
    if d.p(20):
        o["line_strategies"] = d.pick([{"s_nom": "max"}, {"capital_cost": "mean"}, {"s_max_pu": "min"}, {"num_parallel": "max"}])
    s = d.pick([{"p_max_pu": "max"}, {"marginal_cost": "mean"}, {"p_nom_max": "min"}, {"lifetime": "min", "build_year": "max"}, {"marginal_cost": "weighted_average", "capital_cost": "weighted_average"}, {"ramp_limit_up": "min"}])
    if d.p(25) and o.get("aggregate_generators_weighted"):
        o["generator_strategies"] = s
    elif d.p(25) and "Generator" in o.get("aggregate_one_ports", []):
        o["one_port_strategies"] = {"Generator": s}
    spec["options"] = o
    return spec


class Disagree(Exception):
    pass


class Ref:
    """The clustered network worked out from the plain description."""

    def __init__(self, spec):
        self.spec = spec
        self.o = spec["options"]
        self.m = dict(map(tuple, spec["busmap"]))
        self.TT = net.nsteps(spec)
        self.comps = {}
        for c, nm, a in spec["comps"]:
            self.comps.setdefault(c, {})[nm] = a
        self.time = self.o.get("with_time", True)

    def get(self, cls, nm, a):
        i = A.attrs_of(cls, (2,))[a]
        v = self.comps[cls][nm].get(a)
        if v is None:
            return A.default(i)
        if isinstance(v, list):
            return [net.num(x) for x in v] if self.time else A.default(i)
        return net.num(v)

    def names(self, cls):
        return list(self.comps.get(cls, {}))

    def dense(self, v):
        return v if isinstance(v, list) else [v] * self.TT

    def combine(self, cls, members, a, how, w=None):
        """One value (or series) out of those of the members."""
        vals = [self.get(cls, x, a) for x in members]
        if any(isinstance(v, list) for v in vals):
            cols = [self.dense(v) for v in vals]
            return [self.one([c[t] for c in cols], how, w, a) for t in range(self.TT)]
        return self.one(vals, how, w, a)

    @staticmethod
    def one(v, how, w, a):
        ok = [x for x in v if not A.missing(x)]
        if how == "agree":
            if len(ok) not in (0, len(v)) or any(x != v[0] for x in ok):
                raise Disagree(a)
            return v[0]
        if how == "w":
            return sum(x * y for x, y in zip(v, w) if y != 0)
        if how == "sum":
            return sum(ok)
        if not ok:
            return math.nan
        if how == "mean":
            return sum(ok) / len(ok)
        return {"max": max, "min": min, "any": any}[how](ok)

    def static_agree(self, cls, members, a):
        """Static values have to agree too, even where series are given."""
        s = []
        for x in members:
            v = self.comps[cls][x].get(a)
            s.append(A.default(A.attrs_of(cls)[a]) if v is None or isinstance(v, list) else net.num(v))
        self.one(s, "agree", None, a)

    def uniform(self, v):
        t = sum(v)
        return [x / t for x in v] if t > 0 else [1 / len(v)] * len(v)

    def oneports(self, cls):
        o, m = self.o, self.m
        agg = cls in o.get("aggregate_one_ports", []) or (cls == "Generator" and o.get("aggregate_generators_weighted"))
        car = o.get("aggregate_generators_carriers") if cls == "Generator" and o.get("aggregate_generators_weighted") else None
        strat = o.get("generator_strategies") if cls == "Generator" and o.get("aggregate_generators_weighted") else o.get("one_port_strategies", {}).get(cls)
        strat = strat or {}
        out, groups = {}, {}
        attrs = [a for a, i in A.attrs_of(cls).items() if not i["status"].startswith("Out") and a not in ("name", "type", "control")]
        hascar = cls != "ShuntImpedance"
        for nm in self.names(cls):
            bus = m[self.get(cls, nm, "bus")]
            c = self.get(cls, nm, "carrier") if hascar else None
            if agg and (car is None or c in car):
                groups.setdefault((bus, c), []).append(nm)
            else:
                out[nm] = {a: self.get(cls, nm, a) for a in attrs}
                out[nm]["bus"] = bus
        for (bus, c), mem in groups.items():
            row = {"bus": bus}
            cap = {"Store": "e_nom", "Generator": "p_nom", "StorageUnit": "p_nom"}.get(cls)
            w = self.uniform([self.get(cls, x, cap) for x in mem]) if cap else None
            ww = self.uniform([self.get(cls, x, "weight") for x in mem]) if cls == "Generator" else None
            for a in attrs:
                if a == "bus":
                    continue
                if a in strat:
                    how = strat[a]
                    row[a] = self.combine(cls, mem, a, "w", ww) if how == "weighted_average" else self.combine(cls, mem, a, how)
                elif a in SUMS:
                    row[a] = self.combine(cls, mem, a, "sum")
                elif a in MEANS:
                    row[a] = self.combine(cls, mem, a, "mean")
                elif a in WEIGHTED and cap:
                    row[a] = self.combine(cls, mem, a, "w", w)
                elif a in FIXED:
                    row[a] = FIXED[a]
                elif a == "carrier":
                    row[a] = c
                else:
                    self.static_agree(cls, mem, a)
                    row[a] = self.combine(cls, mem, a, "agree")
                    if self.time and any(isinstance(self.comps[cls][x].get(a), list) for x in self.names(cls)):
                        # all members become series
                        self.combine(cls, mem, a, "agree")
            out[f"{bus} {c}".strip() if c is not None else bus] = row
        return out

    def buses(self):
        out, groups = {}, {}
        for b in self.names("Bus"):
            groups.setdefault(self.m[b], []).append(b)
        vs = self.o.get("bus_strategies", {}).get("v_nom", "max")
        for k, mem in groups.items():
            row = {a: self.combine("Bus", mem, a, h) for a, h in (("x", "mean"), ("y", "mean"), ("v_nom", vs), ("v_mag_pu_max", "min"), ("v_mag_pu_min", "max"))}
            for a in ("carrier", "unit", "v_mag_pu_set"):
                row[a] = self.combine("Bus", mem, a, "agree")
            out[k] = row
        return out

    def lines(self, buses):
        o, m = self.o, self.m
        groups = {}
        for l in self.names("Line"):
            ends = sorted((m[self.get("Line", l, "bus0")], m[self.get("Line", l, "bus1")]))
            if ends[0] != ends[1]:
                key = (*ends, self.get("Line", l, "carrier")) if o.get("custom_line_groupers") else tuple(ends)
                groups.setdefault(key, []).append(l)
        out = {}
        strat = o.get("line_strategies", {})
        for key, mem in groups.items():
            c0, c1 = buses[key[0]], buses[key[1]]
            new = km((c0["x"], c0["y"]), (c1["x"], c1["y"])) * o.get("line_length_factor", 1.0)
            v = max(c0["v_nom"], c1["v_nom"])
            orig = [self.get("Line", l, "length") for l in mem]
            lf = [new / x if x > 0 else 1.0 for x in orig]
            vf = [(self.get("Bus", self.get("Line", l, "bus0"), "v_nom") / v) ** 2 for l in mem]
            w = self.uniform([self.get("Line", l, "s_nom") for l in mem])
            row = {"length": new}
            for a in ("s_nom", "s_nom_min", "s_nom_max", "num_parallel"):
                row[a] = self.combine("Line", mem, a, "sum")
            for a in ("s_max_pu", "lifetime", "build_year"):
                row[a] = self.combine("Line", mem, a, "w", w)
            if len({self.get("Line", l, "build_year") for l in mem}) > 1:
                del row["build_year"]  # an integer attribute
            row["terrain_factor"] = self.combine("Line", mem, "terrain_factor", "mean")
            row["s_nom_extendable"] = self.combine("Line", mem, "s_nom_extendable", "any")
            row["v_ang_min"] = self.combine("Line", mem, "v_ang_min", "max")
            row["v_ang_max"] = self.combine("Line", mem, "v_ang_max", "min")
            row["capital_cost"] = self.combine("Line", mem, "capital_cost", "w", [x * y for x, y in zip(w, lf)])
            if new > 0:
                for a in ("r", "x"):
                    z = [f * self.get("Line", l, a) / u for l, f, u in zip(mem, lf, vf)]
                    row[a] = 0.0 if any(x == 0 for x in z) else 1 / sum(1 / x for x in z)
                for a in ("g", "b"):
                    row[a] = sum(f * u * self.get("Line", l, a) for l, f, u in zip(mem, lf, vf))
            for a, h in strat.items():
                row[a] = self.combine("Line", mem, a, h)
            for a in ("carrier", "s_nom_mod", "active", "type"):
                row[a] = self.combine("Line", mem, a, "agree")
            out[key] = (row, mem)
        return out

    def branches(self, cls, buses):
        o, out = self.o, {}
        for nm in self.names(cls):
            a = self.comps[cls][nm]
            row = {k: self.get(cls, nm, k) for k in a}
            ends = [k for k in ("bus0", "bus1", "bus2") if a.get(k)]
            for k in ends:
                row[k] = self.m[a[k]]
            if len({row[k] for k in ends}) == 1:
                continue
            if cls == "Link":
                l = a["length"]
                c0, c1 = buses[row["bus0"]], buses[row["bus1"]]
                row["length"] = km((c0["x"], c0["y"]), (c1["x"], c1["y"])) * o.get("line_length_factor", 1.0) if l > 0 else 0.0
                if o.get("scale_link_capital_costs", True) and l > 0:
                    row["capital_cost"] = a["capital_cost"] * row["length"] / l
            out[nm] = row
        return out


def eq(a, b):
    if (a is None or A.missing(a)) and (b is None or A.missing(b)):
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        if A.missing(a) or A.missing(b):
            return A.missing(a) and A.missing(b)
        return a == b or abs(a - b) <= 1e-7 * (1 + abs(b))
    if a is None or b is None:
        return (a or "") == (b or "")
    return a == b


def check_rows(n, cls, want, what, time):
    df = n.static(cls)
    if set(df.index) != set(want) or len(df) != len(want):
        raise Violation(f"{what}: {cls} are {sorted(df.index)}, expected {sorted(want)}")
    dyn = n.dynamic(cls)
    for nm, row in want.items():
        for a, v in row.items():
            ts = dyn[a][nm].to_list() if a in dyn and nm in dyn[a] else None
            got = N.cell(df.at[nm, a])
            if isinstance(v, list) or ts is not None:
                v = v if isinstance(v, list) else [v] * len(n.snapshots)
                got = [N.cell(x) for x in ts] if ts is not None else [got] * len(v)
                ok = len(v) == len(got) and all(eq(x, y) for x, y in zip(got, v))
            else:
                ok = eq(got, v)
            if not ok:
                raise Violation(f"{what}: {cls} {nm!r} has {a}={got}, expected {v}")
    for a, t in dyn.items():
        if set(t.columns) - set(want):
            raise Violation(f"{what}: series {a} of {cls} for {sorted(set(t.columns) - set(want))}, which are not in the clustered network")


def tables(n):
    return N.content(n)


def cluster(n, spec):
    import pandas as pd

    from pypsa.clustering.spatial import get_clustering_from_busmap

    o = dict(spec["options"])
    m = dict(map(tuple, spec["busmap"]))
    form = o.pop("form", "series")
    return get_clustering_from_busmap(n, m if form == "dict" else pd.Series(m), **o)


def verify(c, n, spec, R, what):
    """Compare a clustered network with the reference."""
    buses = R.buses()
    check_rows(c.n, "Bus", buses, what, R.time)
    sizes = 0
    for cls in ONE:
        rows = R.oneports(cls)
        check_rows(c.n, cls, rows, what, R.time)
        sizes += len(rows) < len(R.names(cls))
    for cls in ("Link", "Transformer"):
        rows = R.branches(cls, buses)
        check_rows(c.n, cls, rows, what, R.time)
        sizes += len(rows) < len(R.names(cls))
    lines = R.lines(buses)
    if len(c.n.lines) != len(lines):
        raise Violation(f"{what}: {len(c.n.lines)} lines, expected {len(lines)} between {sorted(lines)}")
    rows, linemap = {}, dict(c.linemap)
    for key, (row, mem) in lines.items():
        names = {linemap.get(l) for l in mem}
        if len(names) != 1 or None in names or not names <= set(c.n.lines.index):
            raise Violation(f"{what}: lines {mem} between {key} are mapped to {names}")
        (nm,) = names
        got = {c.n.lines.at[nm, "bus0"], c.n.lines.at[nm, "bus1"]}
        if got != set(key[:2]):
            raise Violation(f"{what}: lines {mem} between {key} became a line between {got}")
        rows[nm] = row
        sizes += len(mem) > 1
    check_rows(c.n, "Line", rows, what, R.time)
    check_rows(c.n, "Carrier", {nm: {k: R.get("Carrier", nm, k) for k in ("co2_emissions",)} for nm in R.names("Carrier")}, what, R.time)
    if "GlobalConstraint" in R.comps:
        check_rows(c.n, "GlobalConstraint", R.comps["GlobalConstraint"], what, R.time)
    if R.time:
        a, b = N.content(n), N.content(c.n)
        for k in ("snapshots", "periods", "levels"):
            if a[k] != b[k]:
                raise Violation(f"{what}: {k} are {b[k]}, expected {a[k]}")
        for k in a:
            if isinstance(k, tuple) and "weightings" in k[0] and a[k] != b[k]:
                raise Violation(f"{what}: {k} are {b[k]}, expected {a[k]}")
    return sizes


def run(spec, ctx):
    A.reset_link_ports()
    n = net.build(spec)
    R = Ref(spec)
    before = tables(n)
    what = f"clustering by {dict(map(tuple, spec['busmap']))} with {spec['options']}"
    try:
        b = R.buses()
        for cls in ONE:
            R.oneports(cls)
        R.lines(b)
        expected = None
    except Disagree as e:
        expected = str(e)
    try:
        c = cluster(n, spec)
    except AssertionError as e:
        if "do not agree" in str(e) and expected:
            ctx.label("disagreement")
            return ctx.nontrivial(False)
        raise Violation(f"{what}: {e}") from e
    if expected:
        raise Violation(f"{what}: values of {expected} disagree within a cluster, but no error was raised")
    bad = N.differences(tables(n), before) if hasattr(N, "differences") else []
    if bad:
        raise Violation(f"{what} changed the original network: {bad[:3]}")
    if dict(c.busmap) != R.m:
        raise Violation(f"{what}: busmap of the result is {dict(c.busmap)}")
    merged = verify(c, n, spec, R, what)
    # the clustered network is a network of its own
    for cls in ("GlobalConstraint", "Carrier", "Bus"):
        df = c.n.static(cls)
        for col in df.columns:
            if df[col].dtype == float and len(df):
                df[col] = df[col].astype(float)
                df.loc[df.index[0], col] = -12.5
    c.n.snapshot_weightings.iloc[0, 0] = 77.0
    bad = N.differences(tables(n), before)
    if bad:
        raise Violation(f"{what}: the original network shares data with the clustered one: {bad[:3]}")
    for k in ("Line", "Link", "Transformer", *ONE):
        if R.names(k):
            ctx.label("has:" + k)
    ctx.nontrivial(merged > 0 and len(set(R.m.values())) > 1)


# ----- an identity mapping keeps the optimum -------------------------------
O = gen.O(buses=(2, 4), T=(1, 3), gens=(1, 2), storage=(0, 1), stores=(0, 1), links=(1, 2), lines=(0, 3), trafos=True, ext=35, mod=10, com=10, inactive=10,
          series=35, globals=40, periods=15)


@st.composite
def solve_specs(draw):
    spec = draw(gen.networks(O))
    d = D(draw)
    pairs, comps, pos = set(), [], {}
    located = d.p(60)
    for c in spec["comps"]:
        cls, nm, a = c
        if cls == "Bus" and located:
            a["x"], a["y"] = float(len(pos)), float(d.int(0, 50))
            pos[nm] = (a["x"], a["y"])
        if cls == "Line":
            key = frozenset((a["bus0"], a["bus1"]))
            if key in pairs:
                continue  # parallel lines are merged
            pairs.add(key)
        if cls == "Link" and len({v for k, v in a.items() if k.startswith("bus") and v}) < 2:
            continue  # links within a cluster vanish
        if cls in ("Line", "Link"):
            a.pop("length", None)
            if located and d.p(80):
                a["length"] = km(pos[a["bus0"]], pos[a["bus1"]])
        comps.append(c)
    spec["comps"] = comps
    return spec


def attempt(n, spec):
    try:
        return solcheck.optimize(n, spec, **({"multi_investment_periods": True} if spec.get("periods") else {}))
    except ValueError as e:
        if "nodal balance" in str(e) or "Objective function could not be created" in str(e):
            return "refused"
        raise


def run_solve(spec, ctx):
    import pandas as pd

    from pypsa.clustering.spatial import get_clustering_from_busmap

    A.reset_link_ports()
    n = net.build(spec)
    if not len(n.buses):
        return ctx.nontrivial(False)
    m = get_clustering_from_busmap(net.build(spec), pd.Series(n.buses.index, n.buses.index)).n
    a = attempt(n, spec)
    b = attempt(m, spec)
    if a != b:
        raise Violation(f"after clustering by the identity, optimising gives {b} instead of {a}")
    if a != "optimal":
        return ctx.nontrivial(False)
    if abs(n.objective - m.objective) > 1e-5 * (1 + abs(n.objective)):
        raise Violation(f"after clustering by the identity, the objective is {m.objective} instead of {n.objective}")
    ctx.nontrivial(abs(n.objective) > 1e-6 and len(n.lines) + len(n.links) + len(n.transformers) > 0)


# ----- clustering algorithms ------------------------------------------------
@st.composite
def alg_specs(draw):
    d = D(draw)
    nb = d.int(2, 9)
    comps = []
    for i in range(nb):
        comps.append(["Bus", f"b{i}", {"x": float(d.int(-5, 15)) + i / 16, "y": float(d.int(30, 60)), "v_nom": 380.0, "country": d.pick(["DE", "DE", "DE", "FR"])}])
    m = d.int(0, 3) + nb - d.int(0, 2)
    for j in range(m):
        i0 = d.int(0, nb - 1) if j >= nb - 1 or d.p(20) else j + 1
        i1 = (i0 + d.int(1, nb - 1)) % nb if j >= nb - 1 or d.p(20) else d.int(0, j)
        if i0 == i1:
            continue
        cls = "Line" if d.p(80) else "Link"
        comps.append([cls, f"{cls[:2]}{j}", {"bus0": f"b{i0}", "bus1": f"b{i1}", **({"x": d.q(1, 8), "r": 0.1, "s_nom": d.q(1, 8), "length": 100.0} if cls == "Line" else {"p_nom": d.q(1, 4)})}])
    for j in range(d.int(0, 3)):
        comps.append(["Generator", f"g{j}", {"bus": f"b{d.int(0, nb - 1)}", "p_nom": d.q(1, 9)}])
    for j in range(d.int(0, 3)):
        comps.append(["Load", f"d{j}", {"bus": f"b{d.int(0, nb - 1)}", "p_set": [d.q(1, 9) for _ in range(2)]}])
    alg = d.pick(["kmeans", "hac", "modularity", "stubs"])
    if alg != "stubs":
        for c in comps:
            c[2].pop("country", None)
    spec = {"n": 2, "sns": "int", "comps": comps, "alg": alg, "k": d.int(1, nb), "weights_": [d.int(1, 3) for _ in range(nb)], "match": d.p(40), "seed": d.int(0, 3),
            "feature": d.p(60), "linkage": d.pick(["ward", "complete", "average"]), "subset": d.p(25), "wrap": d.p(50)}
    return spec


def adjacency(spec, classes):
    adj = {nm: set() for c, nm, _ in spec["comps"] if c == "Bus"}
    for c, nm, a in spec["comps"]:
        if c in classes:
            adj[a["bus0"]].add(a["bus1"])
            adj[a["bus1"]].add(a["bus0"])
    return adj


def pieces(adj, nodes):
    nodes, out = set(nodes), []
    while nodes:
        todo, got = [nodes.pop()], set()
        while todo:
            u = todo.pop()
            got.add(u)
            for v in adj[u] & nodes:
                nodes.discard(v)
                todo.append(v)
        out.append(got)
    return out


def run_alg(spec, ctx):
    import pandas as pd

    from pypsa.clustering import spatial as S

    n = net.build(spec)
    buses = list(n.buses.index)
    k, alg = min(spec["k"], len(buses)), spec["alg"]
    if len(buses) < 2:
        return ctx.nontrivial(False)
    lines = adjacency(spec, ("Line",))
    both = adjacency(spec, ("Line", "Link", "Transformer"))
    sub = buses
    if spec["subset"] and alg in ("kmeans", "hac"):
        sub = buses[: max(2, k, len(buses) - 1)]
    w = pd.Series({b: x for b, x in zip(buses, spec["weights_"])})
    feature = n.buses.loc[sub, ["x", "y"]] if spec["feature"] else None
    what = f"{alg} into {k} clusters"
    wrapped = None
    if alg == "kmeans":
        kw = {"buses_i": pd.Index(sub), "random_state": spec["seed"]}
        bm = S.busmap_by_kmeans(n, w, k, **kw)
        if spec["wrap"] and sub == buses:
            wrapped = S.kmeans_clustering(n, w, k, random_state=spec["seed"])
    elif alg == "hac":
        bm = S.busmap_by_hac(n, k, buses_i=pd.Index(sub), feature=feature, linkage=spec["linkage"])
        if spec["wrap"] and sub == buses:
            wrapped = S.hac_clustering(n, k, feature=feature, linkage=spec["linkage"])
    elif alg == "modularity":
        if not any(lines.values()):
            return ctx.nontrivial(False)
        bm = S.busmap_by_greedy_modularity(n, k)
        if spec["wrap"]:
            wrapped = S.greedy_modularity_clustering(n, k)
    else:
        match = ["country"] if spec["match"] else None
        bm = S.busmap_by_stubs(n, match)
    if list(bm.index) != list(sub):
        raise Violation(f"{what}: mapping of buses {list(bm.index)}, expected {list(sub)}")
    if bm.isna().any() or not all(isinstance(x, str) for x in bm):
        raise Violation(f"{what}: not every bus has a cluster: {dict(bm)}")
    groups = {}
    for b, c in bm.items():
        groups.setdefault(c, []).append(b)
    if alg == "stubs":
        country = {nm: a.get("country", "") for c, nm, a in spec["comps"] if c == "Bus"}
        same = (lambda u, v: country[u] == country[v]) if spec["match"] else (lambda u, v: True)
        for c, mem in groups.items():
            if c not in mem:
                raise Violation(f"{what}: cluster {c} of {mem} is not named after one of its buses")
            if any(not same(c, b) for b in mem):
                raise Violation(f"{what}: buses {mem} do not agree in the required attributes")
            if len(pieces(both, mem)) != 1:
                raise Violation(f"{what}: buses {mem} are not connected")
        # remaining dead ends and the number of clusters
        left = {u: set(vs) - {u} for u, vs in both.items()}
        count, changed = 0, True
        while changed:
            changed = False
            for u in list(left):
                if len(left[u]) == 1:
                    (v,) = left[u]
                    if same(u, v):
                        left[v].discard(u)
                        del left[u]
                        changed = True
        if len(groups) != len(left):
            raise Violation(f"{what}: {len(groups)} clusters {groups}, expected {len(left)} after removing all dead ends")
        return ctx.nontrivial(len(left) < len(buses))
    if len(groups) != k:
        raise Violation(f"{what}: {len(groups)} clusters {groups}")
    if alg == "hac":
        whole = adjacency(spec, ("Line", "Link", "Transformer"))
        if len(pieces(whole, sub)) == 1:
            for c, mem in groups.items():
                if len(pieces(whole, mem)) != 1:
                    raise Violation(f"{what}: cluster {mem} is not connected")
    if alg == "modularity" and len(pieces(lines, buses)) == 1:
        for c, mem in groups.items():
            if len(pieces(lines, mem)) != 1:
                raise Violation(f"{what}: cluster {mem} is not connected")
    if alg == "kmeans":
        # every bus belongs to the cluster whose weighted centre is closest (Lloyd's fixed point)
        pos = {nm: (a["x"], a["y"]) for c, nm, a in spec["comps"] if c == "Bus"}
        cen = {c: [sum(w[b] * pos[b][i] for b in mem) / sum(w[b] for b in mem) for i in (0, 1)] for c, mem in groups.items()}
        for b, c in bm.items():
            dist = {x: (pos[b][0] - p[0]) ** 2 + (pos[b][1] - p[1]) ** 2 for x, p in cen.items()}
            if dist[c] > min(dist.values()) + 1e-3 * (1 + dist[c]):
                raise Violation(f"{what}: bus {b} is in cluster {c}, but closer to another one: {dist}")
    if wrapped is not None:
        if not wrapped.busmap.equals(bm):
            raise Violation(f"{what}: clustering uses the mapping {dict(wrapped.busmap)}, expected {dict(bm)}")
        if set(map(str, groups)) != set(wrapped.n.buses.index):
            raise Violation(f"{what}: buses of the clustered network are {list(wrapped.n.buses.index)}")
        if spec["n"]:
            tot = n.generators.p_nom.sum(), n.get_switchable_as_dense("Load", "p_set").sum().sum()
            new = wrapped.n.generators.p_nom.sum(), wrapped.n.get_switchable_as_dense("Load", "p_set").sum().sum()
            if any(abs(x - y) > 1e-6 * (1 + abs(x)) for x, y in zip(tot, new)):
                raise Violation(f"{what}: generation capacity and load {new}, expected {tot}")
            for g in n.generators.index:
                if wrapped.n.generators.bus[g] != bm[n.generators.bus[g]]:
                    raise Violation(f"{what}: generator {g} is at {wrapped.n.generators.bus[g]}")
    ctx.nontrivial(1 < k < len(buses))


TESTS = [
    Test("data", specs, run, 200, 6000, "networks of all classes, mappings, strategies and options against a plain reference of every static and varying attribute; non-trivial: components were merged and more than one cluster"),
    Test("algorithms", alg_specs, run_alg, 80, 3000, "k-means, hierarchical, modularity and stub mappings; non-trivial: between one cluster and all buses"),
    Test("solve", solve_specs, run_solve, 16, 600, "optimisation before and after clustering by the identity; non-trivial: branches and non-zero objective"),
]
