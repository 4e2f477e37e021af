"""Networks with result tables and an independent computation of all statistics from the tables.

The results are arbitrary numbers (statistics are functions of the tables), drawn from a seed in the spec.
"""
from __future__ import annotations

import re
import zlib

import numpy as np
import pandas as pd

from harness.core import Violation

NOM = {"Generator": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom", "Line": "s_nom", "Link": "p_nom", "Transformer": "s_nom"}
BRANCH = ("Line", "Link", "Transformer")
ONE = ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance")
COM = ("Generator", "Link")
CARRIERS = ["", "gas", "gas2", "wind", "AC", "DC", "x-gas", "H2"]
NICE = ["", "", "Gas", "gas2", "wind", "Same", "Same", "-"]
STATS = ["system_cost", "capex", "installed_capex", "expanded_capex", "optimal_capacity", "installed_capacity", "expanded_capacity", "opex",
         "supply", "withdrawal", "transmission", "energy_balance", "curtailment", "capacity_factor", "revenue", "market_value"]
STATIC = ("capex", "installed_capex", "expanded_capex", "optimal_capacity", "installed_capacity", "expanded_capacity")
ALLPORTS = ("supply", "withdrawal", "energy_balance", "revenue", "market_value")
COSTS = ("marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "spill_cost", "start_up_cost", "shut_down_cost", "stand_by_cost")
COSTVAR = {  # class -> cost -> (result, power, weighted)
    "Generator": {"marginal_cost": ("p", 1), "marginal_cost_quadratic": ("p", 2)},
    "Link": {"marginal_cost": ("p0", 1), "marginal_cost_quadratic": ("p0", 2)},
    "Store": {"marginal_cost": ("p", 1), "marginal_cost_quadratic": ("p", 2), "marginal_cost_storage": ("e", 1)},
    "StorageUnit": {"marginal_cost": ("p_dispatch", 1), "marginal_cost_quadratic": ("p_dispatch", 2), "marginal_cost_storage": ("state_of_charge", 1),
                    "spill_cost": ("spill", 1)},
}
UC = {"start_up_cost": "start_up", "shut_down_cost": "shut_down", "stand_by_cost": "status"}


def gen(d, multi=None):
    """Spec of a network with results."""
    multi = d.p(35) if multi is None else multi
    spec = {"T": d.int(1, 4), "seed": d.int(0, 10 ** 6), "periods": None, "zero": d.pick([0, 30, 70])}
    if multi:
        spec["periods"] = sorted(set(d.pick([2020, 2030, 2040]) for _ in range(d.int(1, 3))))
    spec["weights"] = d.pick(["unit", "equal", "own", "own", "own"])
    nb = d.int(1, 4)
    names = d.names(nb)
    spec["buses"] = [[x, {"carrier": d.pick(CARRIERS[:6]), "unit": d.pick(["MW", "t", ""]), "country": d.pick(["DE", "FR", "x"]), "location": d.pick(["l1", "l2"])}] for x in names]
    spec["carriers"] = [[c, d.pick(NICE)] for c in CARRIERS if c and d.p(55)]
    items = []
    for cls in ("Generator", "Link", "StorageUnit", "Store", "Load", "Line", "Transformer", "ShuntImpedance"):
        k = d.int(0, 3) if cls in ("Generator", "Link") else d.int(0, 2) if d.p(75) else 0
        for nm in (d.names(k) if k else []):
            a = {}
            if cls in BRANCH:
                a["bus0"], a["bus1"] = d.pick(names), d.pick(names)
                if cls == "Link":
                    for q in ("2", "3"):
                        if d.p(40):
                            a["bus" + q] = d.pick(names + [""])
                            if d.p(70):
                                a["efficiency" + q] = d.pick([0.5, -0.25, 1.0, 0.0])
                    a["efficiency"] = d.pick([1.0, 0.5, 0.9])
            else:
                a["bus"] = d.pick(names)
                if d.p(30) or cls == "ShuntImpedance":
                    a["sign"] = d.pick([-1.0, 1.0, 0.5])
            if cls not in ("Transformer", "ShuntImpedance"):
                a["carrier"] = d.pick(CARRIERS[:7])
            if d.p(15):
                a["active"] = False
            if multi and cls in NOM:
                if d.p(50):
                    a["build_year"] = d.pick([2015, 2020, 2025, 2030])
                if d.p(50):
                    a["lifetime"] = d.pick([5.0, 10.0, 20.0])
            if cls in COM and d.p(40):
                a["committable"] = True
            if cls == "StorageUnit":
                a["max_hours"] = d.pick([1.0, 4.0])
            items.append([cls, nm, a])
    spec["items"] = items
    spec["missing"] = d.p(12)
    spec["custom"] = d.p(15)
    spec["shuntp"] = d.p(50)
    return spec


def rng(spec, *key):
    return np.random.default_rng([spec["seed"], zlib.crc32("|".join(map(str, key)).encode())])


class Asset:
    """One component: static numbers, time series and results."""

    def __init__(self, S, cls, name, a):
        self.cls, self.name, self.a = cls, name, dict(a)
        self.S = S
        spec = S.spec
        r = rng(spec, cls, name)
        T = len(S.sns)

        def num(lo, hi, size=None, zero=spec["zero"]):
            v = r.integers(lo * 4, hi * 4 + 1, size) / 4
            z = r.random(size) * 100 < zero
            return np.where(z, 0.0, v) if size else (0.0 if z else float(v))

        self.static, self.series, self.res, self.opt = {}, {}, {}, None
        if cls in NOM:
            nom = num(0, 20)
            self.opt = nom + (num(0, 10) if r.random() < 0.6 else 0.0)
            self.static[NOM[cls]] = nom
            self.static["capital_cost"] = num(0, 10)
        costs = list(COSTVAR.get(cls, ())) + (list(UC) if cls in COM else [])
        for c in costs:
            if r.random() < 0.4:
                self.static[c] = num(-2, 8)
            elif r.random() < 0.4 and c not in ("start_up_cost", "shut_down_cost"):
                self.series[c] = num(-2, 8, T)
        if cls in ("Generator", "StorageUnit"):
            if r.random() < 0.4:
                self.static["p_max_pu"] = float(r.integers(0, 5) / 4)
            elif r.random() < 0.6:
                self.series["p_max_pu"] = r.integers(0, 5, T) / 4
        act = np.array([S.active(self.a, cls, t) for t in S.sns], dtype=float)
        names = {"Generator": ["p"], "Load": ["p"], "Store": ["p", "e"], "StorageUnit": ["p", "p_dispatch", "p_store", "state_of_charge", "spill"],
                 "ShuntImpedance": ["p"] if spec["shuntp"] else []}.get(cls)
        if cls in BRANCH:
            names = ["p" + p for p in self.ports()]
        for k in names:
            v = num(-20, 20, T) * act
            if k in ("e", "p_dispatch", "p_store", "state_of_charge", "spill"):
                v = abs(v)
            if k[1:] in ("2", "3") and not self.a["bus" + k[1:]]:
                v = v * 0
            self.res[k] = v
        if self.a.get("committable"):
            for k in UC.values():
                self.res[k] = r.integers(0, 2, T) * act
                if spec["missing"] and r.random() < 0.8:
                    self.res[k] = np.full(T, float(k == "status"))

    def ports(self):
        return [k[3:] for k in self.a if k.startswith("bus")]

    def bus(self, port):
        return self.a["bus" + port]

    def get(self, k, default=0.0):
        """Per-snapshot values of an input."""
        if k in self.series:
            return np.asarray(self.series[k], float)
        return np.full(len(self.S.sns), self.static.get(k, default))


class System:
    def __init__(self, spec):
        self.spec = spec
        if spec["periods"]:
            self.sns = [(p, t) for p in spec["periods"] for t in range(spec["T"])]
        else:
            self.sns = list(range(spec["T"]))
        T = len(self.sns)
        r = rng(spec, "weights")
        cols = ("objective", "stores", "generators")
        if spec["weights"] == "unit":
            self.w = {c: np.ones(T) for c in cols}
        elif spec["weights"] == "equal":
            v = r.integers(1, 9, T) / 2
            self.w = {c: v for c in cols}
        else:
            self.w = {c: r.integers(1, 9, T) / 2 for c in cols}
        self.buses = {b: a for b, a in spec["buses"]}
        self.nice = {c: x for c, x in spec["carriers"] if x}
        self.price = {b: np.random.default_rng([spec["seed"], i]).integers(-20, 80, T) / 4 for i, b in enumerate(self.buses)}
        self.assets = [Asset(self, *i) for i in spec["items"]]
        self.has = {cls for cls, _, _ in spec["items"]}

    @property
    def multi(self):
        return bool(self.spec["periods"])

    def active(self, a, cls, t):
        if not a.get("active", True):
            return False
        if not self.multi or cls not in NOM:
            return True
        p = t[0]
        b, life = a.get("build_year", 0), a.get("lifetime", np.inf)
        return b <= p < b + life

    def build(self):
        import pypsa

        spec = self.spec
        n = pypsa.Network()
        if self.multi:
            n.set_snapshots(pd.MultiIndex.from_tuples(self.sns))
        else:
            n.set_snapshots(self.sns)
        for c, v in self.w.items():
            n.snapshot_weightings[c] = v
        for c, nice in spec["carriers"]:
            n.add("Carrier", c, nice_name=nice)
        for b, a in self.buses.items():
            n.add("Bus", b, **a)
            n.buses_t.marginal_price[b] = self.price[b]
        for x in self.assets:
            kw = dict(x.a)
            kw.update(x.static)
            kw.update({k: pd.Series(v, n.snapshots) for k, v in x.series.items()})
            n.add(x.cls, x.name, **kw)
        for x in self.assets:
            if x.opt is not None:
                n.static(x.cls).loc[x.name, NOM[x.cls] + "_opt"] = x.opt
            if spec["custom"]:
                n.static(x.cls).loc[x.name, "bus_note"] = next(iter(self.buses))
                n.static(x.cls).loc[x.name, "subbus"] = x.bus(x.ports()[0])
        # results as the solution assignment leaves them: one table per attribute with all components
        for cls in self.has:
            idx = n.static(cls).index
            xs = {x.name: x for x in self.assets if x.cls == cls}
            for k in dict.fromkeys(k for x in xs.values() for k in x.res):
                df = pd.DataFrame({nm: xs[nm].res.get(k, np.zeros(len(self.sns))) for nm in idx}, index=n.snapshots)
                if spec["missing"] and (df == (1.0 if k in UC.values() else 0.0)).all().all():
                    continue  # as after loading a saved network: tables of default values are absent
                df.columns.name = cls
                n.dynamic(cls)[k] = df
        return n

    # ----- statistics ---------------------------------------------------
    def weights(self, cls):
        return self.w["generators" if cls == "Generator" else "stores" if cls in ("StorageUnit", "Store") else "objective"]

    def efficiency(self, x, port):
        if port == "":
            return 1.0
        if port == "0":
            return -1.0
        return x.a.get("efficiency" + ("" if port == "1" else port), 1.0)

    def in_time(self, x, v, w, agg):
        """{column: value} of a per-snapshot array; column None without periods."""
        out = {}
        act = [self.active(x.a, x.cls, t) for t in self.sns]
        if agg is False:
            return {t: v[i] for i, t in enumerate(self.sns) if act[i]}
        groups = {}
        for i, t in enumerate(self.sns):
            groups.setdefault(t[0] if self.multi else None, []).append(i)
        for g, ii in groups.items():
            if not act[ii[0]]:
                continue
            vv, ww = v[ii], w[ii]
            out[g] = {"sum": lambda: float(vv @ ww), "mean": lambda: float(vv @ ww / ww.sum()), "max": lambda: float(vv.max()), "min": lambda: float(vv.min())}[agg]()
        return out

    def in_periods(self, x, v):
        if not self.multi:
            return {None: v} if self.active(x.a, x.cls, None) else {}
        return {p: v for p in self.spec["periods"] if self.active(x.a, x.cls, (p, 0))}

    def value(self, stat, x, port, kw):
        """{column: value} of one component at one port, or None if the statistic does not cover it."""
        cls, agg = x.cls, kw.get("aggregate_time", "sum")
        w = self.weights(cls)
        if stat in ("capex", "installed_capex"):
            if cls not in NOM:
                return None
            return self.in_periods(x, (x.opt if stat == "capex" else x.static[NOM[cls]]) * x.static["capital_cost"])
        if stat in ("optimal_capacity", "installed_capacity"):
            if cls not in NOM:
                return None
            e = self.efficiency(x, port)
            v = (x.opt if stat == "optimal_capacity" else x.static[NOM[cls]]) * (e if kw["at_port"] else abs(e))
            if kw.get("storage") and cls == "StorageUnit":
                v *= x.a["max_hours"]
            return self.in_periods(x, v)
        if stat == "opex":
            if cls not in COSTVAR:
                return None
            types = kw.get("cost_types") or COSTS
            types = [types] if isinstance(types, str) else types
            out = {}
            for c, (k, e) in COSTVAR[cls].items():
                if c in types:
                    for col, v in self.in_time(x, x.get(c) * x.res[k] ** e, self.w["objective"], agg).items():
                        out[col] = out.get(col, 0.0) + v
            if x.a.get("committable"):
                for c, k in UC.items():
                    if c in types:
                        ww = self.w["objective"] if k == "status" else np.ones(len(self.sns))
                        for col, v in self.in_time(x, x.get(c) * x.res[k], ww, agg).items():
                            out[col] = out.get(col, 0.0) + v
            return out
        if stat in ("supply", "withdrawal", "energy_balance", "revenue"):
            if "p" + port not in x.res:
                return None
            v = (-1.0 if cls in BRANCH else x.a.get("sign", -1.0 if cls in ("Load", "ShuntImpedance") else 1.0)) * x.res["p" + port]
            if stat == "supply":
                v = np.maximum(v, 0)
            elif stat == "withdrawal":
                v = np.maximum(-v, 0)
            elif stat == "revenue":
                v = v * self.price[x.bus(port)]
            return self.in_time(x, v, w, agg)
        if stat == "transmission":
            if cls not in BRANCH:
                return None
            cars = [self.buses[x.bus(p)]["carrier"] for p in x.ports() if x.bus(p)]
            bc = kw.get("bus_carrier")
            bc = set(cars) if bc is None else {bc} if isinstance(bc, str) else set(bc)
            if not any(cars.count(c) > 1 for c in bc):
                return None
            return self.in_time(x, x.res["p" + port], w, agg)
        if stat == "curtailment":
            if cls not in ("Generator", "StorageUnit"):
                return None
            return self.in_time(x, np.maximum(x.get("p_max_pu", 1.0) * x.opt - x.res["p"], 0), w, agg)
        if stat == "operation":
            k = "p0" if cls in BRANCH else "e" if cls == "Store" else "p"
            if cls not in NOM:
                return None
            return self.in_time(x, abs(x.res[k]), w, agg)
        raise KeyError(stat)

    def nicename(self, c, nice):
        return (self.nice.get(c, c) or "-") if nice else c

    def group(self, x, port, by, nice):
        one = lambda g: {
            "carrier": lambda: self.nicename(x.a.get("carrier", ""), nice),
            "bus_carrier": lambda: self.nicename(self.buses[x.bus(port)]["carrier"], nice),
            "bus": lambda: x.bus(port),
            "country": lambda: self.buses[x.bus(port)]["country"],
            "location": lambda: self.buses[x.bus(port)]["location"],
            "unit": lambda: self.buses[x.bus(port)]["unit"],
            "name": lambda: x.name,
            "active": lambda: x.a.get("active", True),
            "initial": lambda: x.name[0],
            "portbus": lambda: port + x.bus(port),
        }[g]()
        if by is False:
            return (x.name,)
        if isinstance(by, str):
            return (one(by),)
        return tuple(one(g) for g in by)

    def selected(self, x, port, kw):
        c, bc = kw.get("carrier"), kw.get("bus_carrier")
        if c is not None:
            if "carrier" not in x.a:
                return False
            have = {y.a.get("carrier") for y in self.assets}
            if isinstance(c, list):
                ok = x.a["carrier"] in c
            elif c in have:
                ok = x.a["carrier"] == c
            else:
                ok = bool(re.search(c, x.a["carrier"]))
            if not ok:
                return False
        if bc is not None:
            v = self.buses[x.bus(port)]["carrier"]
            if isinstance(bc, list):
                return v in bc
            if bc in {b["carrier"] for b in self.buses.values()}:
                return v == bc
            return bool(re.search(bc, v))
        return True

    def statistic(self, stat, kw):
        """{(key, column): value} of a statistic; zeros included."""
        kw = dict(kw)
        if stat == "system_cost":
            return combine(self.statistic("capex", kw), self.statistic("opex", kw), lambda a, b: a + b)
        if stat in ("expanded_capex", "expanded_capacity"):
            o, i = ("capex", "installed_capex") if stat == "expanded_capex" else ("optimal_capacity", "installed_capacity")
            return combine(self.statistic(o, kw), self.statistic(i, kw), lambda a, b: a - b)
        if stat == "capacity_factor":
            kw.setdefault("at_port", False)
            kw.setdefault("aggregate_time", "mean")
            return combine(self.statistic("operation", kw), self.statistic("optimal_capacity", kw), ratio, cap=True)
        if stat == "market_value":
            kw.setdefault("aggregate_time", "mean")
            kw.setdefault("at_port", True)
            return combine(self.statistic("revenue", kw), self.statistic("supply", kw), ratio)
        if stat in ALLPORTS:
            kw.setdefault("at_port", True)
        at = kw.setdefault("at_port", None)
        if stat in ("optimal_capacity", "installed_capacity") and kw.get("bus_carrier") and at is None:
            at = kw["at_port"] = True
        by = kw.get("groupby", "carrier" if stat != "energy_balance" else ["carrier", "bus_carrier"])
        comps = kw.get("comps")
        if kw.get("storage"):
            comps = ["Store", "StorageUnit"]
        if stat == "transmission" and comps is None:
            comps = list(BRANCH)
        aggs = {"sum": sum, "max": max, "min": min, "mean": lambda v: sum(v) / len(v)}
        out = {}
        for x in self.assets:
            if comps is not None and x.cls not in ([comps] if isinstance(comps, str) else comps):
                continue
            for port in x.ports() if at else x.ports()[:1]:
                if not x.bus(port) or not self.selected(x, port, kw):
                    continue
                vals = self.value(stat, x, port, kw)
                if vals is None:
                    continue
                key = self.group(x, port, by, kw.get("nice_names") is not False)
                if not isinstance(comps, str) and not kw.get("aggregate_across_components"):
                    key = (x.cls,) + key
                for col, v in vals.items():
                    out.setdefault((key, col), []).append(v)
        return {k: aggs[kw.get("aggregate_groups", "sum")](v) for k, v in out.items()}


def ratio(a, b):
    return a / b if abs(b) > 1e-9 else float("nan")


def combine(a, b, f, cap=False):
    if cap and a and b:
        ca, cb = {c for _, c in a}, {c for _, c in b}
        if not ca <= cb:  # per-snapshot values against capacities per period
            b = {(k, c): b[k, c[0] if isinstance(c, tuple) else None] for k, c in a if (k, c[0] if isinstance(c, tuple) else None) in b}
    return {k: f(a.get(k, 0.0), b.get(k, 0.0)) for k in {**a, **b}}


def plain(v):
    if isinstance(v, (np.integer, np.bool_)):
        return v.item()
    return v


def table(res):
    """{(key, column): value} of what the accessor returned."""
    out = {}
    if isinstance(res, pd.Series):
        res = {None: res}
    else:
        res = {c: res.iloc[:, i] for i, c in enumerate(res.columns)}
    for c, s in res.items():
        c = tuple(plain(y) for y in c) if isinstance(c, tuple) else plain(c)
        for k, v in zip(s.index, s.values):
            k = tuple(plain(y) for y in k) if isinstance(k, tuple) else (plain(k),)
            if (k, c) in out:
                raise Violation(f"entry {k} occurs twice in the result")
            out[k, c] = float(v)
    return out


def nonzero(t):
    return {k: v for k, v in t.items() if np.isfinite(v) and abs(v) > 1e-8}


def callables(by):
    """Groupings by function for the symbolic names of the spec."""
    def initial(n, c, port="", nice_names=False):
        return n.static(c).index.to_series().str[:1].rename("initial")

    def portbus(n, c, port="", nice_names=False):
        return (port + n.static(c)[f"bus{port}"]).rename("portbus")

    f = {"initial": initial, "portbus": portbus}
    if isinstance(by, str):
        return f.get(by, by)
    if isinstance(by, list):
        return [f.get(g, g) for g in by]
    return by


def compare(what, got, want, tol=1e-6, exact=None):
    got, want = nonzero(got), nonzero(want)
    for k in want:
        if k not in got:
            raise Violation(f"{what}: entry {k} is missing, expected {want[k]} (got {dict(list(got.items())[:6])})")
        if abs(got[k] - want[k]) > tol * (1 + abs(want[k])):
            raise Violation(f"{what}: entry {k} is {got[k]}, expected {want[k]}")
    for k in got:
        if k not in want:
            raise Violation(f"{what}: entry {k} with {got[k]} does not follow from the tables")
