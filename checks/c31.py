"""C31: consistency checks flag exactly the inconsistent networks."""
import logging
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import anynet as N
from harness import attrs as A
from harness.core import Test, Violation
from harness.gen import D

KINDS = ["unknown_buses", "unknown_carriers", "time_series", "static_power_attrs", "time_series_power_attrs", "nans_for_component_default_attrs",
         "zero_impedances", "zero_s_nom", "assets", "generators", "disconnected_buses", "investment_periods", "shapes", "dtypes"]
NOM = {"Generator": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom", "Line": "s_nom", "Link": "p_nom", "Transformer": "s_nom"}
PU = {"Generator": "p", "StorageUnit": "p", "Store": "e", "Link": "p"}
CARRIER = ["Bus", "Generator", "Line", "Link", "Load", "StorageUnit", "Store"]
ONE = ["Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"]
BRANCH = ["Line", "Link", "Transformer"]
COLS = ["AC", "gas", "wind"]


@st.composite
def specs(draw):
    d = D(draw)
    h = N.header(d)
    T = h["T"]
    buses = d.names(d.int(1, 4))
    items = [["Carrier", c, {"color": "red"}, {}] for c in COLS]
    for b in buses:
        items.append(["Bus", b, {"carrier": d.pick(["AC", "AC", "gas"]), "v_nom": d.pick([1.0, 110.0])}, {}])
    for i, b in enumerate(buses):
        items.append(["Load", f"load {i}", {"bus": b, "p_set": 3.0}, {"p_set": [float(d.int(0, 9)) for _ in range(T)]} if d.p(40) else {}])
    ports = d.pick([[], ["2"], ["2", "3"]])
    if d.p(15):
        ports = ports + ["10"]
    for cls in ("Generator", "Link", "StorageUnit", "Store", "Line", "Transformer", "ShuntImpedance"):
        for nm in d.names(d.int(0, 2)):
            a, s = {}, {}
            if cls in BRANCH:
                a["bus0"], a["bus1"] = d.pick(buses), d.pick(buses)
            else:
                a["bus"] = d.pick(buses)
            if cls == "Link":
                for p in ports:
                    if d.p(60):
                        a["bus" + p] = d.pick(buses + [""])
            if cls in CARRIER:
                a["carrier"] = d.pick(COLS + [""])
            if cls in ("Line", "Transformer"):
                a.update(x=d.pick([0.1, -0.2, 3.0]), r=d.pick([0.01, 0.3]), s_nom=d.pick([10.0, 1.0]))
            if cls in NOM and d.p(40):
                k = NOM[cls]
                a[k + "_extendable"] = True
                if d.p(50):
                    a[k + "_min"], a[k + "_max"] = d.pick([[0.0, 0.0], [1.0, 5.0], [2.0, 2.0]])
            if cls in ("Generator", "Link") and d.p(30) and not a.get("p_nom_extendable"):
                a["committable"] = True
                if d.p(50):
                    a.update(d.pick([{"up_time_before": 0, "down_time_before": 2}, {"up_time_before": 3, "down_time_before": 0}]))
            if cls == "Generator" and d.p(30):
                a["e_sum_min"], a["e_sum_max"] = d.pick([[0.0, 0.0], [1.0, 5.0], [-2.0, math.inf], [-math.inf, -3.0]])
            if cls in PU and d.p(50):
                k = PU[cls]
                lo, hi = d.pick([[0.0, 1.0], [-1.0, 0.5], [0.3, 0.3], [-0.7, -0.2]])
                if d.p(50):
                    a[k + "_min_pu"] = lo
                else:
                    s[k + "_min_pu"] = [lo - d.pick([0.0, 0.1]) for _ in range(T)]
                if d.p(50):
                    a[k + "_max_pu"] = hi
                else:
                    s[k + "_max_pu"] = [hi + d.pick([0.0, 0.2]) for _ in range(T)]
            if d.p(10):
                a["active"] = False
            items.append([cls, nm, a, s])
    have = [(c, nm) for c, nm, *_ in items if c not in ("Carrier",)]
    for i in range(d.int(0, 2)):
        c, nm = d.pick(have)
        items.append(["Shape", f"sh{i}", {"component": c, "idx": nm, "geometry": "POINT (1 2)"}, {}])
    if d.p(30):
        a = {"type": "primary_energy", "sense": "<=", "constant": 5.0}
        if h["kind"] == "multi" and d.p(60):
            a["investment_period"] = d.pick(h["periods"])
        items.append(["GlobalConstraint", "gc", a, {}])
    return {"head": h, "items": items, "inject": [d.int(0, 10 ** 6) for _ in range(d.pick([0, 1, 1, 1, 1, 2]))], "types": d.p(15)}


def build(spec):
    import pypsa

    A.reset_link_ports()
    n = pypsa.Network(ignore_standard_types=not spec["types"])
    h = spec["head"]
    n.set_snapshots(N.index(h))
    if h["kind"] == "multi":
        n.set_investment_periods(h["periods"])
    if h.get("weights"):
        n.snapshot_weightings = pd.DataFrame(h["weights"], index=n.snapshots, columns=["objective", "stores", "generators"], dtype=float)
    for cls, nm, a, s in spec["items"]:
        N.add(n, cls, nm, a, s)
    return n


def inject(n, seed):
    """Damage the network in one way; -> (what, kinds which must be reported, kinds which may be, text which must be named) or None."""
    r = np.random.default_rng(seed)
    kind = KINDS[r.integers(len(KINDS))]

    def pick(xs):
        xs = list(xs)
        return xs[int(r.integers(len(xs)))] if xs else None

    def comp(classes):
        xs = [(c, nm) for c in classes for nm in n.static(c).index]
        return pick(xs) or (None, None)

    def set_(c, nm, k, v):
        n.static(c).at[nm, k] = v

    if kind == "unknown_buses":
        c, nm = comp(ONE + BRANCH)
        if c is None:
            return None
        cols = [k for k in n.static(c).columns if k.startswith("bus") and (k[3:].isdigit() or k == "bus")]
        col = pick(cols)
        set_(c, nm, col, pick(["nowhere", "", "bus"]) if c in ONE or col in ("bus0", "bus1") else "nowhere")
        return f"{c} {nm} {col}={n.static(c).at[nm, col]!r}", {kind}, {"nans_for_component_default_attrs"} if c in ("Line", "Transformer", "ShuntImpedance") else set(), nm
    if kind == "unknown_carriers":
        c, nm = comp(CARRIER)
        if c is None:
            return None
        set_(c, nm, "carrier", "nope")
        return f"{c} {nm} carrier", {kind}, set(), nm
    if kind == "time_series":
        cs = [c for c in ["Bus"] + ONE + BRANCH if len(n.static(c))]
        c = pick(cs)
        info = A.attrs_of(c)
        at = pick(a for a, i in info.items() if i["varying"] and i["static"])
        if at is None:
            return None
        df = n.dynamic(c)[at]
        how = pick(["column", "short", "labels", "reverse", "all"])
        if how == "column":
            base = A.default(info[at])
            n.dynamic(c)[at] = df.assign(**{"not there": base if isinstance(base, bool) else float(base) if base == base else 1.0})
            return f"{c} series {at} of an undefined component", {kind}, {"dtypes"}, "not there"
        if how == "reverse" and len(df) < 2:
            return None
        if how == "short":
            new = df.iloc[:-1]
        elif how == "all":
            new = df.iloc[:0]
        elif how == "reverse":
            new = df.iloc[::-1]
        else:
            new = df.set_axis([f"other {i}" for i in range(len(df))], axis=0)
        n.dynamic(c)[at] = new
        return f"{c} series {at} {how}", {kind}, {"time_series_power_attrs", "nans_for_component_default_attrs", "dtypes"}, at
    if kind == "static_power_attrs":
        c, nm = comp(NOM)
        if c is None:
            return None
        k = NOM[c]
        if n.static(c).at[nm, k + "_extendable"] and r.random() < 0.4:
            col = k + pick(["_min", "_max"])
            set_(c, nm, col, np.nan)
            return f"{c} {nm} {col}=NaN", {kind, "nans_for_component_default_attrs"}, set(), col
        set_(c, nm, k + "_min", 7.0)
        set_(c, nm, k + "_max", pick([6.5, 0.0]))
        return f"{c} {nm} {k}_max < {k}_min", {kind}, set(), nm
    if kind == "time_series_power_attrs":
        c, nm = comp(PU)
        if c is None:
            return None
        k = PU[c]
        col = k + pick(["_min_pu", "_max_pu"])
        how = pick(["order", "nan", "inf"])
        v = {"order": 9.0 if col.endswith("min_pu") else -9.0, "nan": np.nan, "inf": pick([np.inf, -np.inf])}[how]
        more = {"nans_for_component_default_attrs"} if how == "nan" else set()
        df = n.dynamic(c)[col]
        if nm in df.columns or r.random() < 0.5:
            # one value of a series
            s = n.get_switchable_as_dense(c, col)[nm].copy()
            s.iloc[int(r.integers(len(s)))] = v
            df = df.copy()
            df[nm] = s
            n.dynamic(c)[col] = df
        else:
            set_(c, nm, col, v)
        return f"{c} {nm} {col} {how}", {kind} | more, set(), nm
    if kind == "nans_for_component_default_attrs":
        c, nm = comp(["Bus"] + ONE + BRANCH)
        if c is None:
            return None
        info = A.attrs_of(c)
        ok = [a for a, i in info.items() if i["kind"] == "float" and i["static"] and A.default(i) == A.default(i) and not i["status"].startswith("Out")
              and not a.endswith(("_pu", "_nom_min", "_nom_max")) and a not in ("x", "r", "g", "b", "s_nom", "x_pu", "r_pu")]
        at = pick(ok)
        if info[at]["varying"] and r.random() < 0.5:
            s = n.get_switchable_as_dense(c, at)[nm].copy()
            s.iloc[int(r.integers(len(s)))] = np.nan
            df = n.dynamic(c)[at].copy()
            df[nm] = s
            n.dynamic(c)[at] = df
        else:
            set_(c, nm, at, np.nan)
        return f"{c} {nm} {at}=NaN", {kind}, set(), at
    if kind == "zero_impedances":
        c, nm = comp(["Line", "Transformer"])
        if c is None:
            return None
        set_(c, nm, pick(["x", "r"]), 0.0)
        return f"{c} {nm} zero impedance", {kind}, set(), nm
    if kind == "zero_s_nom":
        c, nm = comp(["Transformer"])
        if c is None:
            return None
        set_(c, nm, "s_nom", 0.0)
        return f"{c} {nm} s_nom=0", {kind}, {"nans_for_component_default_attrs"}, nm
    if kind == "assets":
        c, nm = comp(["Generator", "Link"])
        if c is None or not n.static(c).at[nm, "active"]:
            return None
        set_(c, nm, "committable", True)
        set_(c, nm, "p_nom_extendable", True)
        return f"{c} {nm} committable and extendable", {kind}, set(), nm
    if kind == "generators":
        c, nm = comp(["Generator"])
        if c is None:
            return None
        if r.random() < 0.5:
            set_(c, nm, "committable", True)
            set_(c, nm, "p_nom_extendable", False)
            set_(c, nm, "up_time_before", 2)
            set_(c, nm, "down_time_before", 1)
            return f"{c} {nm} up and down before", {kind}, set(), nm
        set_(c, nm, "e_sum_min", 5.0)
        set_(c, nm, "e_sum_max", pick([4.5, -math.inf]))
        return f"{c} {nm} e_sum_min > e_sum_max", {kind}, set(), nm
    if kind == "disconnected_buses":
        n.add("Bus", "lonely", carrier="AC")
        return "bus without components", {kind}, set(), "lonely"
    if kind == "investment_periods":
        v = 2025 if isinstance(n.snapshots, pd.MultiIndex) else pick([2020, 0])
        n.add("GlobalConstraint", "gcp", investment_period=v)
        return f"global constraint of period {v}", {kind}, set(), None
    if kind == "shapes":
        c = pick(["Bus", "Generator", "Line", "Store", "Carrier"])
        n.add("Shape", "strange", component=c, idx="not there")
        return f"shape of an unknown {c}", {kind}, set(), "strange"
    # dtypes
    c = pick(c for c in ["Bus"] + ONE + BRANCH if len(n.static(c)))
    info = A.attrs_of(c)
    at = pick(a for a, i in info.items() if i["kind"] in ("float", "bool", "int") and i["static"] and not i["status"].startswith("Out") and a not in ("s_nom", "type"))
    df = n.static(c)
    if info[at]["kind"] == "float":
        if at.startswith(("x", "r", "g", "b", "tap", "phase")) or df[at].isin([np.inf, -np.inf]).any() or df[at].isna().any():
            return None
        df[at] = df[at].astype(object)
    elif info[at]["kind"] == "bool":
        if at in ("active", "committable") or at.endswith("extendable"):
            return None
        df[at] = df[at].astype(int)
    else:
        df[at] = df[at].astype(float)
    return f"{c} column {at} of type {df[at].dtype}", {kind}, set(), at


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r):
        self.got.append(r.getMessage())


def warnings_of(n, **kw):
    log = logging.getLogger("pypsa.consistency")
    h = Records()
    off, level = logging.root.manager.disable, log.level
    logging.disable(logging.NOTSET)
    log.setLevel(logging.WARNING)
    prop, log.propagate = log.propagate, False
    log.addHandler(h)
    try:
        n.consistency_check(check_dtypes=True, **kw)
    finally:
        log.removeHandler(h)
        logging.disable(off)
        log.setLevel(level)
        log.propagate = prop
    return h.got


DERIVED = {"x_pu", "r_pu", "g_pu", "b_pu", "x_pu_eff", "r_pu_eff", "v_nom", "type"}


def tables(n):
    """Everything except derived values."""
    out = {}
    for c in n.components.values():
        for a in c.static.columns:
            if a not in DERIVED and not (a == "carrier" and c.name in ("Line", "Link", "Store")):
                out[c.name, a] = [N.cell(v) for v in c.static[a].tolist()]
        for a, df in c.dynamic.items():
            out[c.name, a, "t"] = (list(df.columns), [str(i) for i in df.index], [[N.cell(v) for v in row] for row in df.to_numpy().tolist()])
    return out


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return N.eq(a, b)


def run(spec, ctx):
    from pypsa.consistency import ConsistencyError

    n = build(spec)
    must, may, what, names = set(), set(), [], []
    for seed in spec["inject"]:
        out = next(filter(None, (inject(n, seed + i) for i in range(6))), None)
        if out is None:
            continue
        w, a, b, nm = out
        what.append(w)
        must |= a
        may |= b
        names.append((a, nm))
        ctx.label(*a)
    if len(what) > 1:
        # several damages may cancel or hide each other where they concern the same values
        may |= must
        must = set() if len({w.split(" ")[0] for w in what}) == 1 else must
    # buses which lost their last component
    used = {str(v) for c in ONE + BRANCH + ["GlobalConstraint"] for k in n.static(c).columns if k.startswith("bus") and (k == "bus" or k[3:].isdigit()) for v in n.static(c)[k]}
    if set(n.buses.index) - used:
        must.add("disconnected_buses")
    text = "; ".join(what) or "a valid network"
    before = tables(n)
    msgs = warnings_of(n)
    after = tables(n)
    for k in before:
        if not same(before[k], after.get(k)):
            raise Violation(f"checking {text} changed {k}: {before[k]} to {after.get(k)}")
    if not must and not may and msgs:
        raise Violation(f"{text} is reported: {msgs}")
    if must and not msgs:
        raise Violation(f"{text} is not reported at all")
    for a, nm in names:
        if nm is not None and a <= must and not any(str(nm) in m for m in msgs):
            raise Violation(f"{text}: no warning names {nm!r}: {msgs}")
    for k in KINDS if not what else sorted(must | may) + [k for i, k in enumerate(sorted(set(KINDS) - must - may)) if i % 3 == spec["head"]["T"] % 3]:
        try:
            warnings_of(n, strict=[k])
            raised = False
        except ConsistencyError as e:
            raised = str(e)
        if k in must and not raised:
            raise Violation(f"{text}: strict {k} does not raise")
        if raised and k not in must | may:
            raise Violation(f"{text}: strict {k} raises {raised}")
    try:
        warnings_of(n, strict=["all"])
        raised = False
    except ConsistencyError as e:
        raised = str(e)
    if bool(raised) != bool(must) and (must or not may):
        raise Violation(f"{text}: strict all gives {raised}")
    rest = [k for k in KINDS if k not in must | may]
    got = warnings_of(n, strict=rest)
    if len(got) != len(msgs):
        raise Violation(f"{text}: being strict about {rest} gives {got} instead of {msgs}")
    try:
        warnings_of(n, strict=["nothing"])
    except ValueError as e:
        if isinstance(e, ConsistencyError):
            raise Violation(f"{text}: invalid strict option gives {e!r}")
    else:
        raise Violation("an invalid strict option is accepted")
    ctx.nontrivial(bool(what))


TESTS = [Test("consistency", specs, run, 100, 6000,
              "valid networks with no, one or two injected inconsistencies under all strictness selections; non-trivial: something was injected")]
