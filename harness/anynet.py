"""Networks with arbitrary content (not necessarily solvable), and their content."""
from __future__ import annotations

import copy as _copy
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import attrs as A
from .gen import D

BASE = pd.Timestamp("2030-01-01")
PLAIN = ["a", "b", "c", "n0", "n1", "north sea", "Zürich", "x-y", "A.B", "k_1"]
ODD = ["1", "2", "10", "010", "1e3", "a,b", 'q"x', "x'y", "NA", "None", "True", "p/q", "-", "#3", "10.0", "ß µ", "inf", "null"]
ORDER = ["Bus", "Carrier", "LineType", "TransformerType", "Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Line", "Transformer", "Link", "GlobalConstraint", "Shape"]
DERIVED = ["sub_network", "r_pu", "x_pu", "g_pu", "b_pu", "r_pu_eff", "x_pu_eff"]
STYPES = {"Line": ["Al/St 240/40 4-bundle 380.0", "490-AL1/64-ST1A 220.0"], "Transformer": ["160 MVA 380/110 kV", "0.63 MVA 20/0.4 kV"]}


def names(d, k, odd):
    pool = PLAIN + (ODD if odd else [])
    out = []
    for _ in range(k):
        x = d.pick(ODD) if odd and d.p(35) else d.pick(pool)
        if x not in out:
            out.append(x)
    return out


def value(d, kind, special=True):
    if kind == "float":
        if special and d.p(12):
            return d.pick([1 / 3, 1e-9, 1e15, "inf", "-inf", -0.1])
        return d.q(-4, 8)
    if kind == "int":
        return d.int(0, 5)
    if kind == "bool":
        return d.p(50)
    raise ValueError(kind)


def items(draw, d, T, odd=False, std=True, output=True, custom=True, special=True, shapes=True, prefix="", ports=True, nbus=(1, 4), text=None, classes=None):
    """List of [class, name, static, series, custom static, custom series]."""
    out = []
    text = text or (PLAIN + (ODD if odd else []))
    buses = [prefix + x for x in names(d, d.int(*nbus), odd)]
    carriers = [prefix + x for x in names(d, d.int(0, 3), odd)]
    nports = d.pick([[], [], [2], [2, 3]]) if ports else []
    ccols = names(d, d.int(0, 2), False) if custom else []
    ctypes = {c: ["float", "str", "bool", "int"][PLAIN.index(c) % 4] for c in ccols}
    for cls in ORDER:
        if cls == "Shape" and not (shapes and d.p(15)):
            continue
        if classes is not None and cls not in classes:
            continue
        info = A.attrs_of(cls, nports)
        if cls == "Bus":
            nm = buses
        elif cls == "Carrier":
            nm = carriers
        else:
            nm = [prefix + x for x in names(d, d.pick([0, 0, 1, 1, 2, 3]), odd)]
        cc = ccols if custom and d.p(40) and not cls.endswith("Type") else []
        cs = "profile" if custom and d.p(20) else None
        for x in nm:
            sta, ser, cus, cser = {}, {}, {}, {}
            for a in (a for a in ("bus", "bus0", "bus1") if a in info):
                sta[a] = d.pick(buses)
            for p in nports if cls == "Link" else []:
                if d.p(60):
                    sta[f"bus{p}"] = d.pick(buses)
            cand = [a for a, i in info.items() if i["kind"] in ("float", "int", "bool", "str") and a not in DERIVED and not a.startswith("bus") and a not in ("type", "name")]
            cand = [a for a in cand if output or not info[a]["status"].startswith("Out")]
            for _ in range(d.pick([0, 1, 2, 3, 5])):
                a = d.pick(cand)
                i = info[a]
                if i["kind"] == "str":
                    if i["static"]:
                        sta[a] = d.pick(carriers) if a == "carrier" and carriers and d.p(70) else d.pick(text)
                    continue
                var = i["varying"] and (not i["static"] or d.p(45))
                if var:
                    base = A.default(i)
                    ser[a] = [("nan" if (isinstance(base, float) and math.isnan(base)) else base) if d.p(25) and not isinstance(base, bool) else value(d, i["kind"], special) for _ in range(T)]
                    if i["kind"] == "float" and d.p(8):
                        ser[a][d.int(0, T - 1)] = "nan"
                    if d.p(12):
                        ser[a] = [base if not (isinstance(base, float) and math.isnan(base)) else "nan"] * T
                    ser[a] = [("inf" if v == math.inf else "-inf" if v == -math.inf else v) if isinstance(v, float) else v for v in ser[a]]
                    if i["static"] and d.p(30):
                        sta[a] = value(d, i["kind"], special)
                elif i["static"]:
                    sta[a] = value(d, i["kind"], special)
            if cls in STYPES and std and d.p(30):
                sta["type"] = d.pick(STYPES[cls])
            for c in cc:
                k = ctypes[c]
                cus["x_" + c] = d.pick(PLAIN) if k == "str" else value(d, k, False)
            if cs and d.p(60) and cls not in ("Carrier", "LineType", "TransformerType", "Shape", "GlobalConstraint"):
                cser[cs] = [value(d, "float", special) for _ in range(T)]
            if cls == "Shape":
                sta["geometry"] = d.pick(["POINT (1 2)", "POLYGON ((0 0, 0 1, 1 1, 0 0))"])
            out.append([cls, x, sta, ser, cus, cser])
    return out


def header(d, kinds=("int", "dt", "str", "multi"), odd=False):
    kind = d.pick(list(kinds))
    n = d.int(1, 4)
    start = d.int(0, 2)
    h = {"kind": kind, "n": n, "start": start}
    if kind == "multi":
        h["periods"] = sorted({d.pick([2020, 2030, 2040]) for _ in range(d.int(1, 3))})
        h["base"] = d.pick(["int", "dt", "dt", "str"])
        if d.p(60):
            h["pweights"] = [[d.q(0, 4), d.q(0, 12)] for _ in h["periods"]]
    if kind == "dt" or h.get("base") == "dt":
        h["step"] = d.pick(["h", "3h", "D", "15min"])
    T = n * len(h.get("periods", [0]))
    if d.p(60):
        h["weights"] = [[d.q(0, 4) for _ in range(3)] for _ in range(T)]
    h["T"] = T
    return h


def labels(kind, n, start, step="h"):
    if kind == "dt":
        return list(pd.date_range(BASE, periods=n + start, freq=step)[start:])
    if kind == "str":
        return [f"t{start + i}" for i in range(n)]
    return list(range(start, start + n))


def index(h):
    if h["kind"] == "multi":
        base = labels(h["base"], h["n"], h["start"], h.get("step", "h"))
        return pd.MultiIndex.from_product([h["periods"], base], names=["period", "timestep"])
    ls = labels(h["kind"], h["n"], h["start"], h.get("step", "h"))
    return pd.DatetimeIndex(ls) if h["kind"] == "dt" else pd.Index(ls)


def num(v):
    return {"inf": math.inf, "-inf": -math.inf, "nan": math.nan}.get(v, v) if isinstance(v, str) else v


def build(spec, std=True):
    import pypsa

    n = pypsa.Network(name=spec.get("name", ""), ignore_standard_types=not std)
    h = spec["head"]
    n.set_snapshots(index(h))
    if h["kind"] == "multi":
        n.set_investment_periods(h["periods"])
        if h.get("pweights"):
            n.investment_period_weightings = pd.DataFrame(h["pweights"], index=n.periods, columns=["objective", "years"], dtype=float)
    if h.get("weights"):
        n.snapshot_weightings = pd.DataFrame(h["weights"], index=n.snapshots, columns=["objective", "stores", "generators"], dtype=float)
    if spec.get("meta") is not None:
        n.meta = _copy.deepcopy(spec["meta"])
    if spec.get("crs"):
        n.crs = spec["crs"]
    for cls, nm, sta, ser, cus, cser in spec["items"]:
        add(n, cls, nm, sta, ser, cus, cser)
    return n


def add(n, cls, nm, sta, ser, cus=(), cser=()):
    kw = {}
    for a, v in dict(sta).items():
        txt = A.attrs_of(cls, range(2, 6)).get(a, {}).get("kind") in ("str", "geometry")
        kw[a] = v if txt else num(v)
    if cls == "Shape" and "geometry" in kw:
        from shapely import wkt

        kw["geometry"] = wkt.loads(kw["geometry"])
    for a, v in dict(cus).items():
        kw[a] = num(v) if not isinstance(v, str) or v in ("inf", "-inf") else v
    plain = {a: [num(x) for x in v] for a, v in ser.items()}
    direct = {a: v for a, v in plain.items() if a in kw}
    kw.update({a: v for a, v in plain.items() if a not in kw})
    n.add(cls, nm, **kw)
    for a, v in direct.items():
        n.dynamic(cls)[a][nm] = v
    for a, v in dict(cser).items():
        df = n.dynamic(cls).get(a)
        new = pd.DataFrame({nm: [num(x) for x in v]}, index=n.snapshots)
        if df is None or a not in n.dynamic(cls):
            n.dynamic(cls)[a] = new
        else:
            n.dynamic(cls)[a] = pd.concat([df, new], axis=1)


def cell(v):
    if hasattr(v, "wkt"):
        return v.wkt
    if isinstance(v, np.generic):
        v = v.item()
    if A.missing(v):
        return None
    return v


def content(n, time=True, sub=False):
    """Plain description of everything a user stored in the network."""
    out = {}
    out["name"] = n.name
    out["meta"] = _copy.deepcopy(dict(n.meta))
    out["crs"] = n.crs.to_wkt() if n.crs is not None else None
    out["snapshots"] = list(n.snapshots)
    out["levels"] = list(n.snapshots.names)
    w = n.snapshot_weightings
    for c in w.columns:
        out["weightings", str(c)] = [float(x) for x in w[c]]
    out["periods"] = [int(x) for x in n.investment_periods]
    pw = n.investment_period_weightings
    for c in pw.columns:
        out["period weightings", str(c)] = {int(i): float(x) for i, x in pw[c].items()}
    sns = list(n.snapshots)
    for cls, info in A.CLASSES.items():
        if cls == "SubNetwork" and not sub:
            continue
        df = n.static(cls)
        out["names", cls] = [cell(x) for x in df.index]
        doc = A.attrs_of(cls, range(2, 6))
        for a in df.columns:
            if a in DERIVED or a == "obj":
                continue
            out["static", cls, str(a)] = {cell(i): cell(v) for i, v in zip(df.index, df[a])}
            if a in doc and doc[a]["kind"] == "str":
                out["static", cls, str(a)] = {k: "" if v is None else v for k, v in out["static", cls, str(a)].items()}
            if a in doc and len(df) and doc[a]["kind"] in A.DTYPES:
                out["type", cls, str(a)] = bool(A.DTYPES[doc[a]["kind"]](df[a].dtype))
        if not time:
            continue
        for a, ts in n.dynamic(cls).items():
            base = "custom series"
            if a in doc:
                base = "series" if not doc[a]["static"] else "dense"
            for nm in ts.columns:
                vals = [cell(v) for v in ts[nm]]
                if list(ts.index) != sns:
                    vals = dict(zip(ts.index, vals))
                if base == "series":
                    d0 = cell(A.default(doc[a]))
                    if vals == [d0] * len(vals):
                        continue
                if base == "dense":
                    s = cell(df.at[nm, a]) if nm in df.index else None
                    if isinstance(vals, list) and all(A.same(v, s) for v in vals):
                        continue
                out[base, cls, str(a), cell(nm)] = vals
    return out


def differences(got, want, tol=0.0):
    """Keys on which two contents differ."""
    bad = []
    for k in want:
        if k not in got:
            bad.append(f"{k}: missing (expected {short(want[k])})")
        elif not eq(got[k], want[k], tol):
            bad.append(f"{k}: {short(got[k])}, expected {short(want[k])}")
    bad += [f"{k}: unexpected {short(got[k])}" for k in got if k not in want]
    return bad


def short(x):
    return repr(x)[:300]


def eq(a, b, tol=0.0):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(eq(a[k], b[k], tol) for k in a) if len(a) == len(b) else False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y, tol) for x, y in zip(a, b))
    if A.missing(a) or A.missing(b):
        return A.missing(a) and A.missing(b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        return tol > 0 and math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * max(abs(a), abs(b))
    return type(a) is type(b) and a == b
