"""Specs (plain JSON data) -> PyPSA networks, through the public API only.

spec = {
  "n": 4,                        # snapshots (per period)
  "sns": "int"|"dt"|"str",       # kind of snapshot labels
  "periods": [2020, 2030] | None,
  "weights": {"objective": [...], "stores": [...], "generators": [...]},
  "pweights": {"objective": [...], "years": [...]},
  "comps": [[class, name, {attr: value | [series]}], ...],
}
A list value is a time series over all snapshots; None inside is NaN.
"""
from __future__ import annotations

import math

import numpy as np
import pandas as pd


def nsteps(spec):
    return spec["n"] * len(spec.get("periods") or [None])


def snapshot_index(spec):
    n = spec["n"]
    kind = spec.get("sns", "int")
    if kind == "int":
        base = pd.Index(range(n))
    elif kind == "dt":
        base = pd.date_range("2030-01-01", periods=n, freq="h")
    else:
        base = pd.Index([f"t{i}" for i in range(n)])
    if spec.get("periods"):
        return pd.MultiIndex.from_product([spec["periods"], base], names=["period", "timestep"])
    return base


def num(v):
    if v is None:
        return np.nan
    if v == "inf":
        return np.inf
    if v == "-inf":
        return -np.inf
    return v


def is_series(v):
    return isinstance(v, list)


def build(spec, order=None):
    import pypsa

    n = pypsa.Network()
    idx = snapshot_index(spec)
    n.set_snapshots(idx)
    if spec.get("periods"):
        n.investment_periods = spec["periods"]
        pw = spec.get("pweights")
        if pw:
            for k, v in pw.items():
                n.investment_period_weightings[k] = [float(x) for x in v]
    for k, v in (spec.get("weights") or {}).items():
        n.snapshot_weightings[k] = [float(x) for x in v]
    add_all(n, spec["comps"])
    return n


def add_all(n, comps):
    """Add components, grouping neighbours of one class with equal attributes."""
    group = []

    def signature(c):
        return c[0], tuple(sorted((k, is_series(v)) for k, v in c[2].items()))

    def flush():
        if not group:
            return
        cls = group[0][0]
        if len(group) == 1:
            _, name, attrs = group[0]
            kw = {k: (pd.Series([num(x) for x in v], n.snapshots) if is_series(v) else num(v)) for k, v in attrs.items()}
            n.add(cls, name, **kw)
        else:
            names = [g[1] for g in group]
            kw = {}
            for k, v in group[0][2].items():
                if is_series(v):
                    kw[k] = pd.DataFrame({g[1]: [num(x) for x in g[2][k]] for g in group}, index=n.snapshots)
                else:
                    kw[k] = [num(g[2][k]) for g in group]
            n.add(cls, names, **kw)
        group.clear()

    for c in comps:
        if group and signature(group[0]) != signature(c):
            flush()
        group.append(c)
    flush()


def get(spec, cls):
    return [c for c in spec["comps"] if c[0] == cls]


def isnan(x):
    return x is None or (isinstance(x, float) and math.isnan(x))
