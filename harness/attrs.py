"""Frozen copy of the documented component attributes (types, defaults)."""
from __future__ import annotations

import json
import os

import numpy as np
import pandas as pd

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "attrs.json")) as _f:
    CLASSES = json.load(_f)


def num(v):
    return float("nan") if v is None else float(v)


def default(info):
    d = info["default"]
    return num(d) if info["kind"] == "float" else d


def attrs_of(cls, ports=()):
    """Documented attributes of a class, with the additional link ports."""
    out = dict(CLASSES[cls]["attrs"])
    if cls == "Link":
        for i in ports:
            out[f"bus{i}"] = dict(out["bus1"])
            out[f"efficiency{i}"] = dict(out["efficiency"])
            out[f"p{i}"] = dict(out["p1"])
    return out


DTYPES = {"float": lambda d: d == np.dtype(float), "int": lambda d: pd.api.types.is_integer_dtype(d),
          "bool": lambda d: d == np.dtype(bool), "str": lambda d: d == np.dtype(object) or pd.api.types.is_string_dtype(d)}


def same(a, b):
    """Equality of two cell values (missing equals missing, numbers by value)."""
    ma, mb = missing(a), missing(b)
    if ma or mb:
        return ma and mb
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return bool(a == b)


def missing(v):
    return v is None or (isinstance(v, (float, np.floating)) and np.isnan(v)) or v is pd.NA


def reset_link_ports():
    """Forget link ports that earlier networks of this process introduced."""
    from pypsa.components.types import all_components

    df = all_components["links"].defaults
    known = set(CLASSES["Link"]["attrs"]) | {"name"}
    extra = [x for x in df.index if x not in known]
    if extra:
        df.drop(extra, inplace=True)
