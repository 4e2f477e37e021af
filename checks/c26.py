"""C26: networks written to files load back unchanged."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from harness import anynet as N
from harness import attrs as A
from harness.core import Test, Violation
from harness.gen import D

METAS = [None, {}, {"a": 1, "b": {"c": [1, 2, {"d": "x"}], "u": "Zürich"}}, {"list": [1, [2, 3]], "s": "t", "f": 0.5, "t": True, "n": None}, {"txt": "12", "quote": 'a"b,c'}]
FORMATS = ["csv", "netcdf", "hdf5", "excel"]
WRITE_ONCE = ["new", "new", "over", "over", "over", "over empty"]


def one(draw, d, odd, fmt):
    h = N.header(d)
    std = d.p(75)
    small = fmt == "excel"
    s = {"head": h, "items": N.items(draw, d, h["T"], odd=odd, std=std, ports=d.p(50), nbus=(1, 3) if small else (1, 4)), "std": std}
    s["name"] = d.pick(["", "net", "12", "A net, Ü"])
    s["meta"] = d.pick(METAS)
    s["crs"] = d.pick([None, 3035, "+proj=ortho"])
    s["extra"] = d.pick([None, None, 2.5, "text", 3])
    s["objective"] = d.pick([None, 12.5, 1 / 3])
    s["topo"] = d.p(15)
    return s


def strategy(formats):
    @st.composite
    def gen(draw):
        d = D(draw)
        fmt = d.pick(formats)
        odd = d.p(40)
        spec = {"kind": "io", "format": fmt, "one": one(draw, d, odd, fmt)}
        spec["target"] = d.pick(WRITE_ONCE)
        if spec["target"] == "over":
            spec["old"] = one(draw, d, d.p(20), fmt)
        spec["load"] = d.pick(["init", "method"])
        spec["types"] = d.p(20)
        spec["time"] = d.p(90)
        if fmt == "netcdf":
            spec["how"] = d.pick(["file", "file", "dataset", "compressed", "float32"])
        if fmt == "csv":
            spec["csv"] = d.pick([{}, {}, {"quotechar": "'"}, {"encoding": "utf-16"}])
        return spec

    return gen


def make(s):
    n = N.build(s, std=s["std"])
    if s["extra"] is not None:
        n.extra_value = s["extra"]
    if s["objective"] is not None:
        n.objective = s["objective"]
        n.objective_constant = s["objective"] * 2
    if s["topo"]:
        n.determine_network_topology()
    return n


def write(n, spec, path):
    fmt = spec["format"]
    kw = {"export_standard_types": spec["types"]}
    if fmt == "csv":
        n.export_to_csv_folder(path, **kw, **spec["csv"])
    elif fmt == "netcdf":
        how = spec["how"]
        if how == "compressed":
            kw["compression"] = {"zlib": True, "complevel": 2}
        if how == "float32":
            kw["float32"] = True
        ds = n.export_to_netcdf(None if how == "dataset" else path, **kw)
        if how == "dataset":
            return ds
    elif fmt == "hdf5":
        n.export_to_hdf5(path, **kw)
    else:
        n.export_to_excel(path, **kw)
    return path


def load(spec, path, std):
    import pypsa

    fmt = spec["format"]
    if spec["load"] == "init" and fmt != "csv" and isinstance(path, str) and spec["time"]:
        return pypsa.Network(path, ignore_standard_types=not std)
    if spec["load"] == "init" and fmt == "csv" and not spec["csv"] and spec["time"]:
        return pypsa.Network(path, ignore_standard_types=not std)
    n = pypsa.Network(ignore_standard_types=not std)
    kw = {} if spec["time"] else {"skip_time": True}
    if fmt == "csv":
        n.import_from_csv_folder(path, **kw, **spec["csv"])
    elif fmt == "netcdf":
        n.import_from_netcdf(path, **kw)
    elif fmt == "hdf5":
        n.import_from_hdf5(path, **kw)
    else:
        n.import_from_excel(path, **kw)
    return n


def described(n, s, time=True):
    out = N.content(n, time=time)
    for a in ("extra_value", "objective", "objective_constant"):
        out["network", a] = N.cell(getattr(n, a, None))
    return out


def normal(x):
    """Columns of empty tables have no data; order of weighting columns is free."""
    return {k: v for k, v in x.items() if not (isinstance(k, tuple) and k[0] == "static" and not v)
            and not (isinstance(k, tuple) and k[0] == "type" and not x.get(("names", k[1])))}


def nocustom_empty(x):
    return x


def run(spec, ctx):
    A.reset_link_ports()
    fmt = spec["format"]
    ctx.label("format:" + fmt, "target:" + spec["target"], "kind:" + spec["one"]["head"]["kind"])
    tmp = tempfile.mkdtemp(prefix="verif_io_")
    try:
        path = os.path.join(tmp, {"csv": "folder", "netcdf": "n.nc", "hdf5": "n.h5", "excel": "n.xlsx"}[fmt])
        if spec["target"] == "over":
            old = make(spec["old"])
            write(old, spec, path)
        elif spec["target"] == "over empty" and fmt == "csv":
            os.mkdir(path)
        n = make(spec["one"])
        before = described(n, spec["one"])
        where = write(n, spec, path)
        after = described(n, spec["one"])
        bad = N.differences(after, before)
        if bad:
            raise Violation(f"writing to {fmt} changed the network: " + "; ".join(bad[:3]))
        std = spec["one"]["std"] and not spec["types"]
        m = load(spec, where, std)
        got = described(m, spec["one"], time=spec["time"])
        want = described(n, spec["one"], time=spec["time"])
        tol = 1e-6 if spec.get("how") == "float32" else 0.0
        if not std or not spec["one"]["std"]:
            # standard types were or were not written along
            pass
        bad = N.differences(normal(got), normal(want), tol)
        if bad:
            raise Violation(f"network loaded from {fmt} ({spec['target']}) differs: " + "; ".join(bad[:4]))
        kinds = {i[0] for i in spec["one"]["items"]}
        ctx.nontrivial(len(kinds) >= 3 and any(i[3] or i[5] for i in spec["one"]["items"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TESTS = [
    Test("roundtrip", strategy(["csv", "csv", "netcdf", "hdf5"]), run, 180, 8000, "at least three component classes and at least one time series"),
    Test("excel", strategy(["excel"]), run, 45, 2000, "at least three component classes and at least one time series"),
]
