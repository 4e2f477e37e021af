"""C35: option store and geographic helpers."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation
from harness.gen import D

BASE = {"warnings.components_store_iter": True, "params.statistics.nice_names": True, "params.statistics.drop_zero": True, "params.statistics.round": 5}
VALUES = [True, False, None, 0, 1, 5, "x", [1, 2], -3.5]
NODES = ["", "params", "params.statistics", "warnings", "vt", "vt.sub"]
BAD = ["params", "params.statistics", "nothing", "params.nothing", "params.statistics.nothing", "params.statistics.round.x", "vt", ""]


@st.composite
def opt_specs(draw):
    d = D(draw)
    extra = {"vt.a": d.pick(VALUES), "vt.sub.b": d.pick(VALUES), "vt.sub.c": d.pick(VALUES)}
    paths = list(BASE) + list(extra)

    def ops(depth):
        out = []
        for _ in range(d.int(1, 5 if depth == 0 else 3)):
            k = d.int(0, 99)
            if k < 25:
                out.append(["set", d.pick(["path", "attr"]), d.pick(paths), d.pick(VALUES)])
            elif k < 33:
                out.append(["reset", d.pick(NODES)])
            elif k < 45:
                out.append(["bad", d.pick(["get", "set", "attrget", "attrset"]), d.pick(BAD)])
            elif k < 52:
                out.append(["clash", d.pick(["vt.a.x", "vt.sub", "params", "params.statistics.round.y"])])
            elif depth < 3:
                pairs = [[d.pick(paths), d.pick(VALUES)] for _ in range(d.int(0, 3))]
                out.append(["context", pairs, ops(depth + 1), d.pick([None, None, "raise", "bad", "odd"])])
        return out

    return {"extra": [[k, v] for k, v in extra.items()], "ops": ops(0)}


class Boom(Exception):
    pass


def run_options(spec, ctx):
    import pypsa
    from pypsa._options import InvalidOptionError, OptionsNode

    root = pypsa.options
    root._children.pop("vt", None)
    for p, v in spec["extra"]:
        root._add_option(p, v, "test")
    root.reset_all()
    defaults = {**BASE, **dict(spec["extra"])}
    model = dict(defaults)
    seen = set()

    def node(path):
        x = root
        for part in [p for p in path.split(".") if p]:
            x = getattr(x, part)
        return x

    def check(where):
        for p, v in model.items():
            for how, got in (("get_option", pypsa.get_option(p)), ("attribute", node(p))):
                if type(got) is not type(v) or got != v:
                    raise Violation(f"after {where}: option {p} is {got!r} by {how}, expected {v!r}")

    def expect(exc, f, what):
        try:
            f()
        except exc:
            return
        raise Violation(f"{what} did not raise {exc.__name__}")

    def run(ops, depth):
        for op in ops:
            if op[0] == "set":
                _, how, p, v = op
                if how == "path":
                    pypsa.set_option(p, v)
                else:
                    head, leaf = p.rsplit(".", 1)
                    setattr(node(head), leaf, v)
                model[p] = v
            elif op[0] == "reset":
                node(op[1]).reset_all()
                for p in model:
                    if not op[1] or p.startswith(op[1] + "."):
                        model[p] = defaults[p]
            elif op[0] == "bad":
                _, how, p = op
                if how == "get":
                    expect(InvalidOptionError, lambda: pypsa.get_option(p), f"get_option({p!r})")
                elif how == "set":
                    expect(InvalidOptionError, lambda: pypsa.set_option(p, 1), f"set_option({p!r}, 1)")
                elif "." not in p and p:
                    if how == "attrset":
                        expect(InvalidOptionError, lambda: setattr(root, p, 1), f"options.{p} = 1")
                    elif p == "nothing":
                        expect(InvalidOptionError, lambda: getattr(root, p), f"options.{p}")
            elif op[0] == "clash":
                expect(ValueError, lambda: root._add_option(op[1], 1, ""), f"adding an option {op[1]!r}")
            else:
                _, pairs, inner, end = op
                seen.add(f"depth{depth + 1}")
                if len({p for p, _ in pairs}) < len(pairs):
                    seen.add("twice")
                args = [x for pair in pairs for x in pair]
                before = dict(model)
                if end == "odd":
                    expect(ValueError, lambda: pypsa.option_context(*args, "vt.a").__enter__(), "an unpaired argument")
                elif end == "bad":
                    expect(InvalidOptionError, lambda: pypsa.option_context(*args, "params.nothing", 1).__enter__(), "a context of an unknown option")
                else:
                    try:
                        with pypsa.option_context(*args):
                            model.update({p: v for p, v in pairs})
                            check(f"entering option_context{tuple(args)}")
                            run(inner, depth + 1)
                            if end == "raise":
                                raise Boom()
                        if end == "raise":
                            raise Violation("option_context swallowed an exception")
                    except Boom:
                        pass
                    # what the context did not override keeps the effects of the body
                    for p, _ in pairs:
                        model[p] = before[p]
            check(op)

    try:
        check("setting up")
        run(spec["ops"], 0)
    finally:
        root._children.pop("vt", None)
        root.reset_all()
    for s in seen:
        ctx.label(s)
    ctx.nontrivial("depth1" in seen)


# ----- geography ------------------------------------------------------------
SPECIAL = [[0, 0], [180, 0], [-180, 0], [0, 90], [0, -90], [90, 0], [-90, 0], [12.5, 90], [13.4, 52.5], [-166.6, -52.5]]


@st.composite
def geo_specs(draw):
    d = D(draw)

    def point():
        if d.p(30):
            return d.pick(SPECIAL)
        return [round(d.int(-1800000, 1800000) / 1e4, 4), round(d.int(-900000, 900000) / 1e4, 4)]

    a = [point() for _ in range(d.int(1, 5))]
    b = []
    for p in a:
        k = d.int(0, 9)
        if k == 0:
            q = list(p)
        elif k == 1:  # antipode
            q = [p[0] - 180 if p[0] > 0 else p[0] + 180, -p[1]]
        elif k == 2:  # very near
            q = [p[0], max(-90.0, min(90.0, p[1] + d.pick([1e-6, -1e-5, 1e-3])))]
        else:
            q = point()
        b.append(q)
    return {"a": a, "b": b, "c": [point() for _ in range(d.int(1, 4))], "margin": d.pick([0, 0.05, 0.5, 1]), "missing": [d.int(0, 4) for _ in range(d.int(0, 2))],
            "names": d.names(len(a)), "as": d.pick(["list", "array", "frame"])}


def exact(p, q):
    """Great-circle distance by the angle between the position vectors."""
    def vec(lon, lat):
        lon, lat = math.radians(lon), math.radians(lat)
        return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])

    u, v = vec(*p), vec(*q)
    return 6371.0 * math.atan2(float(np.linalg.norm(np.cross(u, v))), float(u @ v))


def run_geo(spec, ctx):
    import pandas as pd
    import pypsa
    from pypsa import geo

    wrap = {"list": list, "array": np.array, "frame": lambda x: pd.DataFrame(x, columns=["x", "y"])}[spec["as"]]
    a, b, c = spec["a"], spec["b"], spec["c"]

    def near(got, want, what):
        # the half-angle formula loses accuracy only near antipodes
        tol = 1e-6 + 1e-9 * want if want < 20000 else 0.01
        if not abs(got - want) <= tol:
            raise Violation(f"{what} is {got} km, expected {want} km")

    d1, d2 = np.asarray(geo.haversine_pts(wrap(a), wrap(b))), np.asarray(geo.haversine_pts(wrap(b), wrap(a)))
    if d1.shape != (len(a),):
        raise Violation(f"haversine_pts of {len(a)} points has shape {d1.shape}")
    for i, (p, q) in enumerate(zip(a, b)):
        w = exact(p, q)
        near(d1[i], w, f"haversine_pts({p}, {q})")
        near(float(geo.haversine_pts(p, q)), w, f"haversine_pts of single points {p}, {q}")
        if abs(d1[i] - d2[i]) > 1e-9 * (1 + w):
            raise Violation(f"distance {p} to {q} is {d1[i]}, but back {d2[i]}")
        if (p == q) and d1[i] != 0:
            raise Violation(f"distance of {p} to itself is {d1[i]}")
        if w > 1e-4 and not d1[i] > 0:
            raise Violation(f"distance of different points {p}, {q} is {d1[i]}")
    m = np.asarray(geo.haversine(wrap(a), wrap(c)))
    if m.shape != (len(a), len(c)):
        raise Violation(f"haversine of {len(a)} and {len(c)} points has shape {m.shape}")
    for i, p in enumerate(a):
        for j, q in enumerate(c):
            near(m[i, j], exact(p, q), f"haversine entry {i},{j} of {p}, {q}")
    near(float(np.asarray(geo.haversine(a[0], c[0])).ravel()[0]), exact(a[0], c[0]), "haversine of single points")
    # lengths of lines from the coordinates of their buses
    n = pypsa.Network()
    for i, (p, q) in enumerate(zip(a, b)):
        n.add("Bus", f"p{i}", x=p[0], y=p[1])
        n.add("Bus", f"q{i}", x=q[0], y=q[1])
        n.add("Line", spec["names"][i], bus0=f"p{i}", bus1=f"q{i}", x=0.1)
    got = n.components.lines.calculate_line_length()
    if len(got) != len(a):
        raise Violation(f"{len(a)} lines have {len(got)} lengths")
    for i, nm in enumerate(n.lines.index):  # in the order of the lines
        k = spec["names"].index(nm)
        near(float(got.iloc[i]) / 1000, exact(a[k], b[k]), f"length of line {nm!r}")
    # bounding box
    xs, ys = np.array([p[0] for p in a + c], float), np.array([p[1] for p in a + c], float)
    for i in spec["missing"]:
        if i < len(xs) and np.isfinite(xs).sum() > 1:
            xs[i] = ys[i] = np.nan
    ok = np.isfinite(xs)
    (x1, y1), (x2, y2) = geo.compute_bbox(xs, ys, spec["margin"])
    for got, v, sgn in ((x1, xs[ok], -1), (y1, ys[ok], -1), (x2, xs[ok], 1), (y2, ys[ok], 1)):
        want = (v.min() if sgn < 0 else v.max()) + sgn * spec["margin"] * (v.max() - v.min())
        if not abs(got - want) <= 1e-9 * (1 + abs(want)):
            raise Violation(f"bounding box {(x1, y1), (x2, y2)} of {list(zip(xs, ys))} with margin {spec['margin']}: {got} should be {want}")
    ctx.label("as:" + spec["as"])
    ctx.nontrivial(len(a) > 1 and any(p != q for p, q in zip(a, b)))


TESTS = [
    Test("options", opt_specs, run_options, 600, 40000, "histories of option operations against a dictionary model; non-trivial: at least one temporary override"),
    Test("geo", geo_specs, run_geo, 250, 10000, "distances, line lengths and bounding boxes of random and special points; non-trivial: several points, some different"),
]
