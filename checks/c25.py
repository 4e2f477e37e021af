"""C25: copies, equality, slices and merges."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import anynet as N
from harness import attrs as A
from harness.core import Test, Violation
from harness.gen import D

METAS = [None, {}, {"a": 1, "b": {"c": [1, 2, {"d": "x"}]}}, {"list": [1, [2, 3]], "s": "t", "f": 0.5}]
STATES = ["none", "none", "topology", "series", "optimise"]
MUT = ["static", "static", "series", "series", "add", "remove", "custom", "weights", "meta", "name", "crs", "pweights", "snapshots", "customseries", "rename"]


def muts(d, k=3):
    return [[d.pick(MUT), d.int(0, 99), d.int(0, 99), d.int(0, 9)] for _ in range(d.int(1, k))]


@st.composite
def copies(draw):
    d = D(draw)
    h = N.header(d)
    std = d.p(60)
    spec = {"kind": "copy", "head": h, "items": N.items(draw, d, h["T"], std=std, ports=d.p(40)), "name": d.pick(["", "net", "X 1"]), "meta": d.pick(METAS), "crs": d.pick([None, 3035, 4326]), "std": std}
    spec["state"] = d.pick(STATES) if d.p(70) else "none"
    if spec["state"] == "optimise" and not d.p(25):
        spec["state"] = "topology"
    spec["how"] = d.pick(["copy", "copy", "deepcopy"])
    spec["ops"] = muts(d)
    spec["mutate"] = d.pick(["copy", "original"])
    return spec


@st.composite
def parts(draw):
    d = D(draw)
    h = N.header(d)
    std = d.p(70)
    spec = {"kind": "part", "head": h, "items": N.items(draw, d, h["T"], std=std, ports=False, nbus=(2, 4)), "name": d.pick(["", "net"]), "meta": d.pick(METAS), "crs": d.pick([None, 3035]), "std": std}
    spec["how"] = d.pick(["snapshots", "snapshots", "empty", "periods", "types", "slice", "slice", "slice", "slice time", "slice time"])
    spec["mask"] = d.int(1, 2 ** 12 - 1)
    spec["buses"] = d.int(1, 15)
    spec["form"] = d.pick(["list", "mask", "slice"])
    spec["bform"] = d.pick(["list", "mask", "index"])
    spec["ops"] = muts(d, 2)
    return spec


@st.composite
def merges(draw):
    d = D(draw)
    h = N.header(d)
    two = []
    crs = d.pick([None, 3035])
    for pre in ("", "z "):
        two.append({"head": h, "items": N.items(draw, d, h["T"], std=False, ports=False, custom=d.p(40), prefix=pre, nbus=(1, 3)), "crs": crs, "meta": d.pick(METAS)})
    # line types are not merged
    for s in two:
        s["items"] = [x for x in s["items"] if x[0] not in ("LineType", "TransformerType")]
    spec = {"kind": "merge", "head": h, "one": two[0], "two": two[1], "how": d.pick(["merge", "merge", "inplace", "static", "skip", "plus", "overlap", "overlap", "snapshots", "weights"]), "pick": d.int(0, 99), "ops": muts(d, 2), "items": two[0]["items"] + two[1]["items"]}
    return spec


def state(n, kind):
    if kind in ("topology", "series"):
        n.determine_network_topology()
    if kind == "series":
        n.calculate_dependent_values()
    if kind == "optimise":
        n.add("Bus", "opt bus")
        n.add("Generator", "opt gen", bus="opt bus", p_nom=10, marginal_cost=1)
        n.add("Load", "opt load", bus="opt bus", p_set=3)
        n.objective = 3.5
        n.objective_constant = 1.5
        m = type(n)()
        m.add("Bus", "b")
        m.add("Generator", "g", bus="b", p_nom=1, marginal_cost=1)
        m.add("Load", "l", bus="b", p_set=1)
        m.optimize(solver_name="highs", log_to_console=False, threads=1)
        n.model = m.model


def classes(n):
    return [c for c in N.ORDER if len(n.static(c)) and c != "Shape"]


def mutate(n, op):
    """Apply an edit through ordinary means; False if it changes nothing."""
    kind, i, j, v = op
    cs = classes(n)
    if not len(n.buses):
        return False
    c = cs[i % len(cs)]
    df = n.static(c)
    nm = df.index[j % len(df)]
    doc = A.CLASSES[c]["attrs"]
    if kind == "static":
        cand = [a for a in df.columns if a in doc and doc[a]["kind"] == "float" and a not in N.DERIVED]
        if not cand:
            return False
        a = cand[(i + j) % len(cand)]
        old = df.at[nm, a]
        df.loc[nm, a] = 77.0 + v if not np.isfinite(old) or abs(old) < 1e6 else 5.0
    elif kind == "series":
        cand = [a for a, df_t in n.dynamic(c).items() if len(df_t.columns)]
        if not cand:
            return False
        df_t = n.dynamic(c)[cand[(i + j) % len(cand)]]
        if not all(pd.api.types.is_float_dtype(t) for t in df_t.dtypes):
            return False
        col = df_t.columns[j % len(df_t.columns)]
        k = v % len(df_t)
        df_t.iloc[k, df_t.columns.get_loc(col)] = 99.0 + v
    elif kind == "add":
        b = n.buses.index[0]
        n.add("Generator", "added", bus=b, p_nom=3.0, p_max_pu=[0.5] * len(n.snapshots))
    elif kind == "remove":
        n.remove(c, nm)
    elif kind == "custom":
        df[f"new {v}"] = 3.5
    elif kind == "weights":
        n.snapshot_weightings.iloc[v % len(n.snapshots), j % 3] += 7.0
    elif kind == "meta":
        if "b" in n.meta:
            n.meta["b"]["c"][2]["d"] = "changed"
        else:
            n.meta["new"] = [v]
    elif kind == "name":
        n.name = n.name + "!"
    elif kind == "crs":
        n.crs = 2056
    elif kind == "pweights":
        if not n.has_periods:
            return False
        n.investment_period_weightings.iloc[v % len(n.periods), j % 2] += 9.0
    elif kind == "snapshots":
        if n.has_periods or len(n.snapshots) < 2:
            return False
        n.set_snapshots(n.snapshots[:-1])
    elif kind == "customseries":
        n.dynamic("Generator")[f"new {v}"] = pd.DataFrame(2.5, index=n.snapshots, columns=["w"])
    elif kind == "rename":
        if c in ("LineType", "TransformerType", "GlobalConstraint"):
            return False
        n.rename_component_names("Bus", **{n.buses.index[0]: "renamed bus"})
    return True


def agree(got, want, what):
    bad = N.differences(got, want)
    if bad:
        raise Violation(f"{what}: " + "; ".join(bad[:4]))


def equal(a, b, want, what):
    for x, y, s in ((a, b, ""), (b, a, " (reversed)")):
        try:
            r = x.equals(y)
        except Exception as e:
            raise Violation(f"equality of {what}{s} raises {type(e).__name__}: {str(e)[:200]}") from e
        if bool(r) != want:
            raise Violation(f"equality of {what}{s} is {r}, expected {want}")
        if (x == y) != want:
            raise Violation(f"== of {what}{s} is not {want}")


def run_copy(spec, ctx):
    n = N.build(spec, std=spec["std"])
    state(n, spec["state"])
    ctx.label("state:" + spec["state"])
    before = N.content(n, sub=True)
    c = n.copy() if spec["how"] == "copy" else copy.deepcopy(n)
    agree(N.content(n, sub=True), before, "network after being copied")
    agree(N.content(c, sub=True), before, "copy")
    equal(n, c, True, "network and its copy")
    for x in c.sub_networks.index:
        if c.sub_networks.obj[x].n is not c:
            raise Violation("sub-network object of the copy belongs to the original network")
        if list(c.sub_networks.obj[x].buses_i()) != list(n.sub_networks.obj[x].buses_i()):
            raise Violation("sub-network of the copy has other buses")
    for acc in ("optimize", "cluster", "statistics", "plot"):
        o = getattr(getattr(c, acc), "n", getattr(getattr(c, acc), "_n", None))
        if o is not c:
            raise Violation(f"accessor {acc} of the copy belongs to another network")
    a, b = (c, n) if spec["mutate"] == "copy" else (n, c)
    done = 0
    for op in spec["ops"]:
        if mutate(a, op):
            ctx.label("edit:" + op[0])
            done += 1
        agree(N.content(b, sub=True), before, f"{'original' if b is n else 'copy'} after editing the {'copy' if b is n else 'original'} ({op[0]})")
    now = N.content(a, sub=True)
    differ = bool(N.differences(now, before))
    raw = a.snapshots.equals(b.snapshots)
    if differ:
        equal(n, c, False, f"networks that differ after {[o[0] for o in spec['ops']]}")
    elif done == 0 and raw:
        equal(n, c, True, "network and its copy")
    ctx.nontrivial(done > 0 and differ and len(spec["items"]) > 3)


def restrict(want, keep, pos, extra_drop=()):
    """Content for the names and snapshot positions that remain."""
    out = {}
    for k, v in want.items():
        if isinstance(k, tuple) and k[0] in ("names", "static", "type", "series", "dense", "custom series"):
            c = k[1]
            if k[0] == "names":
                v = [x for x in v if x in keep[c]]
            elif k[0] == "static":
                v = {x: y for x, y in v.items() if x in keep[c]}
            elif k[0] == "type":
                if not keep[c]:
                    continue
            else:
                if k[3] not in keep[c]:
                    continue
                v = [v[i] for i in pos]
        elif k == "snapshots" or (isinstance(k, tuple) and k[0] == "weightings"):
            v = [v[i] for i in pos]
        out[k] = v
    return out


def tidy(x, kind=None):
    """Drop parts whose form is free: columns of empty tables, constant series."""
    out = {}
    for k, v in x.items():
        if isinstance(k, tuple) and k[0] == "static" and not v:
            continue
        if isinstance(k, tuple) and k[0] == "type" and not x.get(("names", k[1])):
            continue
        out[k] = v
    return out


def dense_tidy(x):
    """Series that now equal their static value or default carry no information."""
    out = {}
    for k, v in x.items():
        if isinstance(k, tuple) and k[0] == "dense":
            s = x.get(("static", k[1], k[2]), {}).get(k[3])
            if all(A.same(y, s) for y in v):
                continue
        if isinstance(k, tuple) and k[0] == "series":
            d0 = N.cell(A.default(A.attrs_of(k[1], range(2, 6))[k[2]]))
            if all(A.same(y, d0) for y in v):
                continue
        out[k] = v
    return out


def all_kept(want):
    return {c: set(want["names", c]) for c in A.CLASSES if ("names", c) in want}


def run_part(spec, ctx):
    n = N.build(spec, std=spec["std"])
    want = N.content(n)
    keep = all_kept(want)
    T = len(n.snapshots)
    pos = [i for i in range(T) if spec["mask"] >> i & 1] or [0]
    how = spec["how"]
    multi = n.has_periods
    ctx.label("how:" + how, "multi" if multi else "single")
    what = f"copy for {how}"
    if how in ("snapshots", "empty", "types"):
        if how == "types":
            m = n.copy(ignore_standard_types=True)
            exp = restrict(want, keep, range(T))
        elif how == "empty":
            m = n.copy(snapshots=[])
            exp = {k: v for k, v in want.items() if not (isinstance(k, tuple) and k[0] in ("series", "dense", "custom series", "weightings", "period weightings")) and k not in ("snapshots", "levels", "periods")}
        else:
            if multi:
                sel = n.snapshots[pos]
                if list(sel.unique("period")) != list(n.periods) and spec["form"] == "list":
                    m = n.copy(snapshots=sel, investment_periods=sel.unique("period"))
                else:
                    m = n.copy(snapshots=sel)
            else:
                sel = n.snapshots[pos] if spec["form"] != "list" else list(n.snapshots[pos])
                m = n.copy(snapshots=sel)
            exp = restrict(want, keep, pos)
            if multi:
                exp = periods(exp)
        got = N.content(m)
        if how == "empty":
            got = {k: v for k, v in got.items() if k in exp}
    elif how == "periods":
        if not multi:
            return
        ps = list(n.periods)
        ps = [p for i, p in enumerate(ps) if spec["buses"] >> i & 1] or ps[:1]
        pos = [i for i, s in enumerate(n.snapshots) if s[0] in ps]
        m = n.copy(investment_periods=ps)
        exp = periods(restrict(want, keep, pos))
        got = N.content(m)
    else:
        buses = [b for i, b in enumerate(n.buses.index) if spec["buses"] >> i & 1] or list(n.buses.index[:1])
        if spec["bform"] == "mask":
            key = n.buses.index.isin(buses)
        elif spec["bform"] == "index":
            key = pd.Index(buses)
        else:
            key = buses
        keep["Bus"] = set(buses)
        for c in A.CLASSES:
            df = n.static(c)
            if "bus0" in df:
                keep[c] = {x for x in df.index if df.bus0[x] in buses and df.bus1[x] in buses}
            elif "bus" in df:
                keep[c] = {x for x in df.index if df.bus[x] in buses}
        if how == "slice":
            m = n[key]
            pos = list(range(T))
        else:
            if spec["form"] == "slice":
                a = spec["mask"] % T
                b = a + (spec["mask"] // T) % (T - a)
                pos = list(range(a, b + 1))
                m = n[n.snapshots[a]:n.snapshots[b], key]
            elif spec["form"] == "mask":
                m = n[np.isin(range(T), pos), key]
            else:
                m = n[n.snapshots[pos], key]
        exp = restrict(want, keep, pos)
        if multi:
            exp = periods(exp)
        got = N.content(m)
        exp.pop("meta")
        got.pop("meta")
        what = f"selection of buses {buses} ({how}, {spec['form']})"
    if not spec["std"]:  # selections may contain the standard types
        got, exp = notypes(got), notypes(exp)
    agree(dense_tidy(tidy(got)), dense_tidy(tidy(exp)), what)
    agree(N.content(n), want, "network after selecting from it")
    for op in spec["ops"]:
        if mutate(m, op):
            agree(N.content(n), want, f"original after editing the {what} ({op[0]})")
    ctx.nontrivial(len(spec["items"]) > 3 and (len(pos) < T or how.startswith("slice")))


def notypes(x):
    return {k: v for k, v in x.items() if not (isinstance(k, tuple) and k[1] in ("LineType", "TransformerType"))}


def periods(exp):
    ps = list(dict.fromkeys(s[0] for s in exp["snapshots"]))
    exp["periods"] = ps
    for k in exp:
        if isinstance(k, tuple) and k[0] == "period weightings":
            exp[k] = {p: exp[k][p] for p in ps}
    return exp


def join(a, b, skip, time):
    """Union of two contents, the header from the first."""
    out = {}
    for k, v in a.items():
        out[k] = copy.deepcopy(v)
    for k, v in b.items():
        if not isinstance(k, tuple) or k[1] in skip:
            continue
        if k[0] == "names":
            out[k] = a[k] + v
        elif k[0] == "static":
            out.setdefault(k, {})
            out[k] = {**out[k], **v}
        elif k[0] == "type":
            out[k] = v
        elif k[0] in ("series", "dense", "custom series") and time:
            out[k] = v
    for k in list(out):  # columns known to one side only
        if isinstance(k, tuple) and k[0] == "static":
            names = out["names", k[1]]
            d0 = A.CLASSES[k[1]]["attrs"].get(k[2])
            d0 = N.cell(A.default(d0)) if d0 else None
            out[k] = {x: out[k].get(x, d0) for x in names}
    return out


def run_merge(spec, ctx):
    how = spec["how"]
    ctx.label("how:" + how)
    one = N.build(spec["one"], std=False)
    s2 = copy.deepcopy(spec["two"])
    if how == "overlap":
        cand = [x for x in s2["items"]]
        t = cand[spec["pick"] % len(cand)]
        twin = [x for x in spec["one"]["items"] if x[0] == t[0]]
        if not twin:
            return
        old, new = t[1], twin[spec["pick"] // 7 % len(twin)][1]
        t[1] = new
        if t[0] == "Bus":
            for x in s2["items"]:
                for a in ("bus", "bus0", "bus1"):
                    if x[2].get(a) == old:
                        x[2][a] = new
    two = N.build(s2, std=False)
    if how == "snapshots":
        if one.has_periods or len(one.snapshots) < 2:
            return
        two.set_snapshots(two.snapshots[:-1] if spec["pick"] % 2 else two.snapshots[::-1])
    if how == "weights":
        two.snapshot_weightings.iloc[0, spec["pick"] % 3] += 2.0
    w1, w2 = N.content(one), N.content(two)
    kw, skip, time = {}, ["SubNetwork"], True
    if how == "static":
        kw["with_time"] = time = False
    if how == "skip":
        skip.append(["Generator", "Carrier", "Load", "GlobalConstraint"][spec["pick"] % 4])
        kw["components_to_skip"] = skip[-1:]
    if how in ("overlap", "snapshots", "weights"):
        inp = spec["pick"] % 3 == 0
        try:
            one.merge(two, inplace=inp)
        except ValueError:
            pass
        else:
            raise Violation(f"networks that disagree ({how}) were merged")
        agree(N.content(one), w1, f"first network after the rejected merge ({how})")
        agree(N.content(two), w2, f"second network after the rejected merge ({how})")
        ctx.nontrivial(len(spec["items"]) > 4)
        return
    if how == "inplace":
        r = one.merge(two, inplace=True)
        if r is not None:
            raise Violation("merging in place returns a network")
        r = one
    elif how == "plus":
        r = one + two
        if r is None:
            raise Violation("sum of two networks is None")
    else:
        r = one.merge(two, **kw)
    exp = join(w1, w2, skip, time)
    got = N.content(r)
    agree(dense_tidy(tidy(got)), dense_tidy(tidy(exp)), f"merged network ({how})")
    agree(N.content(two), w2, f"second network after the merge ({how})")
    if how != "inplace":
        agree(N.content(one), w1, f"first network after the merge ({how})")
    for op in spec["ops"]:
        if mutate(r, op):
            agree(N.content(two), w2, f"second network after editing the merged one ({op[0]})")
            if how != "inplace":
                agree(N.content(one), w1, f"first network after editing the merged one ({op[0]})")
    ctx.nontrivial(len(spec["one"]["items"]) > 2 and len(spec["two"]["items"]) > 2)


def wrap(f):
    def g(spec, ctx):
        A.reset_link_ports()
        return f(spec, ctx)

    return g


TESTS = [
    Test("copy", copies, wrap(run_copy), 200, 9000, "at least one edit that changes the data and more than three components"),
    Test("part", parts, wrap(run_part), 200, 9000, "more than three components and a proper selection of snapshots or buses"),
    Test("merge", merges, wrap(run_merge), 160, 7000, "more than two components on both sides"),
]
