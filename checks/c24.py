"""C24: histories of snapshot, period and weighting changes; dense views of attributes."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import attrs as A
from harness.core import Test, Violation
from harness.gen import D

COMPS = [("Bus", "b1"), ("Bus", "b2"), ("Generator", "g1"), ("Generator", "10"), ("Generator", "9"), ("Load", "l"), ("StorageUnit", "su"), ("Store", "st"), ("Line", "ln"), ("Link", "lk"), ("Link", "2"), ("Transformer", "t"), ("ShuntImpedance", "sh")]
BASE = pd.Timestamp("2030-01-01")
ATTR = {c: [a for a, i in A.CLASSES[c]["attrs"].items() if i["varying"]] for c in {x[0] for x in COMPS}}
DENSE = {c: [a for a, i in A.CLASSES[c]["attrs"].items() if i["static"] and i["varying"]] for c in ATTR}
FIXED = {c: [a for a, i in A.CLASSES[c]["attrs"].items() if i["static"] and i["kind"] == "float"] for c in ATTR}
COLS = ["objective", "stores", "generators"]
BAD = ["empty", "tz", "levels", "weights_index", "period_weights_index", "decreasing", "repeated", "float", "unknown_period", "fewer", "timesteps", "weights_len"]


def gen_labels(d, kind):
    if kind == "multi":
        ps = sorted(set(d.pick([2020, 2030, 2040]) for _ in range(d.int(1, 3))))
        out = []
        for p in ps:
            ts = sorted(set(d.int(0, 4) for _ in range(d.int(1, 3))))
            out += [[p, t] for t in ts]
        return out
    ls = list(dict.fromkeys(d.int(0, 6) for _ in range(d.int(1, 5))))
    if kind == "dt" or d.p(70):
        ls = sorted(ls)
    return ls


@st.composite
def specs(draw):
    d = D(draw)
    kind = d.pick(["int", "int", "dt", "str", "multi"])
    start = {"kind": kind, "labels": gen_labels(d, kind)}
    comps = [list(c) for c in COMPS if d.p(45)] or [["Generator", "g1"]]
    stat = []
    for c, nm in comps:
        kw = {}
        for _ in range(d.int(0, 3)):
            a = d.pick(DENSE[c] + FIXED[c])
            kw[a] = d.q(-3, 6)
        stat.append(kw)
    ops = []
    for _ in range(d.int(2, 9)):
        k = d.pick(["series", "series", "set", "set", "set", "periods", "weights", "weights", "pweights", "bad", "dense", "dense", "dense", "fixed", "custom", "custom"])
        if k == "series":
            i = d.int(0, len(comps) - 1)
            ops.append(["series", i, d.pick(ATTR[comps[i][0]]), [d.q(-3, 6) for _ in range(7)]])
        elif k == "custom":
            ops.append(["custom", d.int(0, len(comps) - 1), [d.q(-3, 6) for _ in range(7)]])
        elif k == "set":
            kd = d.pick([kind, "multi", "multi", "int"]) if d.p(45) else kind
            ops.append(["set", {"kind": kd, "labels": gen_labels(d, kd)}, d.pick([1.0, 2.0, 0.5]), d.p(30), d.p(25)])
        elif k == "periods":
            ops.append(["periods", sorted(set(d.pick([2020, 2030, 2040]) for _ in range(d.int(1, 3)))), d.p(50)])
        elif k == "weights":
            ops.append(["weights", d.pick(["frame", "series", "cell", "column"]), [[d.q(0, 4) for _ in range(3)] for _ in range(9)], d.int(0, 8)])
        elif k == "pweights":
            ops.append(["pweights", d.pick(["frame", "series", "cell"]), [[d.q(0, 4) for _ in range(2)] for _ in range(3)]])
        elif k == "bad":
            ops.append(["bad", d.pick(BAD)])
        elif k == "fixed":
            i = d.int(0, len(comps) - 1)
            ops.append(["fixed", i, d.pick(DENSE[comps[i][0]] + FIXED[comps[i][0]]), d.q(-3, 6)])
        else:
            ops.append(["dense", d.int(0, len(comps) - 1), d.int(0, 99), d.int(0, 2 ** 9 - 1) if d.p(60) else None, d.int(0, 15) if d.p(50) else None, d.pick(["list", "index"]), d.p(30)])
    return {"start": start, "items": comps, "stat": stat, "ops": ops, "kind": "history"}


def label(kind, x):
    if kind == "dt":
        return BASE + pd.Timedelta(hours=int(x))
    if kind == "str":
        return f"s{x}"
    if kind == "multi":
        return (x[0], x[1])
    return x


def index(kind, labels):
    ls = [label(kind, x) for x in labels]
    if kind == "multi":
        return ls, pd.MultiIndex.from_tuples(ls)
    if kind == "dt":
        return ls, pd.DatetimeIndex(ls)
    return ls, pd.Index(ls)


class Model:
    def __init__(self, comps, stat):
        self.comps = comps
        self.static = {}
        for (c, nm), kw in zip(comps, stat):
            self.static[c, nm] = {a: A.default(i) for a, i in A.CLASSES[c]["attrs"].items() if i["static"] and i["kind"] == "float"}
            self.static[c, nm].update(kw)
        self.series = {}  # (c, nm, attr) -> {label: v}
        self.labels = [pd.Timestamp("now")]
        self.kind = None
        self.w = {}
        self.pw = None  # period -> (objective, years); None: unknown
        self.free = set()  # series whose values the last change left open
        self.wfree = False

    def set(self, kind, labels, default, delta):
        old_kind, old = self.kind, set(self.labels)
        self.free = set()
        self.wfree = False
        for (c, nm, a), vals in self.series.items():
            i = A.CLASSES[c]["attrs"].get(a)
            dflt = A.default(i) if i else float("nan")
            if kind == "multi" and old_kind not in ("multi", None):
                new = {x: vals.get(x[1], dflt) for x in labels}
            else:
                new = {x: vals.get(x, dflt) for x in labels}
            self.series[c, nm, a] = new
        if (kind == "multi") != (old_kind == "multi") and old_kind is not None:
            self.wfree = True
        self.w = {x: self.w.get(x, [default] * 3) for x in labels}
        if delta and kind == "dt":
            self.wfree = False
            if len(labels) > 1:
                h = [(b - a).total_seconds() / 3600 for a, b in zip(labels, labels[1:])]
                h.append(h[-1])
                self.w = {x: [v] * 3 for x, v in zip(labels, h)}
            else:
                self.wfree = True
        self.labels, self.kind = labels, kind
        if kind != "multi" or old_kind != "multi":
            self.pw = None if self.pw else self.pw
        self.pw = None


def verify(n, m, step):
    sns = n.snapshots
    if list(sns) != m.labels:
        raise Violation(f"{step}: snapshots are {list(sns)}, expected {m.labels}")
    if sns.name != "snapshot":
        raise Violation(f"{step}: snapshots are named {sns.name!r}")
    multi = m.kind == "multi"
    if isinstance(sns, pd.MultiIndex) != multi or (multi and list(sns.names) != ["period", "timestep"]):
        raise Violation(f"{step}: snapshots have levels {list(sns.names)}")
    if bool(n.has_periods) != multi or bool(n.has_investment_periods) != multi:
        raise Violation(f"{step}: has_periods is {n.has_periods} for snapshots {m.labels}")
    wantp = list(dict.fromkeys(x[0] for x in m.labels)) if multi else []
    wantt = list(dict.fromkeys(x[1] for x in m.labels)) if multi else m.labels
    if list(n.periods) != wantp or list(n.investment_periods) != wantp:
        raise Violation(f"{step}: periods are {list(n.periods)}, expected {wantp}")
    if list(n.timesteps) != wantt:
        raise Violation(f"{step}: timesteps are {list(n.timesteps)}, expected {wantt}")
    w = n.snapshot_weightings
    if not w.index.equals(sns):
        raise Violation(f"{step}: weightings are on {list(w.index)}, snapshots {list(sns)}")
    if not set(COLS) <= set(w.columns):
        raise Violation(f"{step}: weighting columns {list(w.columns)}")
    for j, x in enumerate(m.labels):
        got = [float(v) for v in w[COLS].iloc[j]]
        if m.wfree:
            m.w[x] = got
        if any(np.isnan(got)) or got != [float(v) for v in m.w[x]]:
            raise Violation(f"{step}: weightings of snapshot {x} are {got}, expected {'numbers' if m.wfree else m.w[x]}")
    m.wfree = False
    if m.pw is not None:
        pw = n.investment_period_weightings
        if list(pw.index) != list(m.pw):
            raise Violation(f"{step}: period weightings are on {list(pw.index)}, periods {list(m.pw)}")
        for p, v in m.pw.items():
            got = [float(pw.at[p, "objective"]), float(pw.at[p, "years"])]
            if got != v:
                raise Violation(f"{step}: weightings of period {p} are {got}, expected {v}")
    for comp in A.CLASSES.values():
        for a, df in n.components[comp["list"]].dynamic.items():
            if not df.index.equals(sns):
                raise Violation(f"{step}: {comp['list']}_t.{a} is on {list(df.index)}, snapshots {list(sns)}")
    have = {}
    for c in ATTR:
        for a, df in n.dynamic(c).items():
            for nm in df.columns:
                have[c, nm, a] = df[nm]
    for key, vals in m.series.items():
        if key not in have:
            raise Violation(f"{step}: series {key} is lost")
        got = list(have[key])
        if key in m.free:
            m.series[key] = dict(zip(m.labels, got))
            continue
        exp = [vals[x] for x in m.labels]
        if not all(A.same(x, y) for x, y in zip(got, exp)):
            raise Violation(f"{step}: series {key} is {got}, expected {exp}")
    m.free = set()
    extra = [k for k in have if k not in m.series]
    if extra:
        raise Violation(f"{step}: unexpected series {extra[:3]}")


def check_dense(n, m, op, step, ctx):
    c, nm0 = m.comps[op[1]]
    attrs = DENSE[c] + [a for a in FIXED[c] if a not in DENSE[c]]
    sers = sorted({k[2] for k in m.series if k[0] == c and k[2] in attrs})
    pool = sers * 3 + attrs
    a = pool[op[2] % len(pool)]
    names = [x[1] for x in m.comps if x[0] == c]
    labels = m.labels
    kw = {}
    if op[3] is not None:
        labels = [x for j, x in enumerate(m.labels) if op[3] >> j & 1]
        if not labels:
            labels = m.labels[:1]
        if m.kind == "multi":
            kw["snapshots"] = pd.MultiIndex.from_tuples(labels, names=["period", "timestep"]) if op[5] == "index" else list(labels)
        else:
            kw["snapshots"] = pd.Index(labels) if op[5] == "index" else list(labels)
    want = names
    if op[4] is not None:
        want = [x for j, x in enumerate(names) if op[4] >> j & 1]
        kw["inds"] = pd.Index(want) if op[5] == "index" else pd.Index(want + ["absent"])

    def val(nm, x):
        return m.series[c, nm, a][x] if (c, nm, a) in m.series else m.static[c, nm][a]

    ctx.label("dense")
    got = n.get_switchable_as_dense(c, a, **kw)
    if list(got.index) != labels:
        raise Violation(f"{step}: dense {c} {a} is on {list(got.index)}, requested {labels}")
    if sorted(got.columns) != sorted(want):
        raise Violation(f"{step}: dense {c} {a} has columns {list(got.columns)}, requested {want}")
    for nm in want:
        for x, g in zip(labels, got[nm]):
            if not A.same(g, val(nm, x)):
                raise Violation(f"{step}: dense {c} {a} of {nm} at {x} is {g}, expected {val(nm, x)}")
    if op[6] and a in DENSE[c]:
        from pypsa.descriptors import get_switchable_as_iter

        ctx.label("iter")
        sns = got.index
        rows = list(get_switchable_as_iter(n, c, a, sns, inds=want or None))
        if len(rows) != len(labels):
            raise Violation(f"{step}: iterator over {c} {a} yields {len(rows)} rows for {len(labels)} snapshots")
        for x, row in zip(labels, rows):
            ask = want or names
            if sorted(row.index) != sorted(ask) or not all(A.same(row[nm], val(nm, x)) for nm in ask):
                raise Violation(f"{step}: iterator over {c} {a} at {x} yields {row.to_dict()}")


def capture(n):
    out = {"sns": n.snapshots.copy(), "w": n.snapshot_weightings.copy(), "pw": n.investment_period_weightings.copy()}
    for c in ATTR:
        for a, df in n.dynamic(c).items():
            out[c, a] = df.copy()
    return out


def bad(n, m, kind):
    P = list(n.periods)
    if kind == "empty":
        return lambda: n.set_snapshots([])
    if kind == "tz":
        return lambda: n.set_snapshots(pd.date_range("2030", periods=2, tz="UTC"))
    if kind == "levels":
        return lambda: n.set_snapshots(pd.MultiIndex.from_tuples([(2020, 1, 1), (2020, 1, 2)]))
    if kind == "weights_index":
        def f():
            n.snapshot_weightings = pd.DataFrame(2.0, index=["u", "v"], columns=COLS)
        return f
    if kind == "weights_len":
        def f():
            n.snapshot_weightings = pd.Series(2.0, index=n.snapshots).iloc[:-1]
        return f
    if kind == "period_weights_index":
        def f():
            n.investment_period_weightings = pd.DataFrame(2.0, index=[1999, 2001], columns=["objective", "years"])
        return f
    if kind == "decreasing":
        return lambda: n.set_investment_periods(P[::-1] if len(P) > 1 else [2030, 2020])
    if kind == "repeated":
        return lambda: n.set_investment_periods((P or [2020])[:1] * 2)
    if kind == "float":
        return lambda: n.set_investment_periods([float(p) + 0.5 for p in P or [2020]])
    if kind == "unknown_period":
        return (lambda: n.set_investment_periods(P + [2999])) if P else None
    if kind == "fewer":
        return (lambda: n.set_investment_periods(P[:-1])) if len(P) > 1 else None

    def f():
        n.timesteps = [1, 2]
    return f


def run(spec, ctx):
    import pypsa

    n = pypsa.Network(ignore_standard_types=True)
    m = Model([tuple(x) for x in spec["items"]], spec["stat"])
    A.reset_link_ports()
    ls, idx = index(spec["start"]["kind"], spec["start"]["labels"])
    n.set_snapshots(idx)
    m.set(spec["start"]["kind"], ls, 1.0, False)
    m.wfree = False
    for (c, nm), kw in zip(m.comps, spec["stat"]):
        n.add(c, nm, **kw)
    verify(n, m, "start")
    changes = 0
    for j, op in enumerate(spec["ops"]):
        step = f"step {j} ({op[0]})"
        if op[0] == "series":
            c, nm = m.comps[op[1]]
            vals = [op[3][i % 7] for i in range(len(m.labels))]
            n.dynamic(c)[op[2]][nm] = vals
            m.series[c, nm, op[2]] = dict(zip(m.labels, vals))
        elif op[0] == "custom":
            c, nm = m.comps[op[1]]
            vals = [op[2][i % 7] for i in range(len(m.labels))]
            n._import_series_from_df(pd.DataFrame({nm: vals}, index=n.snapshots), c, "profile", overwrite=True)
            m.series[c, nm, "profile"] = dict(zip(m.labels, vals))
        elif op[0] == "fixed":
            c, nm = m.comps[op[1]]
            n.static(c).loc[nm, op[2]] = op[3]
            m.static[c, nm][op[2]] = op[3]
        elif op[0] == "set":
            s = op[1]
            if m.kind == "multi" and s["kind"] != "multi":
                continue  # no documented meaning
            ls, idx = index(s["kind"], s["labels"])
            ctx.label(f"set:{m.kind}->{s['kind']}")
            kw = {"default_snapshot_weightings": op[2], "weightings_from_timedelta": op[3]}
            if op[4] and op[2] == 1.0 and not op[3]:
                n.snapshots = idx
            else:
                n.set_snapshots(idx, **kw)
            m.set(s["kind"], ls, op[2], op[3])
            changes += 1
        elif op[0] == "periods":
            ps = op[1]
            if m.kind == "multi":
                ps = list(dict.fromkeys(x[0] for x in m.labels))
                if ps != sorted(ps):
                    continue
            if op[2]:
                n.set_investment_periods(ps)
            else:
                n.investment_periods = ps
            if m.kind != "multi":
                labels = [(p, x) for p in ps for x in m.labels]
                m.series = {k: {(p, x): v[x] for p in ps for x in m.labels} for k, v in m.series.items()}
                m.w = {(p, x): m.w[x] for p in ps for x in m.labels}
                m.labels, m.kind = labels, "multi"
                m.pw = None
                changes += 1
            old = m.pw or {}
            if m.pw is None:  # weightings of periods used in earlier steps may be kept
                pw = n.investment_period_weightings
                m.pw = {p: [float(pw.at[p, "objective"]), float(pw.at[p, "years"])] if p in pw.index and p in m_seen(spec, j) else [1.0, 1.0] for p in ps}
            else:
                m.pw = {p: old.get(p, [1.0, 1.0]) for p in ps}
            ctx.label("periods")
        elif op[0] == "weights":
            vals = [op[2][i % 9] for i in range(len(m.labels))]
            ctx.label("weights:" + op[1])
            if op[1] == "frame":
                n.snapshot_weightings = pd.DataFrame(vals, index=n.snapshots, columns=COLS)
                m.w = {x: list(v) for x, v in zip(m.labels, vals)}
            elif op[1] == "series":
                n.snapshot_weightings = pd.Series([v[0] for v in vals], index=n.snapshots)
                m.w = {x: [v[0]] * 3 for x, v in zip(m.labels, vals)}
            elif op[1] == "column":
                n.snapshot_weightings["stores"] = [v[1] for v in vals]
                m.w = {x: [m.w[x][0], v[1], m.w[x][2]] for x, v in zip(m.labels, vals)}
            else:
                x = m.labels[op[3] % len(m.labels)]
                n.snapshot_weightings.loc[x, "generators"] = vals[0][2]
                m.w[x] = [m.w[x][0], m.w[x][1], vals[0][2]]
            changes += 1
        elif op[0] == "pweights":
            if m.pw is None:
                continue
            vals = [op[2][i % 3] for i in range(len(m.pw))]
            if op[1] == "frame":
                n.investment_period_weightings = pd.DataFrame(vals, index=n.periods, columns=["objective", "years"])
                m.pw = {p: list(v) for p, v in zip(m.pw, vals)}
            elif op[1] == "series":
                n.investment_period_weightings = pd.Series([v[0] for v in vals], index=n.periods)
                m.pw = {p: [v[0]] * 2 for p, v in zip(m.pw, vals)}
            else:
                p = next(iter(m.pw))
                n.investment_period_weightings.loc[p, "years"] = vals[0][1]
                m.pw[p] = [m.pw[p][0], vals[0][1]]
        elif op[0] == "dense":
            check_dense(n, m, op, step, ctx)
        else:
            f = bad(n, m, op[1])
            if f is None:
                continue
            ctx.label("bad:" + op[1])
            before = capture(n)
            try:
                f()
            except Exception:
                pass
            else:
                raise Violation(f"{step}: invalid setting ({op[1]}) was accepted")
            after = capture(n)
            for k in before:
                if not before[k].equals(after[k]):
                    raise Violation(f"{step}: rejected setting ({op[1]}) changed {k}: {before[k]} -> {after[k]}")
        verify(n, m, step)
    ctx.nontrivial(changes >= 1 and len(m.series) >= 1)


def m_seen(spec, j):
    """Periods named by earlier operations."""
    out = set()
    for op in spec["ops"][:j]:
        if op[0] == "periods":
            out |= set(op[1])
        if op[0] == "set" and op[1]["kind"] == "multi":
            out |= {x[0] for x in op[1]["labels"]}
    if spec["start"]["kind"] == "multi":
        out |= {x[0] for x in spec["start"]["labels"]}
    return out


TESTS = [
    Test("history", specs, run, 900, 30000,
         "at least one change of snapshots, periods or weightings and at least one time series at the end; all tables compared with the model after every operation"),
]
