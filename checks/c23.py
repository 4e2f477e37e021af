"""C23: histories of add, remove, overwrite and edit against a dictionary model."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import attrs as A
from harness.core import Test, Violation
from harness.gen import D

CLS = ["Bus", "Carrier", "Generator", "Load", "StorageUnit", "Store", "Line", "Transformer", "Link", "ShuntImpedance", "GlobalConstraint", "LineType", "TransformerType"]
POOL = ["a", "b 1", "10", "9", "Z", "é", "x.y"]
STR = ["", "a", "x", "b 1", "AC"]
CUSTOM = {"note": "str", "rating": "float", "bus_note": "str"}
PORTS = {"bus2": "str", "efficiency2": "float", "bus3": "str", "efficiency3": "float"}


def value(d, kind):
    if kind == "float":
        return d.pick([None, "inf"]) if d.p(6) else d.q(-4, 9)
    if kind == "int":
        return d.int(0, 2050)
    if kind == "bool":
        return d.pick([True, False])
    return d.pick(STR)


def gen_kw(d, cls, k, single, T):
    """{attr: [form, data]} with data laid out per component (or per snapshot and component)."""
    kw = {}
    info = A.CLASSES[cls]["attrs"]
    names = list(info)
    for _ in range(d.int(0, 5)):
        if d.p(22):
            a = d.pick(sorted(CUSTOM))
            kind, varying, static = CUSTOM[a], False, True
            if a == "rating" and d.p(30):
                a, varying, static = "profile", True, False
        elif cls == "Link" and d.p(35):
            a = d.pick(sorted(PORTS))
            kind, varying, static = PORTS[a], a.startswith("eff"), True
        else:
            a = d.pick(names)
            if d.p(45):
                vs = [x for x in names if info[x]["varying"]]
                if vs:
                    a = d.pick(vs)
            kind, varying, static = info[a]["kind"], info[a]["varying"], info[a]["static"]
        if kind == "geometry" or a in kw:
            continue
        if varying and d.p(60) or not static and a == "profile":
            data = [[d.q(-4, 9) for _ in range(k)] for _ in range(T)]
            kw[a] = [d.pick(["list", "array", "series", "tuple_index"] if single else ["frame", "frame", "array"]), "t", data]
        elif single or d.p(40):
            kw[a] = [d.pick(["scalar", "scalar", "numpy"] if single or k == 1 else ["scalar", "list1", "numpy"]), "c", value(d, kind)]
        else:
            kw[a] = [d.pick(["list", "array", "series", "series_suffixed", "index"]), "v", [value(d, kind) for _ in range(k)]]
    if "efficiency2" in kw and "bus2" not in kw:
        kw["bus2"] = ["scalar", "c", "a"]
    if "efficiency3" in kw and "bus3" not in kw:
        kw["bus3"] = ["scalar", "c", ""]
    return kw


BAD = ["dup", "len", "len_t", "shape", "labels", "sns_labels", "frame_cols", "frame_rows", "dict", "class", "text", "remove_unknown", "mixed"]


@st.composite
def specs(draw):
    d = D(draw)
    T = d.int(1, 3)
    nets = 2 if d.p(25) else 1
    ops = []
    classes = [d.pick(CLS) for _ in range(d.int(1, 3))]
    if nets == 2 and d.p(50):
        classes.append("Link")
    for _ in range(d.int(2, 9)):
        net = d.int(0, nets - 1)
        cls = d.pick(classes)
        kind = d.pick(["add", "add", "add", "add", "remove", "edit", "edit_t", "bad"])
        if kind == "add":
            single = d.p(50)
            k = 1 if single else d.int(1, 4)
            names = draw(st.permutations(POOL))[:k]
            ops.append(["add", net, cls, {
                "names": names, "single": single, "suffix": d.pick(["", "", " s"]), "overwrite": d.p(40),
                "names_as": d.pick(["list", "index", "array"]), "kw": gen_kw(d, cls, k, single, T)}])
        elif kind == "remove":
            ops.append(["remove", net, cls, d.int(0, 99), d.int(1, 3), d.p(50), d.p(30)])
        elif kind == "edit":
            a = d.pick([x for x in A.CLASSES[cls]["attrs"] if A.CLASSES[cls]["attrs"][x]["static"]] or [""])
            ops.append(["edit", net, cls, d.int(0, 99), a, value(d, A.CLASSES[cls]["attrs"][a]["kind"]) if a else None])
        elif kind == "edit_t":
            a = d.pick([x for x in A.CLASSES[cls]["attrs"] if A.CLASSES[cls]["attrs"][x]["varying"]] or [""])
            ops.append(["edit_t", net, cls, d.int(0, 99), a, [d.q(-4, 9) for _ in range(T)]])
        else:
            ops.append(["bad", net, cls, d.pick(BAD), d.int(0, 99)])
    return {"T": T, "multi": d.p(20), "nets": nets, "std": d.p(15), "ops": ops}


class Model:
    def __init__(self):
        self.comp = {c: {} for c in CLS}  # cls -> name -> {"s": {attr: v}, "t": {attr: [..]}}
        self.custom = {c: {} for c in CLS}  # custom static attributes seen
        self.ports = set()

    def info(self, cls):
        return A.attrs_of(cls, sorted(self.ports))

    def add(self, cls, names, kw, overwrite):
        for a in kw:
            if cls == "Link" and a.startswith("bus") and a[3:].isdigit() and int(a[3:]) > 1:
                self.ports.add(int(a[3:]))
        for i, nm in enumerate(names):
            if nm in self.comp[cls] and not overwrite:
                continue
            e = {"s": {}, "t": {}}
            for a, (form, lay, data) in kw.items():
                if lay == "t":
                    e["t"][a] = [row[i] for row in data]
                else:
                    v = data if lay == "c" else data[i]
                    if v == "inf":
                        v = float("inf")
                    e["s"][a] = v
            self.comp[cls][nm] = e
        for a, (form, lay, data) in kw.items():
            if a not in self.info(cls):
                self.custom[cls].setdefault(a, lay)


def real_value(v):
    return float("inf") if v == "inf" else (np.nan if v is None else v)


def arg(form, lay, data, names, suffix, sns, single, kind):
    if lay == "t":
        arr = np.array(data, dtype=float)
        if single:
            col = arr[:, 0]
            if form == "list":
                return list(col)
            if form == "array":
                return col
            if form == "series":
                return pd.Series(col, index=sns)
            return pd.Index(col)
        if form == "array":
            return arr
        return pd.DataFrame(arr, index=sns, columns=names)
    if lay == "c":
        v = real_value(data)
        if form == "list1":
            return [v]
        if form == "numpy" and not isinstance(v, str):
            return np.array([v])[0]
        return v
    vals = [real_value(v) for v in data]
    if form == "list":
        return vals
    if form == "array":
        return np.array(vals) if kind != "str" else np.array(vals, dtype=object)
    if form == "index":
        return pd.Index(vals)
    if form == "series":
        return pd.Series(vals, index=names)
    return pd.Series(vals, index=[str(x) + suffix for x in names])


def capture(n):
    out = {}
    for c in CLS:
        out[c] = n.static(c).copy()
        for k, v in n.dynamic(c).items():
            out[c, k] = v.copy()
    out["sns"] = n.snapshots
    return out


def unchanged(before, n, what):
    after = capture(n)
    for k in before.keys() | after.keys():
        if k not in after or k not in before:
            if k in after and isinstance(k, tuple) and after[k].empty:
                continue
            raise Violation(f"rejected operation ({what}) changed the tables: {k}")
        a, b = before[k], after[k]
        if isinstance(a, pd.DataFrame):
            extra = [x for x in b.columns if x not in a.columns]
            b2 = b[[x for x in b.columns if x in a.columns]]
            if list(a.index) != list(b.index) or list(a.columns) != list(b2.columns) or not a.equals(b2) or (extra and (not isinstance(k, str) or any(not x.startswith(("bus", "efficiency")) for x in extra))):
                raise Violation(f"rejected operation ({what}) changed table {k}: {a.to_dict()} -> {b.to_dict()}")
        elif not a.equals(b):
            raise Violation(f"rejected operation ({what}) changed {k}")


def kinds(cls, m):
    out = {a: i["kind"] for a, i in m.info(cls).items()}
    out.update(CUSTOM)
    return out


def verify(n, m, std, step):
    sns = n.snapshots
    for cls in CLS:
        df = n.static(cls)
        want = m.comp[cls]
        got = list(df.index)
        if len(set(got)) != len(got):
            raise Violation(f"{step}: {cls} table has duplicate names {got}")
        mine = {x for x in got if x not in std.get(cls, ())}
        if mine != set(want):
            raise Violation(f"{step}: {cls} table has {sorted(mine)}, expected {sorted(want)}")
        if std.get(cls) and not set(std[cls]) <= set(got):
            raise Violation(f"{step}: standard types vanished from {cls}")
        if not all(isinstance(x, str) for x in got):
            raise Violation(f"{step}: names of {cls} are not strings: {got}")
        info = m.info(cls)
        for a, i in info.items():
            if not i["static"] or i["kind"] == "geometry":
                continue
            if a not in df.columns:
                if a in A.CLASSES[cls]["attrs"] or want:
                    raise Violation(f"{step}: {cls} table has no column {a}")
                continue
            if want and not A.DTYPES[i["kind"]](df[a].dtype):
                raise Violation(f"{step}: {cls}.{a} has type {df[a].dtype}, documented {i['kind']}")
            for nm, e in want.items():
                v = e["s"].get(a)
                exp = A.default(i) if v is None or A.missing(v) else v
                if not A.same(df.at[nm, a], exp):
                    raise Violation(f"{step}: {cls} {nm} {a} = {df.at[nm, a]!r}, expected {exp!r}")
        for a, lay in m.custom[cls].items():
            if lay == "t":
                continue
            for nm, e in want.items():
                v = e["s"].get(a)
                if a not in df.columns:
                    if A.missing(v):
                        continue
                    raise Violation(f"{step}: custom attribute {a} of {cls} {nm} is lost")
                g = df.at[nm, a]
                if v is None and (A.missing(g) or g == "" or g == 0):
                    continue
                if not A.same(g, v):
                    raise Violation(f"{step}: {cls} {nm} custom {a} = {g!r}, expected {v!r}")
        known = set(info) | set(m.custom[cls])
        extra = [c for c in df.columns if c not in known and not (cls == "Link" and c in PORTS)]
        if extra:
            raise Violation(f"{step}: {cls} table has unexpected columns {extra}")
        dyn = n.dynamic(cls)
        for a, i in info.items():
            if i["varying"] and a not in dyn:
                raise Violation(f"{step}: {cls} has no series table {a}")
        for a, t in dyn.items():
            if not t.index.equals(sns):
                raise Violation(f"{step}: {cls} series {a} indexed {list(t.index)}, snapshots {list(sns)}")
            cols = list(t.columns)
            if len(set(cols)) != len(cols):
                raise Violation(f"{step}: {cls} series {a} has duplicate columns {cols}")
            left = [c for c in cols if c not in want]
            if left:
                raise Violation(f"{step}: {cls} series {a} has columns of components that do not exist: {left}")
            for nm, e in want.items():
                exp = e["t"].get(a)
                i = info.get(a)
                if exp is None and i is not None and not i["static"]:
                    v = e["s"].get(a)
                    exp = [A.default(i) if A.missing(v) else v] * len(sns)
                    if nm not in cols and v is not None:
                        raise Violation(f"{step}: {cls} {nm}: value of {a} is lost")
                    if nm not in cols:
                        continue
                if exp is None:
                    if nm in cols and not t[nm].isna().all():
                        raise Violation(f"{step}: {cls} {nm} has a series {a} {list(t[nm])}, none was given")
                    if nm in cols and i is not None:
                        raise Violation(f"{step}: {cls} {nm} has an empty series {a}, none was given")
                    continue
                if nm not in cols:
                    raise Violation(f"{step}: {cls} {nm}: series {a} is lost")
                if not all(A.same(x, y) for x, y in zip(t[nm], exp)):
                    raise Violation(f"{step}: {cls} {nm} series {a} = {list(t[nm])}, expected {exp}")
        for nm, e in want.items():
            for a in e["t"]:
                if a not in dyn:
                    raise Violation(f"{step}: {cls} {nm}: series {a} is lost")


def bad_op(n, m, cls, kind, r, T):
    sns = n.snapshots
    info = A.CLASSES[cls]["attrs"]
    stat = [a for a in info if info[a]["static"] and info[a]["kind"] == "float"]
    vary = [a for a in info if info[a]["varying"]]
    exist = sorted(m.comp[cls])
    fresh = ["new 1", "new 2"]
    a = stat[r % len(stat)] if stat else "rating"
    v = vary[r % len(vary)] if vary else None
    ow = bool(r % 2)
    if kind == "dup":
        names = ["new 1", "new 2", "new 1"] if r % 3 else (exist[:1] or ["q"]) * 2
        return lambda: n.add(cls, names, overwrite=ow)
    if kind == "len":
        return lambda: n.add(cls, fresh, **{a: [1.0, 2.0, 3.0]}, overwrite=ow)
    if kind == "len_t":
        return lambda: n.add(cls, "new 1", **{v or a: [1.0] * (T + 1)}) if T else None
    if kind == "shape":
        return lambda: n.add(cls, fresh, **{v or a: np.ones((T + 1, 2))})
    if kind == "labels":
        return lambda: n.add(cls, fresh, **{a: pd.Series([1.0, 2.0], index=["other", "new 2"])})
    if kind == "sns_labels":
        return lambda: n.add(cls, "new 1", **{v or a: pd.Series(1.0, index=range(77, 77 + T))})
    if kind == "frame_cols":
        return lambda: n.add(cls, fresh, **{v or a: pd.DataFrame(1.0, index=sns, columns=["new 1", "zz"])})
    if kind == "frame_rows":
        return lambda: n.add(cls, fresh, **{v or a: pd.DataFrame(1.0, index=range(77, 77 + T), columns=fresh)})
    if kind == "dict":
        return lambda: n.add(cls, fresh, **{(a if stat else "rating"): {"new 1": 1.0, "new 2": 2.0}})
    if kind == "class":
        return lambda: n.add("Generater", "new 1")
    if kind == "text":
        return lambda: n.add(cls, (exist[:1] + fresh) if ow else fresh, **{a: "abc"}, overwrite=ow) if stat else 1 / 0
    if kind == "remove_unknown":
        return lambda: n.remove(cls, exist[:2] + ["never there"])
    kw = {a: 1.0, "rating": [1.0, 2.0, 3.0]}
    return lambda: n.add(cls, fresh, **kw)


def run(spec, ctx):
    import pypsa

    T = spec["T"]
    nets, models, stds = [], [], []
    A.reset_link_ports()
    for _ in range(spec["nets"]):
        n = pypsa.Network(ignore_standard_types=not spec["std"])
        if spec["multi"]:
            n.set_snapshots(pd.MultiIndex.from_product([[2020], range(T)]))
            n.set_investment_periods([2020])
        else:
            n.set_snapshots(range(T))
        nets.append(n)
        models.append(Model())
        stds.append({c: set(n.static(c).index) for c in ("LineType", "TransformerType")})
    effects = 0
    for j, op in enumerate(spec["ops"]):
        n, m, cls = nets[op[1]], models[op[1]], op[2]
        step = f"step {j} ({op[0]} {cls})"
        ctx.label("op:" + op[0], "class:" + cls)
        if op[0] == "add":
            o = op[3]
            final = [x + o["suffix"] for x in o["names"]]
            k = kinds(cls, m)
            kw = {a: arg(f, lay, data, o["names"], o["suffix"], n.snapshots, o["single"], k.get(a, "float")) for a, (f, lay, data) in o["kw"].items()}
            names = o["names"][0] if o["single"] else o["names"]
            if not o["single"] and o["names_as"] != "list":
                names = pd.Index(names) if o["names_as"] == "index" else np.array(names)
            if any(x in m.comp[cls] for x in final):
                ctx.label("add-existing:" + ("overwrite" if o["overwrite"] else "skip"))
            new = n.add(cls, names, suffix=o["suffix"], overwrite=o["overwrite"], **kw)
            if list(new) != final:
                raise Violation(f"{step}: add returned {list(new)}, expected {final}")
            m.add(cls, final, o["kw"], o["overwrite"])
            effects += 1
        elif op[0] == "remove":
            exist = sorted(m.comp[cls])
            if not exist:
                continue
            i = op[3] % len(exist)
            names = exist[i:i + op[4]]
            if op[5] and len(names) == 1 and not op[6]:
                n.remove(cls, names[0])
            elif op[6]:  # with suffix: only names ending with the suffix can be given
                tail = names[0][-1]
                names = [x for x in names if x[-1] == tail]
                n.remove(cls, [x[:-1] for x in names], suffix=tail)
            else:
                n.remove(cls, names)
            for x in names:
                del m.comp[cls][x]
            effects += 1
        elif op[0] == "edit":
            exist = sorted(m.comp[cls])
            a = op[4]
            if not exist or not a or op[5] is None:
                continue
            nm = exist[op[3] % len(exist)]
            v = real_value(op[5])
            n.static(cls).loc[nm, a] = v
            m.comp[cls][nm]["s"][a] = v
            effects += 1
        elif op[0] == "edit_t":
            exist = sorted(m.comp[cls])
            a = op[4]
            if not exist or not a:
                continue
            nm = exist[op[3] % len(exist)]
            n.dynamic(cls)[a][nm] = op[5]
            m.comp[cls][nm]["t"][a] = op[5]
            effects += 1
        else:
            before = capture(n)
            f = bad_op(n, m, cls, op[3], op[4], T)
            ctx.label("bad:" + op[3])
            try:
                f()
            except Exception:
                pass
            else:
                raise Violation(f"{step}: invalid operation ({op[3]}) was accepted")
            unchanged(before, n, op[3])
        for q in range(spec["nets"]):
            verify(nets[q], models[q], stds[q], step)
    ctx.nontrivial(effects >= 2)


TESTS = [
    Test("history", specs, run, 640, 12000,
         "at least two operations that changed a network; every table compared with the model after every operation"),
]
