"""C22: topology, cycles, incidence and adjacency."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from harness import net, pfgen
from harness.core import Test, Violation
from harness.gen import D, NAMES

OPT = pfgen.PO(buses=(1, 8), links=(0, 3), types=10, periods=0, T=(1, 1), dc=25, extra=(0, 7), par=35, inactive=15, storage=False, shunts=(0, 0))
PERIODS = [2020, 2030, 2040]


@st.composite
def specs(draw):
    d = D(draw)
    spec = pfgen.gen_pf(d, OPT)
    spec["periods"] = PERIODS if d.p(50) else None
    buses = [c[1] for c in spec["comps"] if c[0] == "Bus"]
    for c in spec["comps"]:
        if c[0] in ("Line", "Transformer", "Link") and spec["periods"]:
            if d.p(70):
                c[2]["build_year"] = d.pick([0, 2020, 2025, 2030, 2040])
                c[2]["lifetime"] = d.pick([5.0, 10.0, 11.0, 20.0, "inf"])
        if c[0] == "Line" and "type" not in c[2] and d.p(3):
            c[2]["x"] = "inf"
        for k, v in c[2].items():
            if isinstance(v, list):
                c[2][k] = v[0]
    edits = []
    for _ in range(d.int(0, 4)):
        kind = d.pick(["add_line", "add_bus", "remove", "toggle", "remove_bus", "move"])
        edits.append([kind, d.int(0, 99), d.int(0, 99), d.pick(NAMES)])
    spec["edits"] = edits
    spec["skip"] = d.p(20)
    spec["perm"] = d.draw(st.permutations(range(len(buses))))
    return spec


class Model:
    def __init__(self, spec):
        self.bus = {c[1]: c[2].get("carrier", "AC") for c in spec["comps"] if c[0] == "Bus"}
        self.br = {(c[0], c[1]): dict(c[2]) for c in spec["comps"] if c[0] in ("Line", "Transformer", "Link")}

    def active(self, key, period):
        a = self.br[key]
        if not a.get("active", True):
            return False
        if period is None:
            return True
        by, lt = a.get("build_year", 0), a.get("lifetime", "inf")
        lt = float("inf") if lt == "inf" else lt
        return by <= period < by + lt

    def passive(self, period, act=True):
        return [k for k in self.br if k[0] != "Link" and (not act or self.active(k, period))]


def find_components(buses, pairs):
    comp = {b: {b} for b in buses}
    for a, b in pairs:
        if comp[a] is not comp[b]:
            comp[a] |= comp[b]
            for x in comp[b]:
                comp[x] = comp[a]
    return {frozenset(s) for s in comp.values()}


def check_topology(n, m, period, skip):
    act = m.passive(period)
    want = find_components(m.bus, [(m.br[k]["bus0"], m.br[k]["bus1"]) for k in act])
    where = {b: str(n.buses.at[b, "sub_network"]) for b in m.bus}
    groups = {}
    for b, s in where.items():
        groups.setdefault(s, set()).add(b)
    got = {frozenset(v) for v in groups.values()}
    if got != want:
        raise Violation(f"sub-networks {sorted(map(sorted, got))}, connected components {sorted(map(sorted, want))} (period {period})")
    listed = set(map(str, n.sub_networks.index))
    expected = {s for s, v in groups.items() if not (skip and len(v) == 1)}
    if listed != expected or len(n.sub_networks) != len(expected):
        raise Violation(f"sub-networks listed {sorted(listed)}, expected {sorted(expected)}")
    for key, a in m.br.items():
        if key[0] == "Link":
            continue
        s = n.static(key[0]).at[key[1], "sub_network"]
        if period is not None and not m.active(key, period):
            if isinstance(s, str) and s != "":
                raise Violation(f"{key} is not active in {period} but belongs to sub-network {s!r}")
        elif s != where[a["bus0"]]:
            raise Violation(f"{key} belongs to sub-network {s!r}, its bus {a['bus0']!r} to {where[a['bus0']]!r}")
    for name, sub in n.sub_networks.obj.items():
        name = str(name)
        if set(sub.buses_i()) != groups[name] or set(sub.buses().index) != groups[name]:
            raise Violation(f"sub-network {name} has buses {sorted(sub.buses_i())}, expected {sorted(groups[name])}")
        if sub.n is not n or sub.name != name:
            raise Violation("sub-network object of another network or name")
        cars = {m.bus[b] for b in groups[name]}
        if n.sub_networks.at[name, "carrier"] not in cars:
            raise Violation(f"sub-network {name}: carrier {n.sub_networks.at[name, 'carrier']!r}, buses have {cars}")
        check_sub(n, sub, m, groups[name], period)
    return want


def check_sub(n, sub, m, buses, period):
    mine = [k for k in m.passive(period, act=False) if m.br[k]["bus0"] in buses and (period is None or m.active(k, period))]
    idx = [tuple(x) for x in sub.branches().index]
    if Counter(idx) != Counter(mine):
        raise Violation(f"branches {sorted(idx)} in sub-network of {sorted(buses)}, expected {sorted(mine)}")
    if Counter(tuple(x) for x in sub.branches_i()) != Counter(mine):
        raise Violation("branches_i differ from branches")
    act = [k for k in mine if m.active(k, period)]
    if Counter(tuple(x) for x in sub.branches_i(active_only=True)) != Counter(act):
        raise Violation(f"active branches {sorted(map(tuple, sub.branches_i(active_only=True)))}, expected {sorted(act)}")
    # cycles: x infinite is left out of the cycles
    usable = [k for k in act if m.br[k].get("x") != "inf"]
    inc = np.zeros((len(buses), len(idx)))
    pos = {b: i for i, b in enumerate(sorted(buses))}
    for j, k in enumerate(idx):
        if k not in usable:  # an inactive branch may lead out of the sub-network
            continue
        inc[pos[m.br[k]["bus0"]], j] += 1
        inc[pos[m.br[k]["bus1"]], j] -= 1
    Cm = np.asarray(sub.C.todense())
    if Cm.shape[0] != len(idx):
        raise Violation(f"cycle matrix has {Cm.shape[0]} rows for {len(idx)} branches")
    if Cm.size:
        if not set(np.unique(Cm)) <= {-1.0, 0.0, 1.0}:
            raise Violation(f"cycle matrix has entries {np.unique(Cm)}")
        if np.abs(inc @ Cm).max() > 0:
            raise Violation(f"a listed cycle is not closed: {Cm.tolist()} for branches {idx}")
        for j, k in enumerate(idx):
            if k not in usable and np.any(Cm[j]):
                raise Violation(f"inactive or infinite branch {k} is part of a cycle")
    dim = len(usable) - len(buses) + len(find_components(buses, [(m.br[k]["bus0"], m.br[k]["bus1"]) for k in usable]))
    rank = np.linalg.matrix_rank(Cm) if Cm.size else 0
    if Cm.shape[1] != dim or rank != dim:
        raise Violation(f"{Cm.shape[1]} cycles of rank {rank}, the cycle space has dimension {dim} (branches {usable})")
    # incidence of the sub-network
    if act and period is None:
        order = list(sub.buses_i())
        K = np.asarray(sub.incidence_matrix().todense())
        aidx = [tuple(x) for x in sub.branches_i(active_only=True)]
        check_incidence(K, order, aidx, m)
        order = order[::-1]
        import pandas as pd

        check_incidence(np.asarray(sub.incidence_matrix(busorder=pd.Index(order)).todense()), order, aidx, m)
        A = np.asarray(sub.adjacency_matrix().todense())
        check_adjacency(A, list(sub.buses_i()), aidx, m)
    g = sub.graph(include_inactive=False)
    if period is None and Counter(k[2] for k in g.edges(keys=True)) != Counter(act):
        raise Violation(f"graph edges {sorted(k[2] for k in g.edges(keys=True))}, expected {sorted(act)}")
    if set(g.nodes) != set(buses):
        raise Violation("graph nodes differ from the buses")


def check_incidence(K, order, keys, m):
    want = np.zeros((len(order), len(keys)))
    for j, k in enumerate(keys):
        want[order.index(m.br[k]["bus0"]), j] += 1
        want[order.index(m.br[k]["bus1"]), j] -= 1
    if K.shape != want.shape or not np.array_equal(K, want):
        raise Violation(f"incidence matrix {K.tolist()} for buses {order} and branches {keys}")


def check_adjacency(A, order, keys, m, w=None):
    want = np.zeros((len(order), len(order)))
    for k in keys:
        want[order.index(m.br[k]["bus0"]), order.index(m.br[k]["bus1"])] += 1 if w is None else w[k]
    if A.shape != want.shape or not np.allclose(A, want):
        raise Violation(f"adjacency matrix {A.tolist()}, expected {want.tolist()} for buses {order}")


def check_network(n, m, spec):
    import pandas as pd

    keys = [k for k in m.br if m.active(k, None)]
    order = list(n.buses.index)
    if m.br:
        K = np.asarray(n.incidence_matrix().todense())
        got = Counter(tuple(K[:, j]) for j in range(K.shape[1]))
        want = Counter()
        for k in keys:
            col = [0.0] * len(order)
            col[order.index(m.br[k]["bus0"])] += 1
            col[order.index(m.br[k]["bus1"])] -= 1
            want[tuple(col)] += 1
        if got != want or K.shape[0] != len(order):
            raise Violation(f"incidence columns {got}, expected {want}")
        check_adjacency(np.asarray(n.adjacency_matrix().todense()), order, keys, m)
        perm = [order[i] for i in spec["perm"] if i < len(order)]
        if sorted(perm) == sorted(order):
            check_adjacency(np.asarray(n.adjacency_matrix(busorder=pd.Index(perm)).todense()), perm, keys, m)
        links = [k for k in keys if k[0] == "Link"]
        check_adjacency(np.asarray(n.adjacency_matrix(branch_components=["Link"]).todense()), order, links, m)
        w = {k: 1.0 + i for i, k in enumerate(m.br)}
        ser = pd.Series({k: v for k, v in w.items()})
        ser.index = pd.MultiIndex.from_tuples(ser.index)
        check_adjacency(np.asarray(n.adjacency_matrix(weights=ser).todense()), order, keys, m, w)
        if spec["periods"]:
            p = spec["periods"][1]
            pk = [k for k in m.br if m.active(k, p)]
            check_adjacency(np.asarray(n.adjacency_matrix(investment_period=p).todense()), order, pk, m)
    g = n.graph()
    if Counter((u, v, k) for u, v, k in undirected(g)) != Counter((*sorted((a["bus0"], a["bus1"])), k) for k, a in m.br.items()):
        raise Violation("graph of the network has other edges than its branches")
    if set(g.nodes) != set(m.bus):
        raise Violation("graph nodes differ from the buses")
    nb = {k for k in m.br}
    if {tuple(x) for x in n.branches().index} != nb or {tuple(x) for x in n.passive_branches().index} != {k for k in nb if k[0] != "Link"}:
        raise Violation("branches() lists other branches than the network has")


def undirected(g):
    for u, v, k in g.edges(keys=True):
        yield (*sorted((u, v)), k)


def edit(n, m, e):
    kind, i, j, nm = e
    buses = list(m.bus)
    keys = list(m.br)
    if kind == "add_line" and len(buses) > 1:
        b0 = buses[i % len(buses)]
        same = [b for b in buses if b != b0 and m.bus[b] == m.bus[b0]]
        name = "new" + nm
        if same and ("Line", name) not in m.br:
            a = {"bus0": b0, "bus1": same[j % len(same)], "x": 0.1, "r": 0.01}
            n.add("Line", name, **a)
            m.br["Line", name] = a
    elif kind == "add_bus":
        name = "new" + nm
        if name not in m.bus:
            n.add("Bus", name)
            m.bus[name] = "AC"
    elif kind == "remove" and keys:
        k = keys[i % len(keys)]
        n.remove(*k)
        del m.br[k]
    elif kind == "toggle" and keys:
        k = keys[i % len(keys)]
        v = not m.br[k].get("active", True)
        n.static(k[0]).loc[k[1], "active"] = v
        m.br[k]["active"] = v
    elif kind == "remove_bus" and len(buses) > 1:
        b = buses[i % len(buses)]
        if not any(b in (a["bus0"], a["bus1"]) or b == a.get("bus2") for a in m.br.values()):
            for c in n.iterate_components(n.one_port_components):
                for x in list(c.static.index[c.static.bus == b]):
                    n.remove(c.name, x)
            n.remove("Bus", b)
            del m.bus[b]
    elif kind == "move" and keys and len(buses) > 1:
        k = keys[i % len(keys)]
        same = [b for b in buses if b != m.br[k]["bus0"] and m.bus[b] == m.bus[m.br[k]["bus0"]]]
        if same:
            b = same[j % len(same)]
            n.static(k[0]).loc[k[1], "bus1"] = b
            m.br[k]["bus1"] = b


def run(spec, ctx):
    n = net.build(spec)
    m = Model(spec)
    n.calculate_dependent_values()  # per-unit reactances: infinite ones take no part in cycles
    n.determine_network_topology(skip_isolated_buses=spec["skip"])
    want = check_topology(n, m, None, spec["skip"])
    check_network(n, m, spec)
    for p in spec["periods"] or []:
        n.determine_network_topology(investment_period=p)
        check_topology(n, m, p, False)
        ctx.label("period")
    for e in spec["edits"]:
        edit(n, m, e)
        ctx.label("edit:" + e[0])
    if spec["edits"]:
        n.calculate_dependent_values()
        n.determine_network_topology()
        check_topology(n, m, None, False)
        check_network(n, m, spec)
    mesh = len(m.passive(None)) - len(m.bus) + len(want)
    ctx.label("islands" if len(want) > 1 else "connected")
    ctx.nontrivial(len(m.passive(None)) >= 2 and (len(want) > 1 or mesh > 0))


TESTS = [
    Test("topology", specs, run, 300, 20000,
         "random multigraphs of lines, transformers and links with inactive branches, build years and edits, against set-merging components, ranks of the cycle space and matrices assembled from the data; non-trivial: at least two active passive branches and several islands or a cycle"),
]
