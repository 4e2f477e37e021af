"""C21: PTDF, BODF and contingency power flow."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import net, pfgen, refpf
from harness.core import Test, Violation
from harness.gen import D
from checks.c18 import near

OPT = pfgen.PO(buses=(2, 7), extra=(0, 6), par=25, split=15, storage=False, inactive=8, q=False, periods=8, dc=25)


@st.composite
def specs(draw):
    d = D(draw)
    spec = pfgen.gen_pf(d, OPT)
    spec["form"] = d.pick(["tuples", "tuples", "names", "all", "default", "index"])
    spec["snap"] = d.pick(["one", "one", "none", "list"])
    spec["sel"] = d.int(0, 3)
    spec["inj"] = [pfgen.fine(d, -10, 10) for _ in range(7)]
    return spec


def bridges(P):
    base = len(P.islands())
    return {c.key for c in P.active_branches if len(P.islands([x for x in P.active_branches if x is not c])) > base}


def run(spec, ctx):
    P = refpf.P(spec)
    n = net.build(spec)
    T = P.T
    act = {c.key: c for c in P.active_branches}
    br = bridges(P)
    # --- PTDF and BODF of every sub-network
    n.determine_network_topology()
    n.calculate_dependent_values()
    for sub in n.sub_networks.obj:
        rows = [tuple(x) for x in sub.branches_i(active_only=True)]
        if not rows:
            continue
        sub.calculate_PTDF()
        cols = list(sub.buses_o)
        H = np.asarray(sub.PTDF)
        if H.shape != (len(rows), len(cols)):
            raise Violation(f"PTDF of shape {H.shape} for {len(rows)} branches and {len(cols)} buses")
        inj = dict(zip(cols, spec["inj"]))
        inj[cols[0]] = -sum(inj[b] for b in cols[1:])
        plain = noshift(P)
        th, flow = plain.lpf(cols, inj, cols[0])
        got = H @ np.array([inj[b] for b in cols])
        for k, f in zip(rows, got):
            near(f, flow[k], 1e-6 * (1 + abs(flow[k])) + 1e-5, f"PTDF times injections on {k}")
        sub.calculate_BODF()
        B = np.asarray(sub.BODF)
        if B.shape != (len(rows), len(rows)):
            raise Violation(f"BODF of shape {B.shape} for {len(rows)} branches")
        th, base = P.lpf(cols, inj, cols[0])
        for j, l in enumerate(rows):
            near(B[j, j], -1.0, 1e-12, f"BODF diagonal of {l}")
            if l in br:
                continue
            rest = [x for x in P.active_branches if x.key != l]
            _, after = P.lpf(cols, inj, cols[0], rest)
            big = max(abs(v) for v in base.values()) + 1
            for i, k in enumerate(rows):
                if k != l:
                    near(base[k] + B[i, j] * base[l], after[k], 1e-5 * big, f"BODF prediction for {k} after the outage of {l}")
            ctx.label("bodf")
    # --- contingency power flow
    n = net.build(spec)
    i = {"one": min(spec["sel"], T - 1), "none": 0, "list": 0}[spec["snap"]]
    t = n.snapshots[i]
    outs = [k for k in act if k not in br]
    kw = {}
    if spec["form"] == "all":
        outs = list(act)
    if spec["form"] == "default":
        if len(P.active_branches) < len(P.branches) or not P.branches:
            outs = None
        else:
            outs = list(act)
    elif spec["form"] == "names":
        outs = [k for k in outs if k[0] == "Line"]
        kw["branch_outages"] = [k[1] for k in outs]
    elif spec["form"] == "index" and outs:
        kw["branch_outages"] = pd.MultiIndex.from_tuples(outs)
    else:
        kw["branch_outages"] = list(outs)
    if outs is None or not P.branches:
        return
    if spec["snap"] == "one":
        res = n.lpf_contingency(t, **kw)
    elif spec["snap"] == "none":
        res = n.lpf_contingency(**kw)
    else:
        res = n.lpf_contingency(list(n.snapshots), **kw)
    ctx.label("form:" + spec["form"], "snap:" + spec["snap"])
    inj = P.set_injection(i)
    for b in inj:
        inj[b] -= P.shunt(b).real
    big = sum(abs(v) for v in inj.values()) + 1
    slack = {frozenset(bs): n.sub_networks.at[n.buses.at[bs[0], "sub_network"], "slack_bus"] for bs in P.islands()}
    base = {}
    for bs in P.islands():
        base.update(P.lpf(bs, inj, slack[frozenset(bs)])[1])
    tolb = 1e-5 * big + 1e-5 * max([abs(v) for v in base.values()] + [0])

    def column(name, want, skip=()):
        cols = [c for c in res.columns if c == name]
        if len(cols) != 1:
            raise Violation(f"contingency result has columns {list(res.columns)}, expected one for {name}")
        for k in act:
            if k not in skip:
                near(float(res.loc[k, [name]].iloc[0]), want[k], tolb, f"contingency flow on {k} in case {name} at {t}")

    column("base", base)
    for l in outs:
        if l in br:
            continue
        c = act[l]
        bs = [x for x in P.islands() if c.get("bus0") in x][0]
        rest = [x for x in P.active_branches if x.key != l]
        after = dict(base)
        after.update(P.lpf(bs, inj, slack[frozenset(bs)], rest)[1])
        after[l] = 0.0
        column(l, after)
        ctx.nontrivial(abs(base[l]) > 1e-3)
    ctx.label("bridges" if br else "no-bridge", f"islands:{min(len(P.islands()), 3)}")


def noshift(P):
    """The same network without phase shifts."""
    Q = refpf.P(P.spec)
    orig = Q.phys
    Q.phys = lambda c: {**orig(c), "phase_shift": 0.0}
    return Q


TESTS = [
    Test("factors", specs, run, 200, 15000,
         "random meshed AC/DC networks with parallel branches, transformers, several islands and inactive branches; PTDF, BODF and the contingency power flow in all call forms against recomputed flows branch by branch and outage by outage; non-trivial: an outage of a loaded non-bridge branch is compared"),
]
