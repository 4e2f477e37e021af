"""C14: snapshot subsets and rolling horizon."""
import numpy as np
from hypothesis import strategies as st

from harness import gen, net, refopt, solcheck
from harness.core import Test, Violation
from checks.common import label_spec

SUB = gen.O(buses=(1, 2), T=(3, 6), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 2), ext=20, mod=0, inactive=8, series=50, gens=(1, 2), loads=(1, 2), esum=10,
            weights=50)
SUBM = gen.O(buses=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 1), ext=20, mod=0, periods=100, inactive=5, series=50, gens=(1, 2), loads=(1, 2))
ROLL = gen.O(buses=(1, 2), T=(4, 9), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 1), ext=10, mod=0, inactive=6, series=55, gens=(1, 2), loads=(1, 2),
             ramp=40, com=45, shed=97, dump=80, neg_sign=4)
ROLLS = gen.O(buses=(1, 2), T=(4, 9), storage=(0, 2), stores=(0, 2), links=(0, 1), lines=(0, 1), ext=10, mod=0, inactive=6, series=55, gens=(0, 1), loads=(1, 2),
              ramp=40, shed=97, dump=80)

OUT = {"Generator": ["p", "status", "start_up", "shut_down"], "Load": ["p"], "Link": ["p0", "p1", "p2", "p3", "status", "start_up", "shut_down"], "Line": ["p0", "p1"],
       "StorageUnit": ["p", "p_dispatch", "p_store", "state_of_charge", "spill"], "Store": ["p", "e"], "Bus": ["p", "marginal_price"], "Transformer": ["p0", "p1"]}


class Frozen:
    """Results of a network at one moment."""

    def __init__(self, n, model):
        self.snapshots = n.snapshots
        self._d = {c: {a: n.dynamic(c)[a].copy() for a in OUT[c] if a in n.dynamic(c)} for c in OUT}
        self._s = {c: n.static(c).copy() for c in refopt.NOM}
        self.ok = model.status == "ok"
        self.objective = getattr(n, "objective", None)
        self.objective_constant = getattr(n, "objective_constant", None)

    def dynamic(self, c):
        return self._d[c]

    def static(self, c):
        return self._s[c]


def tables(n):
    return {(c, a): n.dynamic(c)[a].copy() for c in OUT for a in OUT[c] if a in n.dynamic(c)}


@st.composite
def subsets(draw, opt):
    spec = draw(gen.networks(opt))
    d = gen.D(draw)
    T = spec["n"] * len(spec["periods"] or [0])
    runs = []
    for _ in range(d.int(1, 3)):
        if d.p(70):
            a = d.int(0, T - 1)
            b = d.int(a + 1, T)
            runs.append(list(range(a, b)))
        else:
            runs.append([t for t in range(T) if d.p(50)] or [T - 1])
    spec["runs"] = runs
    return spec


def run_subsets(spec, ctx):
    label_spec(spec, ctx)
    n = net.build(spec)
    T = len(n.snapshots)
    nt = 0
    for sns in spec["runs"]:
        if len(sns) == 0 or sns[-1] >= T:
            return
        before = tables(n)
        kw = {"multi_investment_periods": True} if spec.get("periods") else {}
        out = solcheck.compare(spec, ctx, sns=sns, n=n, kw=kw)
        rest = [t for t in range(T) if t not in sns]
        if out is None:
            if getattr(n, "model", None) is None or n.model.status != "ok":
                return
            continue
        nt += bool(rest) and abs(out[3]) > 1e-6
        for (c, a), df in before.items():
            cur = n.dynamic(c)[a]
            if len(cur.index) != T:
                raise Violation(f"{c} {a} has {len(cur.index)} rows after optimising a subset")
            missing = [k for k in df.columns if k not in cur.columns]
            if missing:
                raise Violation(f"results {a} of {c} {missing} are lost by optimising a subset of snapshots")
            x, y = df.to_numpy(float)[rest], cur[list(df.columns)].to_numpy(float)[rest]
            bad = ~(np.isclose(x, y, rtol=1e-5, atol=1e-4) | (np.isnan(x) & np.isnan(y)))
            if bad.any():
                i, j = np.argwhere(bad)[0]
                raise Violation(f"{c} {df.columns[j]!r} {a} at snapshot {rest[i]}, which is not optimised, changes from {x[i, j]} to {y[i, j]}")
    ctx.nontrivial(nt)


@st.composite
def rolling(draw, opt):
    spec = draw(gen.networks(opt))
    d = gen.D(draw)
    T = spec["n"]
    com = any(a.get("committable") for _, _, a in spec["comps"])
    h = d.int(1, max(1, T - 1))
    spec["horizon"] = h
    spec["overlap"] = d.int(0, h - 1) if d.p(50) else 0
    spec["range"] = [0, T]
    if not com and d.p(25):
        a = d.int(0, T - 2)
        spec["range"] = [a, d.int(a + 2, T)]
    return spec


def streak(V, cls, c, t0):
    """(status, snapshots up, snapshots down) before snapshot t0 from the results."""
    s = [round(V(cls, "status", c.name, t)) for t in range(t0)]
    k = 0
    while k < t0 and s[-1 - k] == s[-1]:
        k += 1
    before = c.get("up_time_before" if s[-1] else "down_time_before")
    if k == t0:
        k += before
    return (1, k, 0) if s[-1] else (0, 0, k)


def run_rolling(spec, ctx):
    label_spec(spec, ctx)
    h, ov = spec["horizon"], spec["overlap"]
    T = spec["n"]
    lo, hi = spec["range"]
    n = net.build(spec)
    if refopt.build(spec).v == {}:
        return
    shots, wins = [], []

    def spy(nn, sns):
        if wins:
            shots.append(Frozen(nn, hold[0]))
        wins.append([nn.snapshots.get_loc(s) for s in sns])
        hold[0] = nn.model

    hold = [None]

    kw = {"solver_name": "highs", "solver_options": {"mip_rel_gap": 0.0, "mip_abs_gap": 1e-9, "threads": 1, "time_limit": 30.0, "output_flag": False}}
    args = {} if (lo, hi) == (0, T) else {"snapshots": n.snapshots[lo:hi]}
    try:
        n.optimize.optimize_with_rolling_horizon(horizon=h, overlap=ov, extra_functionality=spy, **args, **kw)
    except ValueError as e:
        if "nodal balance" in str(e) or "Objective function could not be created" in str(e):
            ctx.label("refused")
            return
        raise
    shots.append(Frozen(n, n.model))
    want = [list(range(s, min(hi, s + h))) for s in range(lo, hi, h - ov)]
    if wins != want:
        raise Violation(f"windows optimised: {wins}, documented for {hi - lo} snapshots, horizon {h} and overlap {ov}: {want}")
    ctx.label(f"windows:{min(len(want), 5)}", "overlap" if ov else "no-overlap")
    done = 0
    for k, (win, shot) in enumerate(zip(want, shots)):
        init = None
        if k:
            V = solcheck.View(shots[k - 1])
            t0 = win[0] - 1
            S = refopt.System(spec)
            init = {"soc": {}, "p": {}, "status": {}}
            for c in S.all("Store"):
                if c.get("active"):
                    init["soc"][("Store", c.name)] = V("Store", "e", c.name, t0)
            for c in S.all("StorageUnit"):
                if c.get("active"):
                    init["soc"][("StorageUnit", c.name)] = V("StorageUnit", "state_of_charge", c.name, t0)
            for cls, attr in (("Generator", "p"), ("Link", "p0")):
                for c in S.all(cls):
                    if c.get("active"):
                        init["p"][(cls, c.name)] = V(cls, attr, c.name, t0)
                        if c.get("committable") and not c.get("p_nom_extendable"):
                            init["status"][(cls, c.name)] = streak(V, cls, c, win[0])
        M = refopt.build(spec, sns=win, init=init)
        status, ref, _ = M.solve()
        if status == "unknown":
            ctx.label("ref:unknown")
            return
        if status != "optimal":
            if shot.ok and status == "infeasible" and not any(M.integer):
                # values handed over carry solver tolerances: only a clear infeasibility counts
                if violation_size(M) > 1e-3:
                    raise Violation(f"window {win}: infeasible given the state left by the previous window, but a solution is reported")
            ctx.label("window:" + status)
            break
        if not shot.ok:
            # rounding of the state handed over may make a window infeasible
            if relaxed_margin(M) < 1e-4 or any(M.integer):
                ctx.label("window:edge")
                break
            raise Violation(f"window {win} is feasible given the state left by the previous window (cost {ref}), but no solution is reported")
        x = solcheck.values(M, shot)
        solcheck.check_rows(M, x)
        solcheck.check_outputs(M.S, shot, sns=win)
        val, scale = solcheck.cost(M, x)
        tol = 2e-4 * scale + 1e-2
        if abs(val - ref) > tol and not (any(M.integer) and val < ref):
            raise Violation(f"window {win}: cost {val}, the documented problem of this window has optimum {ref}")
        if any(c.get("committable") for cls in ("Generator", "Link") for c in M.S.all(cls)):
            solcheck.check_uc_outputs(M.S, shot, init)
        done += k > 0
    ctx.nontrivial(done)


def relax(M):
    """Copy of M with one slack per row, to be minimised."""
    import copy

    R = copy.copy(M)
    R.lb, R.ub, R.obj = list(M.lb), list(M.ub), [0.0] * len(M.obj)
    R.integer, R.rows, R.quad, R.v = list(M.integer), [], {}, dict(M.v)
    return R


def violation_size(M):
    """Smallest total constraint violation of an infeasible problem."""
    R = relax(M)
    for d, lo, hi, tag in M.rows:
        e = dict(d)
        if lo > -np.inf:
            e[R.var(None, 0, np.inf, obj=1.0)] = 1.0
        if hi < np.inf:
            e[R.var(None, 0, np.inf, obj=1.0)] = -1.0
        R.rows.append((e, lo, hi, tag))
    R.empty_infeasible = False
    st_, v, _ = R.solve()
    if M.empty_infeasible:
        return 1.0
    return v if st_ == "optimal" else 0.0


def relaxed_margin(M):
    """Size by which the equality/inequality rows could be tightened: 0 if the problem is only just feasible."""
    R = relax(M)
    s = R.var(None, 0, 1.0, obj=-1.0)
    for d, lo, hi, tag in M.rows:
        if lo == hi:
            R.rows.append((d, lo, hi, tag))
            continue
        if lo > -np.inf:
            R.rows.append(({**d, s: -1.0}, lo, np.inf, tag))
        if hi < np.inf:
            R.rows.append(({**d, s: 1.0}, -np.inf, hi, tag))
    st_, v, _ = R.solve()
    return -v if st_ == "optimal" else 0.0


TESTS = [
    Test("subsets", lambda: subsets(SUB), run_subsets, 42, 3000,
         "sequences of 1-3 optimisations of snapshot subsets (contiguous or not) on one network; each against the reference problem on the subset; results elsewhere unchanged; non-trivial: some snapshot is left out"),
    Test("periods", lambda: subsets(SUBM), run_subsets, 12, 1000, "the same with investment periods"),
    Test("rolling", lambda: rolling(ROLL), run_rolling, 26, 2000,
         "rolling horizons with commitment and ramps; each window against the reference problem given the state the previous window left; non-trivial: a window after the first is checked"),
    Test("rollstor", lambda: rolling(ROLLS), run_rolling, 26, 2000, "rolling horizons with storage, any snapshot range"),
]
