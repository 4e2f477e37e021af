"""Check a PyPSA result against the reference model, row by row."""
from __future__ import annotations

import numpy as np

from harness import refopt
from harness.core import HarnessError, Violation, close
from harness.refopt import NOM, nan

INF = refopt.INF


class View:
    """Positional access to result tables of a network."""

    def __init__(self, n):
        self.n = n
        self.cache = {}

    def dyn(self, cls, attr):
        k = (cls, attr)
        if k not in self.cache:
            d = self.n.dynamic(cls)
            if attr not in d:
                raise Violation(f"no result table {cls}.{attr}")
            df = d[attr]
            if len(df.index) != len(self.n.snapshots):
                raise Violation(f"result table {cls}.{attr} has {len(df.index)} rows for {len(self.n.snapshots)} snapshots")
            self.cache[k] = ({c: i for i, c in enumerate(df.columns)}, df.to_numpy(dtype=float))
        return self.cache[k]

    def __call__(self, cls, attr, name, t):
        cols, arr = self.dyn(cls, attr)
        if name not in cols:
            raise Violation(f"no result {cls}.{attr} for {name!r}")
        return arr[t, cols[name]]

    def nom(self, cls, name):
        df = self.n.static(cls)
        col = NOM[cls] + "_opt"
        if name not in df.index:
            raise Violation(f"{cls} {name!r} is missing")
        return float(df.at[name, col])


ATTR = {("Link", "p"): "p0", ("Line", "s"): None, ("Transformer", "s"): None,
        ("StorageUnit", "soc"): "state_of_charge"}


def values(M, n, losses=0):
    """Values of the reference variables according to PyPSA's results."""
    S, V = M.S, View(n)
    x = np.full(len(M.lb), np.nan)
    for key, i in M.v.items():
        if key[0] == "theta":
            continue
        cls, name, attr = key[:3]
        if attr == "n_mod":
            continue
        if len(key) == 3:
            x[i] = V.nom(cls, name)
            continue
        t = key[3]
        if cls in ("Line", "Transformer"):
            p0, p1 = V(cls, "p0", name, t), V(cls, "p1", name, t)
            x[i] = (p0 - p1) / 2 if attr == "s" else p0 + p1
            if not losses and attr == "s" and not close(p0, -p1, 1e-6, 1e-6):
                raise Violation(f"{cls} {name!r} at {t}: p0={p0} and p1={p1} differ in magnitude without losses")
        elif cls == "Link" and attr == "p":
            x[i] = V("Link", "p0", name, t)
        elif attr == "soc":
            x[i] = V(cls, "state_of_charge", name, t)
        else:
            x[i] = V(cls, attr, name, t)
    for key, i in M.v.items():
        if key[0] != "theta" and key[2] == "n_mod":
            c = [c for c in S.all(key[0]) if c.name == key[1]][0]
            x[i] = x[M.v[(key[0], key[1], NOM[key[0]])]] / c.get(NOM[key[0]] + "_mod")
    bad = [k for k, i in M.v.items() if k[0] != "theta" and not np.isfinite(x[i])]
    if bad:
        raise Violation(f"no finite optimal value reported for {bad[:3]}")
    return x


TOL = 2e-4


def check_rows(M, x, skip=()):
    """All rows and bounds of the reference model hold at x (theta solved)."""
    solve_theta(M, x)
    for key, i in M.v.items():
        if key[0] == "theta":
            continue
        v = x[i]
        tol = TOL * (1 + min(abs(v), 1e6) * 1e-1)
        if v < M.lb[i] - tol or v > M.ub[i] + tol:
            raise Violation(f"{key} = {v:.6g} outside [{M.lb[i]:.6g}, {M.ub[i]:.6g}]")
        if M.integer[i] and abs(v - round(v)) > 1e-3:
            raise Violation(f"{key} = {v:.6g} is not integer")
    for d, lo, hi, tag in M.rows:
        if tag in skip:
            continue
        terms = [a * x[i] for i, a in d.items()]
        val = sum(terms)
        tol = TOL * (1 + max(abs(v) for v in terms) * 0.1)
        if val < lo - tol or val > hi + tol:
            inv = {i: k for k, i in M.v.items()}
            desc = " + ".join(f"{a:.5g}*{inv.get(i)}[={x[i]:.6g}]" for i, a in list(d.items())[:8])
            raise Violation(f"constraint {tag} violated: {lo:.6g} <= {val:.6g} <= {hi:.6g} fails for {desc}")


def solve_theta(M, x):
    """Fill bus angles from the KVL rows by least squares, per snapshot."""
    per = {}
    th = {i: k for k, i in M.v.items() if k[0] == "theta"}
    if not th:
        return
    for d, lo, hi, tag in M.rows:
        if tag == "kvl":
            ts = [th[i][2] for i in d if i in th]
            if not ts:
                continue
            per.setdefault(ts[0], []).append(d)
    for i in th:
        x[i] = 0.0
    for t, rows in per.items():
        idx = sorted({i for d in rows for i in d if i in th})
        pos = {i: k for k, i in enumerate(idx)}
        A = np.zeros((len(rows), len(idx)))
        b = np.zeros(len(rows))
        for k, d in enumerate(rows):
            for i, a in d.items():
                if i in pos:
                    A[k, pos[i]] = a
                else:
                    b[k] -= a * x[i]
        sol = np.linalg.lstsq(A, b, rcond=None)[0]
        for i, k in pos.items():
            x[i] = sol[k]


def cost(M, x):
    c = np.array(M.obj)
    xx = np.where(np.isnan(x), 0.0, x)
    terms = c * xx
    q = sum(v * xx[i] ** 2 for i, v in M.quad.items())
    return float(terms.sum() + q), float(np.abs(terms).sum() + abs(q))


def check_objective(M, n, spec, x, sns=None, ref=None, slack=0.0):
    """Reported objective = recomputed cost (= reference optimum)."""
    val, scale = cost(M, x)
    const = refopt.objective_constant(spec, sns)
    tol = 2e-5 * (scale + abs(const)) + 1e-4
    rep = float(n.objective)
    repc = float(n.objective_constant)
    if not abs(repc - const) <= 1e-6 * (1 + abs(const)):
        raise Violation(f"reported objective constant {repc} but existing capacity costs {const}")
    if not abs(rep + const - val) <= tol:
        raise Violation(f"reported objective {rep} + constant {const} but dispatch and capacities cost {val}")
    if ref is not None:
        if val < ref - tol:
            if any(M.integer):
                return  # every row holds at x: the reference MILP solve was not optimal
            raise Violation(f"total cost {val} is below the minimum {ref} of the documented problem")
        if val > ref + tol + slack:
            raise Violation(f"total cost {val} exceeds the minimum {ref} of the documented problem")


def check_outputs(S, n, losses=0, sns=None):
    """Reported secondary outputs agree with the primary results."""
    V = View(n)
    S_ = S
    for t in S_.sns:
        net = {b: 0.0 for b in S_.bus}
        tot = {b: 0.0 for b in S_.bus}
        for cls in ("Generator", "Store", "StorageUnit"):
            for c in S_.all(cls):
                p = V(cls, "p", c.name, t)
                if not S_.active(c, t) and abs(p) > 1e-5:
                    raise Violation(f"inactive {cls} {c.name!r} dispatches {p} at {t}")
                if cls == "StorageUnit":
                    pd_, ps = V(cls, "p_dispatch", c.name, t), V(cls, "p_store", c.name, t)
                    if not close(p, pd_ - ps, 1e-6, 1e-5):
                        raise Violation(f"StorageUnit {c.name!r}: p={p} but dispatch {pd_} minus store {ps}")
                net[c.get("bus")] += c.get("sign") * p
        for c in S_.all("Load"):
            p = V("Load", "p", c.name, t)
            want = c.get("p_set", t) if c.get("active") else 0.0
            if not close(p, want, 1e-6, 1e-5):
                raise Violation(f"Load {c.name!r} at {t}: served {p}, requested {want}")
            net[c.get("bus")] += c.get("sign") * p
        for c in S_.all("Link"):
            p0 = V("Link", "p0", c.name, t)
            if not S_.active(c, t) and abs(p0) > 1e-5:
                raise Violation(f"inactive Link {c.name!r} carries {p0} at {t}")
            net[c.get("bus0")] -= p0
            for b, e in S_.ports(c):
                pi = V("Link", "p" + b[3:], c.name, t)
                if not close(pi, -c.get(e, t) * p0, 1e-5, 1e-5):
                    raise Violation(f"Link {c.name!r} port {b} at {t}: {pi} but efficiency {c.get(e, t)} times {p0} enters")
                net[c.get(b)] -= pi
        for b in net:
            tot[b] = net[b]
        for cls in ("Line", "Transformer"):
            for c in S_.all(cls):
                p0, p1 = V(cls, "p0", c.name, t), V(cls, "p1", c.name, t)
                if not S_.active(c, t) and (abs(p0) > 1e-5 or abs(p1) > 1e-5):
                    raise Violation(f"inactive {cls} {c.name!r} carries {p0} at {t}")
                tot[c.get("bus0")] -= p0
                tot[c.get("bus1")] -= p1
        for b in S_.bus:
            scale = 1.0 + sum(abs(x) for x in net.values())
            if abs(tot[b]) > 1e-4 * scale:
                raise Violation(f"energy balance at bus {b!r}, snapshot {t}: surplus {tot[b]}")
            p = V("Bus", "p", b, t)
            if abs(p - net[b]) > 1e-4 * scale:
                raise Violation(f"bus {b!r} at {t}: reported injection {p}, components inject {net[b]}")
    for cls, nom in NOM.items():
        for c in S_.all(cls):
            if not c.get(nom + "_extendable"):
                v = V.nom(cls, c.name)
                if not close(v, c.get(nom), 1e-9, 1e-9):
                    raise Violation(f"{cls} {c.name!r} is not extendable: capacity {c.get(nom)} reported as {v}")


def check_uc_outputs(S, n, init=None):
    """Start-up / shut-down recorded at every status change, and only then where they cost."""
    V = View(n)
    init = init or {}
    for cls in ("Generator", "Link"):
        for c in S.all(cls):
            if not c.get("committable") or c.get("p_nom_extendable") or not c.get("active"):
                continue
            key = (cls, c.name)
            prev = init["status"][key][0] if key in init.get("status", {}) else (1 if c.get("up_time_before") else 0)
            for t in S.sns:
                u, a, b = (V(cls, k, c.name, t) for k in ("status", "start_up", "shut_down"))
                for k, v in (("status", u), ("start_up", a), ("shut_down", b)):
                    if min(abs(v), abs(v - 1)) > 1e-3:
                        raise Violation(f"{cls} {c.name!r} {k} = {v} at {t} is not binary")
                u, a, b = round(u), round(a), round(b)
                if u > prev and not a or u < prev and not b:
                    raise Violation(f"{cls} {c.name!r}: status changes {prev}->{u} at {t} but start_up={a}, shut_down={b}")
                if a and u <= prev and c.get("start_up_cost") > 0 or b and u >= prev and c.get("shut_down_cost") > 0:
                    raise Violation(f"{cls} {c.name!r}: start_up={a}, shut_down={b} charged at {t} without a status change ({prev}->{u})")
                prev = u


def optimize(n, spec, snapshots=None, **kw):
    """Run n.optimize quietly; -> 'optimal', 'infeasible', 'unbounded', or other."""
    kw.setdefault("solver_name", "highs")
    kw.setdefault("solver_options", {"mip_rel_gap": 0.0, "mip_abs_gap": 1e-9, "threads": 1, "time_limit": 30.0, "output_flag": False})
    args = {} if snapshots is None else {"snapshots": snapshots}
    status, cond = n.optimize(**args, **kw)
    return normalise(status, cond)


def normalise(status, cond):
    if status == "ok" and cond == "optimal":
        return "optimal"
    return str(cond)


def compare(spec, ctx, losses=0, linearized=False, sns=None, n=None, extra=None, kw=None, check_opt=True, M=None):
    """Full differential check: PyPSA vs. reference; returns (n, M, x, status)."""
    from harness import net

    if M is None:
        M = refopt.build(spec, sns=sns, losses=losses, linearized=linearized)
    if not any(k[0] != "theta" and len(k) == 4 for k in M.v):
        ctx.label("nothing-to-dispatch")  # outside the domain: no component that can dispatch
        return None
    want, ref, _ = M.solve()
    if want == "unknown":
        ctx.label("ref:unknown")
        return None
    rebuild = n is None
    if n is None:
        n = net.build(spec)
    kw = dict(kw or {})
    if losses:
        kw["transmission_losses"] = losses
    if linearized:
        kw["linearized_unit_commitment"] = True
    snapshots = None if sns is None else n.snapshots[list(sns)]
    if want == "infeasible":
        ctx.label("outcome:infeasible")
        try:
            got = optimize(n, spec, snapshots=snapshots, **kw)
        except ValueError as e:
            # documented refusal of buses with load but without any supply
            if "nodal balance" in str(e) or ("Objective function could not be created" in str(e) and not any(M.obj)):
                return None
            raise
        if got == "optimal":
            if any(M.integer):  # does the reported solution disprove the verdict of the MILP solver?
                check_rows(M, values(M, n, losses))
                ctx.label("ref:wrong-verdict")
                return None
            raise Violation("the documented problem is infeasible, but an optimal solution is reported")
        return None
    try:
        got = optimize(n, spec, snapshots=snapshots, **kw)
    except ValueError as e:
        # documented refusal of problems without any cost
        if "Objective function could not be created" in str(e) and not any(M.obj) and not M.quad:
            ctx.label("no-cost")
            return None
        raise
    ctx.label(f"outcome:{want}")
    if want == "optimal" and got != "optimal" and not M.quad or want == "optimal" and got == "optimal" and any(M.integer) and check_opt and float(
        n.objective) + float(n.objective_constant) > ref + 1e-3 + 1e-5 * abs(ref):
        ctx.label("milp-retry")  # rule out a wrong verdict of the solver
        n = net.build(spec) if rebuild else n
        kw["solver_options"] = {"mip_rel_gap": 0.0, "threads": 1, "output_flag": False, "presolve": "off", "time_limit": 60.0}
        got = optimize(n, spec, snapshots=snapshots, **kw)
    if want == "unbounded":
        if got == "optimal":
            raise Violation("the documented problem is unbounded, but an optimal solution is reported")
        return None
    if "time" in got or got != "optimal" and M.quad:
        ctx.label("solver-failed")  # the QP solver of HiGHS gives up at times
        return None
    if got != "optimal":
        raise Violation(f"the documented problem has optimal cost {ref}, but the optimisation ends with '{got}'")
    x = values(M, n, losses)
    check_rows(M, x)
    check_outputs(M.S, n, losses)
    check_objective(M, n, spec, x, sns, ref if check_opt else None)
    return n, M, x, ref
