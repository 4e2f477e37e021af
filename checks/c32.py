"""C32: model-building workflows are equivalent to direct optimisation."""
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import anynet as N, attrs as A, gen, net, refopt, solcheck
from harness.core import Test, Violation, close
from harness.gen import D
from harness.refopt import NOM
from checks.common import label_spec

O1 = gen.O(buses=(1, 3), T=(1, 3), gens=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 2), ext=40, mod=8, com=12, inactive=8, series=30, globals=25,
           weights=50, esum=8, shed=60, dump=60, busnom=8, ramp=8, periods=12)
OPTS = {"mip_rel_gap": 0.0, "mip_abs_gap": 1e-9, "threads": 1, "time_limit": 30.0, "output_flag": False}


@st.composite
def specs(draw):
    spec = draw(gen.networks(O1))
    d = D(draw)
    T = net.nsteps(spec)
    for c in spec["comps"]:  # commitment of components which exist for a part of the periods is ambiguous
        if c[2].get("committable"):
            c[2].pop("build_year", None)
            c[2].pop("lifetime", None)
    ops = [["solve", d.pick(["direct", "direct", "model"]), d.p(30)]]
    for j in range(d.int(1, 4)):
        k = d.pick(["solve", "solve", "fixcap", "shed", "export", "add", "add", "remove", "set", "copy", "analyse", "constraint", "constraint", "subset"])
        if k == "solve":
            ops.append(["solve", d.pick(["direct", "model", "extra"]), d.p(20)])
        elif k == "shed":
            kw = {}
            if d.p(50):
                kw["marginal_cost"] = d.pick([100.0, 50.0, 3.0])
            if d.p(40):
                kw["sign"] = d.pick([1.0, 0.001, 0.5])
            if d.p(30):
                kw["p_nom"] = d.pick([1e6, 4.0])
            ops.append(["shed", f" shed{j}", d.p(30), kw])
        elif k == "add":
            cls = d.pick(["Generator", "Load", "Store", "StorageUnit", "Link", "Bus"])
            a = {"Generator": {"p_nom": d.q(0, 20), "marginal_cost": d.pick([d.q(0, 20), [d.q(0, 20) for _ in range(T)]])}, "Load": {"p_set": [d.q(0, 8) for _ in range(T)]},
                 "Store": {"e_nom": d.q(0, 20), "e_cyclic": d.p(50), "standing_loss": d.pick([0.0, 0.1])}, "StorageUnit": {"p_nom": d.q(0, 10), "max_hours": 2.0, "cyclic_state_of_charge": d.p(50)},
                 "Link": {"p_nom": d.q(0, 10), "efficiency": d.pick([1.0, 0.8])}, "Bus": {}}[cls]
            if cls in NOM and d.p(40):
                a[NOM[cls] + "_extendable"] = True
                a["capital_cost"] = d.q(1, 10)
            ops.append(["add", cls, f"new{j}", a, d.int(0, 5), d.int(0, 5)])
        elif k == "remove":
            ops.append(["remove", d.int(0, 30)])
        elif k == "set":
            ops.append(["set", d.int(0, 30), d.pick([0.5, 2.0, 1.25])])
        elif k == "constraint":
            ops.append(["constraint", d.pick(["energy", "capacity"]), d.int(0, 5), d.pick([0.5, 0.8, 1.0, 1.2]), d.pick(["extra", "model", "model_extra"])])
        elif k == "subset":
            ops.append(["subset", d.int(1, 3), d.pick(["direct", "model", "model_extra"])])
        elif k == "analyse":
            ops.append(["analyse", d.pick(["statistics", "lpf", "topology", "check", "expressions", "build"])])
        elif k == "export":
            ops.append(["export", d.pick(["netcdf", "csv", "hdf5"])])
        else:
            ops.append([k])
    if ops[-1][0] != "solve":
        ops.append(["solve", d.pick(["direct", "model"]), False])
    if d.p(30):
        ops += [["fixdispatch"], ["solve", "direct", False]]
    spec["ops"] = ops
    return spec


class Run:
    def __init__(self, spec, ctx):
        self.spec = {k: v for k, v in copy.deepcopy(spec).items() if k != "ops"}
        self.ctx = ctx
        self.n = net.build(self.spec)
        self.cost = None  # cost of the last solution, if it still belongs to the network
        self.solved = 0
        self.refused = False

    @property
    def kw(self):
        return {"multi_investment_periods": True} if self.spec.get("periods") else {}

    def comps(self, *cls):
        return [c for c in self.spec["comps"] if c[0] in cls]

    def model(self, sns=None):
        return refopt.build(self.spec, sns=sns)

    def call(self, how, extra=None, sns=None):
        n = self.n
        args = {} if sns is None else {"snapshots": n.snapshots[list(sns)]}
        solve = {"solver_name": "highs", "solver_options": dict(OPTS)}
        seen = []

        def fn(nn, snapshots):
            seen.append(list(snapshots))
            if extra:
                extra(nn, snapshots)

        if how in ("direct", "extra"):
            k = {"extra_functionality": fn} if how == "extra" or extra else {}
            out = n.optimize(**args, **self.kw, **solve, **k)
        else:
            m = n.optimize.create_model(**args, **self.kw)
            if m is not n.model:
                raise Violation("create_model does not return the model of the network")
            k = {}
            if how == "model_extra":
                k = {"extra_functionality": fn}
            elif extra:
                extra(n, None)
            out = n.optimize.solve_model(**solve, **k)
        want = list(n.snapshots if sns is None else n.snapshots[list(sns)])
        if seen and seen != [want]:
            raise Violation(f"extra_functionality was called with {seen}, expected the optimised snapshots {want}")
        return solcheck.normalise(*out)

    def solve(self, how, extra=None, row=None, sns=None, what=""):
        n = self.n
        M = self.model(sns)
        if not any(k[0] != "theta" and len(k) == 4 for k in M.v):
            self.refused = True
            return None
        if row:
            row(M)
        want, ref, _ = M.solve()
        if want in ("unknown", "unbounded"):
            self.refused = True
            return None
        what = f"{what} after {self.done}"
        before = self.inputs()
        try:
            got = self.call(how, extra, sns)
        except ValueError as e:
            if "nodal balance" in str(e) or "Objective function could not be created" in str(e) and not any(M.obj):
                self.refused = True
                return None
            raise
        self.same_inputs(before, f"optimising {what}")
        if (got == "optimal") != (want == "optimal"):
            if any(M.integer):
                self.refused = True
                return None
            raise Violation(f"{what}: the optimisation ends with {got!r}, but the problem is {want}")
        if got != "optimal":
            self.cost = None
            return False
        x = solcheck.values(M, n)
        solcheck.check_rows(M, x)
        solcheck.check_outputs(M.S, n)
        try:
            solcheck.check_objective(M, n, self.spec, x, sns, ref if not any(M.integer) else None)
        except Violation as e:
            raise Violation(f"{what}: {e}") from e
        self.solved += 1
        val = float(n.objective) + float(n.objective_constant)
        if any(M.integer) and not close(val, ref, 1e-4, 1e-3):
            self.refused = True
        self.cost = val
        self.M, self.x = M, x
        return True

    def inputs(self):
        c = N.content(self.n)
        out = {}
        for k, v in c.items():
            if isinstance(k, tuple) and k[0] in ("static", "series", "dense", "type"):
                i = A.attrs_of(k[1], range(2, 6)).get(k[2])
                if i is None or i["status"].startswith("Out") or k[2] in ("carrier", "control", "sub_network"):
                    continue
                if k[1] == "Line" and k[2] in ("x", "r", "b", "g", "s_nom") or k[1] == "Transformer":
                    continue
            out[k] = v
        return out

    def same_inputs(self, before, what):
        bad = N.differences(self.inputs(), before)
        if bad:
            raise Violation(f"{what} changed the network: {bad[:3]}")

    # ---- operations
    def op(self, o):
        n, spec = self.n, self.spec
        k = o[0]
        if k == "solve":
            if o[2]:  # twice
                if self.solve(o[1], what="first of two solves") is None:
                    return
                first = self.cost
                if self.solve(o[1], what="second of two solves") is None:
                    return
                if first is not None and not close(first, self.cost if self.cost is not None else np.nan, 1e-5, 1e-3):
                    raise Violation(f"solving again costs {self.cost} instead of {first} after {self.done}")
            else:
                self.solve(o[1], what=o[1])
        elif k == "subset":
            T = net.nsteps(spec)
            if spec.get("periods") or any(c[2].get("committable") or "ramp_limit_up" in c[2] or "ramp_limit_down" in c[2] for c in spec["comps"]) or o[1] >= T:
                return
            self.solve(o[2], sns=list(range(o[1])), what=f"first {o[1]} snapshots")
            self.cost = None
        elif k == "fixcap":
            if self.cost is None:
                return
            fixed = 0.0
            if any(c[2].get("committable") and c[2].get("p_nom_extendable") for c in spec["comps"]):
                return
            S = self.M.S
            n.optimize.fix_optimal_capacities()
            for cls in NOM:
                for c in S.all(cls):
                    if c.get(NOM[cls] + "_extendable"):
                        v = self.x[self.M.v[(cls, c.name, NOM[cls])]]
                        fixed += S.cost_active(c) * c.get("capital_cost") * v
                        a = [z for z in spec["comps"] if z[0] == cls and z[1] == c.name][0][2]
                        a[NOM[cls] + "_extendable"] = False
                        a[NOM[cls]] = float(v)
                        if not close(n.static(cls).at[c.name, NOM[cls]], v, 1e-9, 1e-9):
                            raise Violation(f"{NOM[cls]} of {cls} {c.name!r} is fixed to {n.static(cls).at[c.name, NOM[cls]]}, but optimal is {v}")
                if len(n.static(cls)) and n.static(cls)[NOM[cls] + "_extendable"].any():
                    raise Violation(f"some {cls} are still extendable after fixing the capacities")
            old = self.cost
            hist = list(self.done)
            if any(c[2].get("type") == "tech_capacity_expansion_limit" and c[2].get("sense") != "<=" for c in self.comps("GlobalConstraint")):
                return
            if self.solve_fixed(fixed) is None:
                return
            if self.cost is None or not close(self.cost + fixed, old, 1e-4, 1e-2):
                raise Violation(f"with the optimal capacities fixed, the cost is {self.cost} + {fixed} instead of {old} after {hist}")
        elif k == "fixdispatch":
            if self.cost is None:
                return
            p = {c: n.dynamic(c)["p" if c != "Link" else "p0"].copy() for c in ("Generator", "Link")}
            n.optimize.fix_optimal_dispatch()
            for c, df in p.items():
                if len(n.static(c)):
                    now = n.dynamic(c).p_set.reindex(columns=df.columns)
                    if not np.allclose(now, df, atol=1e-9):
                        raise Violation(f"p_set of {c} is\n{now}\nafter fixing the optimal dispatch\n{df}")
            old = self.cost
            try:
                got = self.call("direct")
            except ValueError as e:
                if "nodal balance" in str(e):
                    return
                raise
            if got != "optimal":
                self.ctx.label("fixed-dispatch:" + got)  # exact equality with rounded values may be infeasible for the solver
                self.refused = True
                return
            new = float(n.objective) + float(n.objective_constant)
            if not close(new, old, 1e-4, 1e-2):
                raise Violation(f"with the optimal dispatch fixed, the cost is {new} instead of {old} after {self.done}")
            for c, df in p.items():
                if len(n.static(c)):
                    now = n.dynamic(c)["p" if c != "Link" else "p0"].reindex(columns=df.columns)
                    if not np.allclose(now, df, atol=1e-3, rtol=1e-4):
                        raise Violation(f"dispatch of {c} is\n{now}\nalthough it was fixed to\n{df}")
            # the set points do not follow other results
            sets = {c: n.dynamic(c).p_set.copy() for c in ("Generator", "Link", "Load", "Store", "StorageUnit")}
            for c in sets:
                for a in ("p", "p0", "p1"):
                    if a in n.dynamic(c) and not n.dynamic(c)[a].empty:
                        n.dynamic(c)[a].iloc[:, :] = 123.0
            for c, df in sets.items():
                if not n.dynamic(c).p_set.equals(df):
                    raise Violation(f"the fixed set points of {c} change together with results")
            self.refused = True  # the reference does not follow
        elif k == "shed":
            if not len(n.buses):
                return
            buses = list(n.buses.index)[:1] if o[2] else list(n.buses.index)
            kw = dict(o[3])
            before = N.content(n)
            if o[2]:
                kw["buses"] = n.buses.index[:1]
            n.optimize.add_load_shedding(suffix=o[1], **kw)
            names = {b + o[1] for b in buses}
            after = N.content(n)
            for key, v in before.items():
                if key[1:2] == ("Carrier",) or not isinstance(key, tuple):
                    if not isinstance(key, tuple) and after[key] != v:
                        raise Violation(f"load shedding changed {key}")
                    continue
                w = after.get(key)
                if isinstance(v, dict) and key[1] == "Generator":
                    w = {a: b for a, b in w.items() if a not in names}
                if key[0] == "names" and key[1] == "Generator":
                    if set(w) - set(v) != names:
                        raise Violation(f"load shedding added the generators {set(w) - set(v)}, expected {names}")
                    continue
                if key[0] in ("static", "dense", "custom series", "names") and not (w == v or N.differences({key: w}, {key: v}) == []):
                    raise Violation(f"load shedding changed {key} from {v} to {w}")
            for b in buses:
                g = n.generators.loc[b + o[1]]
                if g.carrier not in n.carriers.index:
                    raise Violation(f"carrier {g.carrier!r} of the load shedding is not defined")
                spec["comps"].append(["Generator", b + o[1], {"bus": b, "carrier": "load", "sign": kw.get("sign", 1e-3), "marginal_cost": kw.get("marginal_cost", 1e2), "p_nom": kw.get("p_nom", 1e9)}])
            self.cost = None
        elif k == "export":
            tmp = tempfile.mkdtemp(dir=os.environ.get("TMPDIR"))
            try:
                before = N.content(n)
                if o[1] == "netcdf":
                    n.export_to_netcdf(os.path.join(tmp, "n.nc"))
                elif o[1] == "csv":
                    n.export_to_csv_folder(os.path.join(tmp, "n"))
                else:
                    n.export_to_hdf5(os.path.join(tmp, "n.h5"))
                bad = N.differences(N.content(n), before)
                if bad:
                    raise Violation(f"exporting to {o[1]} changed the network: {bad[:3]}")
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        elif k == "copy":
            self.n = n.copy()
        elif k == "analyse":
            before = self.inputs()
            if o[1] == "statistics":
                if self.cost is not None:
                    n.statistics()
            elif o[1] == "expressions":
                if self.cost is not None and not spec.get("periods"):
                    n.optimize.expressions.energy_balance()
            elif o[1] == "lpf":
                if len(n.buses) and not spec.get("periods"):
                    n.lpf()
                    self.cost = None
            elif o[1] == "topology":
                n.determine_network_topology()
            elif o[1] == "build":
                n.optimize.create_model(**self.kw)
            else:
                n.consistency_check()
            self.same_inputs(before, f"{o[1]}")
        elif k == "add":
            _, cls, name, a, i, j = o
            buses = [c[1] for c in self.comps("Bus")]
            a = dict(a)
            if cls != "Bus":
                if not buses:
                    return
                if cls == "Link":
                    a["bus0"], a["bus1"] = buses[i % len(buses)], buses[j % len(buses)]
                else:
                    a["bus"] = buses[i % len(buses)]
            c = [cls, name, a]
            spec["comps"].append(c)
            net.add_all(n, [c])
            self.cost = None
        elif k == "remove":
            c = self.comps("Generator", "Load", "Store", "StorageUnit", "Link", "Line", "GlobalConstraint")
            if not c:
                return
            c = c[o[1] % len(c)]
            spec["comps"] = [z for z in spec["comps"] if z is not c]
            n.remove(c[0], c[1])
            self.cost = None
        elif k == "set":
            c = self.comps("Load", "Generator")
            if not c:
                return
            c = c[o[1] % len(c)]
            attr = "p_set" if c[0] == "Load" else "marginal_cost"
            v = c[2].get(attr, 0.0)
            if isinstance(v, list):
                c[2][attr] = [z * o[2] for z in v]
                n.dynamic(c[0])[attr][c[1]] *= o[2]
            else:
                c[2][attr] = v * o[2]
                n.static(c[0]).loc[c[1], attr] = v * o[2]
            self.cost = None
        elif k == "constraint":
            self.constraint(o)

    def solve_fixed(self, fixed):
        """Solve with fixed capacities; a verdict of infeasibility within rounding is no statement."""
        n = self.n
        try:
            got = self.call("direct")
        except ValueError as e:
            if "nodal balance" in str(e) or "Objective function could not be created" in str(e):
                self.refused = True
                return None
            raise
        if got != "optimal":
            M = self.model()
            want, ref, _ = M.solve()
            if want == "optimal" and not any(M.integer):
                raise Violation(f"with the optimal capacities fixed, the optimisation ends with {got!r} after {self.done}")
            self.refused = True
            return None
        self.cost = float(n.objective) + float(n.objective_constant)
        self.solved += 1
        self.M = self.model()
        self.x = solcheck.values(self.M, n)
        solcheck.check_rows(self.M, self.x)
        return True

    def constraint(self, o):
        if self.cost is None:
            return
        spec, n = self.spec, self.n
        _, kind, i, f, how = o
        M, x = self.M, self.x
        if kind == "energy":
            c = self.comps("Generator")
            if not c:
                return
            name = c[i % len(c)][1]
            keys = [k for k in M.v if k[:3] == ("Generator", name, "p") and len(k) == 4]
            K = f * sum(x[M.v[k]] for k in keys)
            if not keys:
                return

            def extra(nn, _):
                v = nn.model["Generator-p"].sel(Generator=name)
                nn.model.add_constraints(v.sum() <= K, name="user")

            def row(M):
                M.row([(M.v[k], 1.0) for k in keys], -np.inf, K, "user")
        else:
            keys = [k for k in M.v if k[0] == "Generator" and len(k) == 3 and k[2] == "p_nom"]
            if not keys:
                return
            K = f * sum(x[M.v[k]] for k in keys)

            def extra(nn, _):
                nn.model.add_constraints(nn.model["Generator-p_nom"].sum() <= K, name="user")

            def row(M):
                M.row([(M.v[k], 1.0) for k in keys], -np.inf, K, "user")
        old = self.cost
        self.ctx.label("user constraint")
        ok = self.solve(how, extra, row, what=f"user constraint {kind} <= {K} through {how}")
        if ok and not self.refused and self.cost < old - 1e-3 - 1e-5 * abs(old) and not any(M.integer):
            raise Violation(f"a further constraint reduces the cost from {old} to {self.cost}")
        self.cost = None

    def run(self, ops):
        self.done = []
        for o in ops:
            self.done.append(o[:3])
            self.op(o)
            self.ctx.label("op:" + o[0])
            if self.refused:
                return


def run_history(spec, ctx):
    A.reset_link_ports()
    label_spec(spec, ctx)
    r = Run(spec, ctx)
    r.run(spec["ops"])
    ctx.nontrivial(r.solved > 1)


# ----- iterative transmission expansion -------------------------------------
OI = gen.O(buses=(2, 4), T=(1, 2), gens=(1, 2), storage=(0, 1), links=(0, 2), lines=(1, 4), ext=60, mod=0, inactive=4, series=25, shed=97, dump=70, loads=(1, 2), par=10)


@st.composite
def iter_specs(draw):
    spec = draw(gen.networks(OI))
    d = D(draw)
    o = {"max_iterations": d.int(1, 3), "msq_threshold": d.pick([0.05, 1e-6])}
    if d.p(25):
        o["min_iterations"] = 2
        o["max_iterations"] = max(2, o["max_iterations"])
    if d.p(25):
        o["track_iterations"] = True
    if d.p(35):
        o["line_unit_size"] = d.pick([5.0, 8.0])
        if d.p(50):
            o["line_threshold"] = d.pick([0.1, 0.5])
        if d.p(30):
            o["fractional_last_unit_size"] = True
    spec["options"] = o
    for c in spec["comps"]:
        if c[0] == "Line":
            if not c[2].get("s_nom"):
                c[2]["s_nom"] = d.q(1, 20)
        if c[0] == "Link" and d.p(50):
            c[2]["carrier"] = "DC"
    if not any(c[0] == "Carrier" and c[1] == "DC" for c in spec["comps"]):
        spec["comps"].insert(0, ["Carrier", "DC", {}])
    return spec


def discretized(nom, top, unit, threshold, fractional):
    """Reading of the documentation of discretized_capacity."""
    whole = int(np.floor(nom / unit))
    rest = nom - whole * unit
    up = (whole + 1) * unit if rest >= threshold * unit else whole * unit
    if top % unit == 0 or top - nom >= unit or np.isinf(top):
        return up
    if top < unit:
        return top
    if fractional and rest / (top % unit) >= threshold:
        return top
    return whole * unit


def run_iterative(spec, ctx):
    A.reset_link_ports()
    label_spec(spec, ctx)
    n = net.build(spec)
    o = spec["options"]
    ext = [c for c in spec["comps"] if c[0] == "Line" and c[2].get("s_nom_extendable") and c[2].get("active", True)]
    if not ext:
        return ctx.nontrivial(False)
    before = {c: n.static(c).copy() for c in ("Line", "Link", "Generator", "Bus", "Transformer")}
    want, ref, _ = refopt.build(spec).solve()
    if want != "optimal":
        return ctx.nontrivial(False)
    opts = dict(OPTS)
    try:
        got = n.optimize.optimize_transmission_expansion_iteratively(solver_name="highs", solver_options=opts, **o)
    except ValueError as e:
        if "nodal balance" in str(e) or "Objective function could not be created" in str(e):
            return ctx.nontrivial(False)
        raise
    except RuntimeError as e:
        if "Optimization failed" in str(e):
            # capacities and impedances of one iteration may leave the next one without solution
            ctx.label("iteration-failed")
            return ctx.nontrivial(False)
        raise
    if solcheck.normalise(*got) != "optimal":
        ctx.label("final-failed")  # rounded capacities
        return ctx.nontrivial(False)
    what = f"iterative expansion {o}"
    for cls, attrs in (("Line", ["s_nom", "s_nom_extendable", "s_nom_max", "capital_cost", "length", "bus0"]), ("Link", ["p_nom", "p_nom_extendable", "capital_cost"]), ("Generator", ["p_nom", "p_nom_extendable"])):
        for a in attrs:
            if not n.static(cls)[a].equals(before[cls][a]):
                raise Violation(f"{what} changed {a} of {cls} to {dict(n.static(cls)[a])}, it was {dict(before[cls][a])}")
    opt = n.lines.s_nom_opt
    changed = 0
    for c in spec["comps"]:
        if c[0] != "Line":
            continue
        nm, a = c[1], c[2]
        x0, x1 = float(before["Line"].x[nm]), float(n.lines.x[nm])
        if not (a.get("s_nom_extendable") and a.get("active", True)):
            if x0 != x1:
                raise Violation(f"{what} changed x of line {nm!r}, which is not extendable")
            continue
        if not np.isfinite(x1) or x1 <= 0:
            raise Violation(f"{what}: line {nm!r} has x={x1}")
        s = float(opt[nm])
        if "line_unit_size" in o:
            u = o["line_unit_size"]
            top = float(net.num(a.get("s_nom_max", "inf")))
            if abs(s / u - round(s / u)) > 1e-6 and abs(s - top) > 1e-6:
                raise Violation(f"{what}: line {nm!r} has the capacity {s}")
        elif s > 1e-3 and o["max_iterations"] == 1 or s > 1e-3 and o.get("track_iterations") is None and abs(x1 * s - x0 * a["s_nom"]) > 1e-5 * x0 * a["s_nom"]:
            if abs(x1 * s - x0 * a["s_nom"]) > 1e-5 * x0 * a["s_nom"]:
                raise Violation(f"{what}: line {nm!r} has x={x1} with capacity {s}, it was {x0} with {a['s_nom']}")
        changed += abs(x1 - x0) > 1e-9
    # the final results belong to fixed lines with the updated impedances
    fixed = copy.deepcopy(spec)
    for c in fixed["comps"]:
        if c[0] == "Line" and (c[2].get("s_nom_extendable")):
            c[2]["s_nom_extendable"] = False
            c[2]["s_nom"] = float(opt[c[1]])
            c[2]["x"] = float(n.lines.x[c[1]])
            c[2].pop("s_nom_mod", None)
        if c[0] == "Link" and c[2].get("carrier") == "DC" and c[2].get("p_nom_extendable"):
            c[2]["p_nom_extendable"] = False
            c[2]["p_nom"] = float(n.links.p_nom_opt[c[1]])
    M = refopt.build(fixed)
    st_, ref, _ = M.solve()
    if st_ != "optimal":
        return ctx.nontrivial(False)
    x = solcheck.values(M, n)
    solcheck.check_rows(M, x)
    val, scale = solcheck.cost(M, x)
    tot = float(n.objective) + float(n.objective_constant)
    if not close(val, ref, 1e-4, 1e-2):
        raise Violation(f"{what}: the final dispatch costs {val}, but {ref} is possible with these lines")
    if not close(tot, val, 1e-4, 1e-2):
        raise Violation(f"{what}: objective and constant sum up to {tot}, but the final dispatch costs {val}")
    if o.get("track_iterations"):
        for c, a in (("lines", "s_nom"), ("links", "p_nom")):
            df = getattr(n, c)
            if not np.allclose(df[f"{a}_opt_0"], before[c[:-1].capitalize()][a]):
                raise Violation(f"{what}: iteration 0 is recorded as {dict(df[a + '_opt_0'])}")
            if f"{a}_opt_1" not in df or not hasattr(n, "objective_1"):
                raise Violation(f"{what}: first iteration is not recorded")
    ctx.nontrivial(changed > 0)


@st.composite
def disc_specs(draw):
    d = D(draw)
    unit = d.pick([0.5, 1.0, 3.0, 5.0, 7.25])
    top = d.pick([d.q(0, 40), "inf", unit * d.int(0, 8), d.q(0, 12)])
    t = net.num(top)
    nom = min(d.pick([d.q(0, 40), unit * d.int(0, 8), d.q(0, 12)]), t)
    return {"nom_opt": float(nom), "nom_max": top, "unit_size": unit, "threshold": d.pick([0.1, 0.3, 0.5, 0.9, 1.0]), "fractional_last_unit_size": d.p(50)}


def run_disc(spec, ctx):
    from pypsa.optimization.abstract import discretized_capacity

    k = dict(spec, nom_max=net.num(spec["nom_max"]))
    got = discretized_capacity(**k)
    want = discretized(k["nom_opt"], k["nom_max"], k["unit_size"], k["threshold"], k["fractional_last_unit_size"])
    if abs(got - want) > 1e-9 * (1 + abs(want)):
        raise Violation(f"discretized capacity for {k} is {got}, expected {want}")
    if got > k["nom_max"] + 1e-9:
        raise Violation(f"discretized capacity for {k} is {got}")
    ctx.nontrivial(k["nom_opt"] % k["unit_size"] > 0)


TESTS = [
    Test("history", specs, run_history, 60, 2500, "sequences of model building, solving, user constraints, fixing, load shedding, exports and edits, each solve against the reference; non-trivial: two or more solutions"),
    Test("iterative", iter_specs, run_iterative, 16, 600, "iterative transmission expansion: final results against the reference with the final impedances; non-trivial: impedances were updated"),
    Test("discretize", disc_specs, run_disc, 400, 20000, "discretised capacities; non-trivial: between two multiples"),
]
