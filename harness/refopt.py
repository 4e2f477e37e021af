"""Independent reference formulation of the documented optimisation problem.

Built from the spec with its own table of documented defaults, plain rows, and
bus-angle (not cycle) Kirchhoff constraints; solved with scipy/HiGHS (LP, MILP)
or highspy (QP).  Shares no code with PyPSA or linopy.
"""
from __future__ import annotations

import math

import numpy as np
import scipy.sparse as sp
from scipy.optimize import Bounds, LinearConstraint, milp

from harness.core import HarnessError

INF = math.inf
NAN = math.nan

BRANCH_COMMON = dict(active=True, build_year=0, lifetime=INF, capital_cost=0.0, length=0.0, carrier="")
DEF = {
    "Bus": dict(v_nom=1.0, carrier="AC"),
    "Generator": dict(p_nom=0.0, p_nom_extendable=False, p_nom_min=0.0, p_nom_max=INF, p_nom_mod=0.0, p_nom_set=NAN,
                      p_min_pu=0.0, p_max_pu=1.0, p_set=NAN, e_sum_min=-INF, e_sum_max=INF, sign=1.0,
                      marginal_cost=0.0, marginal_cost_quadratic=0.0, efficiency=1.0, committable=False,
                      start_up_cost=0.0, shut_down_cost=0.0, stand_by_cost=0.0, min_up_time=0, min_down_time=0,
                      up_time_before=1, down_time_before=0, ramp_limit_up=NAN, ramp_limit_down=NAN,
                      ramp_limit_start_up=1.0, ramp_limit_shut_down=1.0, **BRANCH_COMMON),
    "Load": dict(p_set=0.0, sign=-1.0, active=True),
    "StorageUnit": dict(p_nom=0.0, p_nom_extendable=False, p_nom_min=0.0, p_nom_max=INF, p_nom_mod=0.0, p_nom_set=NAN,
                        p_min_pu=-1.0, p_max_pu=1.0, sign=1.0, marginal_cost=0.0, marginal_cost_quadratic=0.0,
                        marginal_cost_storage=0.0, spill_cost=0.0, state_of_charge_initial=0.0,
                        state_of_charge_initial_per_period=False, state_of_charge_set=NAN,
                        cyclic_state_of_charge=False, cyclic_state_of_charge_per_period=True, max_hours=1.0,
                        efficiency_store=1.0, efficiency_dispatch=1.0, standing_loss=0.0, inflow=0.0, **BRANCH_COMMON),
    "Store": dict(e_nom=0.0, e_nom_extendable=False, e_nom_min=0.0, e_nom_max=INF, e_nom_mod=0.0, e_nom_set=NAN,
                  e_min_pu=0.0, e_max_pu=1.0, e_initial=0.0, e_initial_per_period=False, e_cyclic=False,
                  e_cyclic_per_period=True, sign=1.0, marginal_cost=0.0, marginal_cost_quadratic=0.0,
                  marginal_cost_storage=0.0, standing_loss=0.0, p_set=NAN, e_set=NAN, **BRANCH_COMMON),
    "Link": dict(p_nom=0.0, p_nom_extendable=False, p_nom_min=0.0, p_nom_max=INF, p_nom_mod=0.0, p_nom_set=NAN,
                 p_min_pu=0.0, p_max_pu=1.0, p_set=NAN, efficiency=1.0, marginal_cost=0.0, marginal_cost_quadratic=0.0,
                 committable=False, start_up_cost=0.0, shut_down_cost=0.0, stand_by_cost=0.0, min_up_time=0,
                 min_down_time=0, up_time_before=1, down_time_before=0, ramp_limit_up=NAN, ramp_limit_down=NAN,
                 ramp_limit_start_up=1.0, ramp_limit_shut_down=1.0, **BRANCH_COMMON),
    "Line": dict(x=0.0, r=0.0, s_nom=0.0, s_nom_extendable=False, s_nom_min=0.0, s_nom_max=INF, s_nom_mod=0.0,
                 s_nom_set=NAN, s_max_pu=1.0, **{**BRANCH_COMMON, "carrier": "AC"}),
    "Transformer": dict(x=0.0, r=0.0, s_nom=0.0, s_nom_extendable=False, s_nom_min=0.0, s_nom_max=INF, s_nom_mod=0.0,
                        s_nom_set=NAN, s_max_pu=1.0, tap_ratio=1.0, **BRANCH_COMMON),
    "GlobalConstraint": dict(type="primary_energy", carrier_attribute="co2_emissions", sense="==", constant=0.0,
                             investment_period=NAN, bus=None),
    "Carrier": dict(co2_emissions=0.0, max_growth=INF, max_relative_growth=0.0),
}
NOM = {"Generator": "p_nom", "Link": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom", "Line": "s_nom", "Transformer": "s_nom"}
NOM_ORDER = list(NOM)


def conv(v):
    if v is None:
        return NAN
    if v == "inf":
        return INF
    if v == "-inf":
        return -INF
    return v


class C:
    """One component of the spec."""

    __slots__ = ("cls", "name", "a")

    def __init__(self, cls, name, attrs):
        self.cls, self.name, self.a = cls, name, attrs

    def get(self, attr, t=None):
        if attr in self.a:
            v = self.a[attr]
            if isinstance(v, list):
                if t is None:
                    raise HarnessError(f"{self.cls}.{attr} is a series")
                return conv(v[t])
            return conv(v)
        if self.cls in DEF and attr in DEF[self.cls]:
            return DEF[self.cls][attr]
        if attr.startswith("efficiency"):
            return 1.0
        raise HarnessError(f"no default for {self.cls}.{attr}")

    def has_series(self, attr):
        return isinstance(self.a.get(attr), list)


class System:
    """Interpretation of a spec: snapshots, weights, activity."""

    def __init__(self, spec, sns=None):
        self.spec = spec
        self.n = spec["n"]
        self.periods = spec.get("periods")
        self.T = self.n * (len(self.periods) if self.periods else 1)
        self.sns = list(range(self.T)) if sns is None else list(sns)
        w = spec.get("weights") or {}
        self.w = {k: [float(x) for x in w.get(k, [1.0] * self.T)] for k in ("objective", "stores", "generators")}
        pw = spec.get("pweights") or {}
        np_ = len(self.periods) if self.periods else 1
        self.pw = {k: [float(x) for x in pw.get(k, [1.0] * np_)] for k in ("objective", "years")}
        self.comps = {}
        for cls, name, attrs in spec["comps"]:
            self.comps.setdefault(cls, []).append(C(cls, name, attrs))
        self.bus = {b.name: b for b in self.all("Bus")}
        for cls, port in (("Link", "bus0"), ("Line", "bus0"), ("Store", "bus")):
            for c in self.all(cls):  # empty carriers are those of the bus
                if not c.a.get("carrier") and c.a[port] in self.bus:
                    c.a = {**c.a, "carrier": self.bus[c.a[port]].get("carrier")}

    def all(self, cls):
        return self.comps.get(cls, [])

    def pidx(self, t):
        return t // self.n if self.periods else 0

    def period(self, t):
        return self.periods[t // self.n] if self.periods else None

    def active(self, c, t):
        if not c.get("active"):
            return False
        if self.periods and c.cls != "Load":
            return self.active_in(c, self.period(t))
        return True

    def active_in(self, c, period):
        if not c.get("active"):
            return False
        if period is None or c.cls == "Load":
            return True
        return c.get("build_year") <= period < c.get("build_year") + c.get("lifetime")

    def sns_periods(self):
        if not self.periods:
            return [None]
        out = []
        for t in self.sns:
            if self.period(t) not in out:
                out.append(self.period(t))
        return out

    def wobj(self, t):
        return self.w["objective"][t] * (self.pw["objective"][self.pidx(t)] if self.periods else 1.0)

    def wgen_years(self, t):
        return self.w["generators"][t] * (self.pw["years"][self.pidx(t)] if self.periods else 1.0)

    def cost_active(self, c):
        """Weight of the capital cost of an extendable component (0: inactive)."""
        if not self.periods:
            return 1.0 if c.get("active") else 0.0
        return sum(self.pw["objective"][self.periods.index(p)] for p in self.sns_periods() if self.active_in(c, p))

    def ports(self, link):
        """[(bus attr, efficiency attr)] of the output ports of a link."""
        out = []
        for k in link.a:
            if k.startswith("bus") and k not in ("bus", "bus0") and link.a[k] not in ("", None):
                i = k[3:]
                out.append((k, "efficiency" + ("" if i == "1" else i)))
        return sorted(out)

    def z_eff(self, br):
        """Effective per-unit (reactance, resistance) of a passive branch."""
        if br.cls == "Line":
            base = self.bus[br.get("bus0")].get("v_nom") ** 2
            return br.get("x") / base, br.get("r") / base
        tap = br.get("tap_ratio")
        return br.get("x") / br.get("s_nom") * tap, br.get("r") / br.get("s_nom") * tap


class Model:
    def __init__(self):
        self.lb, self.ub, self.obj, self.integer = [], [], [], []
        self.quad = {}
        self.rows = []  # (dict, lo, hi, tag)
        self.v = {}
        self.const = 0.0
        self.empty_infeasible = False

    def var(self, key, lb=-INF, ub=INF, obj=0.0, integer=False):
        i = len(self.lb)
        self.lb.append(lb)
        self.ub.append(ub)
        self.obj.append(obj)
        self.integer.append(1 if integer else 0)
        if key is not None:
            self.v[key] = i
        return i

    def row(self, coefs, lo, hi, tag=None):
        d = {}
        for i, a in coefs:
            if i is None or a == 0:
                continue
            d[i] = d.get(i, 0.0) + a
        if not d:
            if isinstance(tag, tuple) and tag[0] == "global":
                return  # a constraint nothing takes part in is vacuous
            if lo > 1e-9 or hi < -1e-9:
                self.empty_infeasible = True
            return
        self.rows.append((d, lo, hi, tag))

    def solve(self, obj=None, sense=1):
        """-> (status, value, x); value includes self.const unless obj is given."""
        n = len(self.lb)
        if self.empty_infeasible:
            return "infeasible", None, None
        if not n:
            return "optimal", 0.0, np.zeros(0)
        c = np.array(self.obj if obj is None else obj, float) * sense
        data, ri, ci, lo, hi = [], [], [], [], []
        for k, (d, l, h, _) in enumerate(self.rows):
            for i, a in d.items():
                data.append(a)
                ri.append(k)
                ci.append(i)
            lo.append(l)
            hi.append(h)
        A = sp.csr_matrix((data, (ri, ci)), shape=(len(self.rows), n))
        if self.quad and obj is None:
            return self._solve_qp(c, A, lo, hi)
        cons = [LinearConstraint(A, lo, hi)] if self.rows else []
        r = milp(c, constraints=cons, bounds=Bounds(np.array(self.lb), np.array(self.ub)),
                 integrality=np.array(self.integer), options={"mip_rel_gap": 0.0, "time_limit": 60})
        if r.status == 0:
            val = sense * float(r.fun)
            self.solution = r.x
            return "optimal", val + (self.const if obj is None else 0.0), r.x
        if r.status == 2:
            if any(self.integer):  # wrong verdicts of the MILP solver have been seen
                st, v, x = self._solve_qp(c, A, lo, hi, linear=True)
                if st == "optimal":
                    return st, sense * (v - self.const) + (self.const if obj is None else 0.0), x
            return "infeasible", None, None
        if r.status == 3:
            return "unbounded", None, None
        if r.status == 4 and "nfeasible or unbounded" in str(r.message).lower() or "infeasible" in str(r.message).lower():
            # decide by a zero-objective solve
            r2 = milp(np.zeros(n), constraints=cons, bounds=Bounds(np.array(self.lb), np.array(self.ub)),
                      integrality=np.array(self.integer), options={"time_limit": 60})
            return ("unbounded" if r2.status == 0 else "infeasible"), None, None
        return "unknown", None, None

    def _solve_qp(self, c, A, lo, hi, linear=False):
        """Second solver (newer HiGHS, no presolve for MILP): QP, or confirmation."""
        import highspy

        if any(self.integer) and not linear:
            raise HarnessError("MIQP not supported")
        h = highspy.Highs()
        if linear:
            h.setOptionValue("presolve", "off")
            h.setOptionValue("mip_rel_gap", 0.0)
        h.setOptionValue("output_flag", False)
        h.setOptionValue("time_limit", 20.0)
        h.setOptionValue("threads", 1)  # as in optimize(): one scheduler per process
        m = highspy.HighsLp()
        n = len(self.lb)
        m.num_col_, m.num_row_ = n, A.shape[0]
        m.col_cost_ = c
        inf = highspy.kHighsInf

        def f(v):
            return np.array([inf if x == INF else -inf if x == -INF else x for x in v], float)

        m.col_lower_, m.col_upper_ = f(self.lb), f(self.ub)
        m.row_lower_, m.row_upper_ = f(lo), f(hi)
        A = A.tocsc()
        m.a_matrix_.format_ = highspy.MatrixFormat.kColwise
        m.a_matrix_.start_, m.a_matrix_.index_, m.a_matrix_.value_ = A.indptr, A.indices, A.data
        if linear:
            m.integrality_ = [highspy.HighsVarType.kInteger if i else highspy.HighsVarType.kContinuous for i in self.integer]
        model = highspy.HighsModel()
        model.lp_ = m
        q = highspy.HighsHessian()
        q.dim_ = n
        q.format_ = highspy.HessianFormat.kTriangular
        start, index, value = [0], [], []
        for j in range(n):
            if j in self.quad and not linear:
                index.append(j)
                value.append(2 * self.quad[j])
            start.append(len(index))
        q.start_, q.index_, q.value_ = np.array(start), np.array(index), np.array(value, float)
        if not linear:
            model.hessian_ = q
        h.passModel(model)
        h.run()
        s = h.getModelStatus()
        if s == highspy.HighsModelStatus.kOptimal:
            return "optimal", h.getInfo().objective_function_value + self.const, np.array(h.getSolution().col_value)
        if s == highspy.HighsModelStatus.kInfeasible:
            return "infeasible", None, None
        if s in (highspy.HighsModelStatus.kUnbounded, highspy.HighsModelStatus.kUnboundedOrInfeasible):
            return "unbounded", None, None
        return "unknown", None, None


def nan(x):
    return isinstance(x, float) and math.isnan(x)


def build(spec, sns=None, losses=0, linearized=False, init=None, kvl=True, glob=True):
    """init: optional state before the first snapshot of `sns`:
    {"soc": {(cls,name): value}, "p": {(cls,name): value}, "status": {(cls,name): (status, up, down)}}
    """
    S = System(spec, sns)
    M = Model()
    M.S = S
    init = init or {}
    balance = {}  # (bus, t) -> [(var, coef)]
    rhs = {}

    def inject(bus, t, var, coef):
        balance.setdefault((bus, t), []).append((var, coef))

    # --- capacities
    for cls in NOM_ORDER:
        nom = NOM[cls]
        for c in S.all(cls):
            if not c.get(nom + "_extendable"):
                continue
            lb, ub = c.get(nom + "_min"), c.get(nom + "_max")
            w = S.cost_active(c)
            v = M.var((cls, c.name, nom), lb, ub, obj=w * c.get("capital_cost"))
            if c.get(nom + "_mod") > 0:
                k = M.var((cls, c.name, "n_mod"), 0, INF, integer=True)
                M.row([(v, 1), (k, -c.get(nom + "_mod"))], 0, 0, "modular")
            fix = c.get(nom + "_set")
            if not nan(fix):
                M.row([(v, 1)], fix, fix, "nom_set")

    def bounded(c, var, lo, hi, tag, capmul=1.0):
        """lo*cap <= var <= hi*cap."""
        nom = NOM[c.cls]
        if c.get(nom + "_extendable"):
            cap = M.v[(c.cls, c.name, nom)]
            M.row([(var, 1), (cap, -lo * capmul)], 0, INF, tag)
            M.row([(var, 1), (cap, -hi * capmul)], -INF, 0, tag)
        else:
            M.row([(var, 1)], lo * capmul * c.get(nom), hi * capmul * c.get(nom), tag)

    # --- generators and links
    for cls in ("Generator", "Link"):
        for c in S.all(cls):
            com = bool(c.get("committable")) and not c.get("p_nom_extendable")
            for t in S.sns:
                if not S.active(c, t):
                    continue
                w = S.wobj(t)
                p = M.var((cls, c.name, "p", t), obj=w * c.get("marginal_cost", t))
                q = c.get("marginal_cost_quadratic", t)
                if q:
                    M.quad[p] = w * q
                lo, hi = c.get("p_min_pu", t), c.get("p_max_pu", t)
                if com:
                    u = M.var((cls, c.name, "status", t), 0, 1, obj=w * c.get("stand_by_cost", t), integer=not linearized)
                    M.var((cls, c.name, "start_up", t), 0, 1, obj=c.get("start_up_cost"), integer=not linearized)
                    M.var((cls, c.name, "shut_down", t), 0, 1, obj=c.get("shut_down_cost"), integer=not linearized)
                    nomv = c.get("p_nom")
                    M.row([(p, 1), (u, -lo * nomv)], 0, INF, "com-lower")
                    M.row([(p, 1), (u, -hi * nomv)], -INF, 0, "com-upper")
                else:
                    bounded(c, p, lo, hi, "p-bounds")
                if c.has_series("p_set"):
                    ps = c.get("p_set", t)
                    if not nan(ps):
                        M.row([(p, 1)], ps, ps, "p_set")
                if cls == "Generator":
                    inject(c.get("bus"), t, p, c.get("sign"))
                else:
                    inject(c.get("bus0"), t, p, -1.0)
                    for b, e in S.ports(c):
                        inject(c.get(b), t, p, c.get(e, t))
            if com and c.get("active"):
                commitment(M, S, c, linearized, init)
            ramps(M, S, c, com, init)
            if cls == "Generator":
                coefs = [(M.v.get((cls, c.name, "p", t)), S.w["generators"][t]) for t in S.sns if S.active(c, t)]
                if not coefs:
                    continue
                if c.get("e_sum_min") > -INF:
                    M.row(coefs, c.get("e_sum_min"), INF, "e_sum_min")
                if c.get("e_sum_max") < INF:
                    M.row(coefs, -INF, c.get("e_sum_max"), "e_sum_max")

    # --- loads
    for c in S.all("Load"):
        for t in S.sns:
            if c.get("active"):
                key = (c.get("bus"), t)
                rhs[key] = rhs.get(key, 0.0) - c.get("sign") * c.get("p_set", t)

    # --- storage units
    for c in S.all("StorageUnit"):
        act = [t for t in S.sns if S.active(c, t)]
        for t in act:
            w = S.wobj(t)
            pd_ = M.var(("StorageUnit", c.name, "p_dispatch", t), 0, INF, obj=w * c.get("marginal_cost", t))
            q = c.get("marginal_cost_quadratic", t)
            if q:
                M.quad[pd_] = w * q
            ps = M.var(("StorageUnit", c.name, "p_store", t), 0, INF)
            e = M.var(("StorageUnit", c.name, "soc", t), 0, INF, obj=w * c.get("marginal_cost_storage", t))
            bounded(c, pd_, 0.0, c.get("p_max_pu", t), "dispatch")
            bounded(c, ps, 0.0, -c.get("p_min_pu", t), "store")
            bounded(c, e, 0.0, 1.0, "soc", c.get("max_hours"))
            if c.get("inflow", t) > 0:
                M.var(("StorageUnit", c.name, "spill", t), 0, c.get("inflow", t), obj=w * c.get("spill_cost", t))
            if c.has_series("state_of_charge_set"):
                f = c.get("state_of_charge_set", t)
                if not nan(f):
                    M.row([(e, 1)], f, f, "soc_set")
            inject(c.get("bus"), t, pd_, c.get("sign"))
            inject(c.get("bus"), t, ps, -c.get("sign"))
        for t in act:
            eh = S.w["stores"][t]
            prev = previous(S, c, act, t, c.get("cyclic_state_of_charge"),
                            c.get("cyclic_state_of_charge_per_period") or c.get("state_of_charge_initial_per_period"))
            g = lambda a, tt=t: M.v.get(("StorageUnit", c.name, a, tt))
            coefs = [(g("soc"), 1), (g("p_dispatch"), eh / c.get("efficiency_dispatch", t)),
                     (g("p_store"), -eh * c.get("efficiency_store", t)), (g("spill"), eh)]
            r = eh * c.get("inflow", t)
            keep = (1 - c.get("standing_loss", t)) ** eh
            if prev is None:
                r += init.get("soc", {}).get(("StorageUnit", c.name), c.get("state_of_charge_initial"))
            else:
                coefs.append((g("soc", prev), -keep))
            M.row(coefs, r, r, "soc-balance")

    # --- stores
    for c in S.all("Store"):
        act = [t for t in S.sns if S.active(c, t)]
        for t in act:
            w = S.wobj(t)
            p = M.var(("Store", c.name, "p", t), obj=w * c.get("marginal_cost", t))
            q = c.get("marginal_cost_quadratic", t)
            if q:
                M.quad[p] = w * q
            e = M.var(("Store", c.name, "e", t), obj=w * c.get("marginal_cost_storage", t))
            bounded(c, e, c.get("e_min_pu", t), c.get("e_max_pu", t), "e-bounds")
            for attr, var in (("p_set", p), ("e_set", e)):
                if c.has_series(attr):
                    f = c.get(attr, t)
                    if not nan(f):
                        M.row([(var, 1)], f, f, attr)
            inject(c.get("bus"), t, p, c.get("sign"))
        for t in act:
            eh = S.w["stores"][t]
            prev = previous(S, c, act, t, c.get("e_cyclic"), c.get("e_cyclic_per_period") or c.get("e_initial_per_period"))
            coefs = [(M.v[("Store", c.name, "e", t)], 1), (M.v[("Store", c.name, "p", t)], eh)]
            r = 0.0
            if prev is None:
                r = init.get("soc", {}).get(("Store", c.name), c.get("e_initial"))
            else:
                coefs.append((M.v[("Store", c.name, "e", prev)], -(1 - c.get("standing_loss", t)) ** eh))
            M.row(coefs, r, r, "e-balance")

    # --- passive branches
    for cls in ("Line", "Transformer"):
        for c in S.all(cls):
            for t in S.sns:
                if not S.active(c, t):
                    continue
                s = M.var((cls, c.name, "s", t))
                m = c.get("s_max_pu", t)
                b0, b1 = c.get("bus0"), c.get("bus1")
                inject(b0, t, s, -1.0)
                inject(b1, t, s, 1.0)
                if losses:
                    l = M.var((cls, c.name, "loss", t), 0, INF)
                    inject(b0, t, l, -0.5)
                    inject(b1, t, l, -0.5)
                    ext = c.get("s_nom_extendable")
                    if ext:
                        cap = M.v[(cls, c.name, "s_nom")]
                        M.row([(s, 1), (l, 1), (cap, -m)], -INF, 0, "s+loss")
                        M.row([(s, 1), (l, -1), (cap, m)], 0, INF, "s-loss")
                    else:
                        M.row([(s, 1), (l, 1)], -INF, m * c.get("s_nom"), "s+loss")
                        M.row([(s, 1), (l, -1)], -m * c.get("s_nom"), INF, "s-loss")
                    r = S.z_eff(c)[1]
                    top = c.get("s_nom_max") if ext else c.get("s_nom")
                    M.row([(l, 1)], -INF, r * (m * top) ** 2, "loss-max")
                    for k in range(1, losses + 1):
                        pk = k / losses * m * top
                        for sg in (1, -1):
                            # loss >= r pk^2 + 2 r pk (sg*s - pk)
                            M.row([(l, 1), (s, -sg * 2 * r * pk)], r * pk**2 - 2 * r * pk * pk, INF, "loss-tangent")
                else:
                    bounded(c, s, -m, m, "s-bounds")
    if kvl:
        add_kvl(M, S)

    # --- nodal balance
    for b in S.all("Bus"):
        for t in S.sns:
            M.row(balance.get((b.name, t), []), rhs.get((b.name, t), 0.0), rhs.get((b.name, t), 0.0), ("balance", b.name, t))
    if glob:
        global_constraints(M, S)
    return M


def branch_carrier(S, branches):
    """bus -> carrier of its connected component for the given branches."""
    parent = {b: b for b in S.bus}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    for c in branches:
        parent[find(c.get("bus0"))] = find(c.get("bus1"))
    return {b: (find(b)) for b in S.bus}


def add_kvl(M, S, tag="kvl", flow=None, skip=(), theta="theta", only=None):
    """Angle-based KVL: theta0 - theta1 = z * flow for every active branch."""
    flow = flow or (lambda c, t: M.v[(c.cls, c.name, "s", t)])
    for t in S.sns:
        brs = [c for cls in ("Line", "Transformer") for c in S.all(cls) if S.active(c, t) and (c.cls, c.name) not in skip]
        for c in brs:
            b0, b1 = c.get("bus0"), c.get("bus1")
            if only is not None and b0 not in only:
                continue
            for b in (b0, b1):
                if (theta, b, t) not in M.v:
                    M.var((theta, b, t))
            x, r = S.z_eff(c)
            z = x if S.bus[b0].get("carrier") == "AC" else r
            # scaled so that coefficients are of order one
            k = 1.0 / z if z else 1.0
            M.row([(M.v[(theta, b0, t)], k), (M.v[(theta, b1, t)], -k), (flow(c, t), -z * k)], 0, 0, tag)


def previous(S, c, act, t, cyclic, per_period):
    """Index of the snapshot holding the previous level, None = initial value."""
    pool = act
    if S.periods and per_period:
        pool = [u for u in act if S.period(u) == S.period(t)]
    i = pool.index(t)
    if i > 0:
        return pool[i - 1]
    return pool[-1] if cyclic else None


def commitment(M, S, c, linearized, init):
    key = (c.cls, c.name)
    u = lambda t: M.v[key + ("status", t)]
    su = lambda t: M.v[key + ("start_up", t)]
    sd = lambda t: M.v[key + ("shut_down", t)]
    T = S.sns
    mu, md = int(c.get("min_up_time")), int(c.get("min_down_time"))
    if key in init.get("status", {}):
        st0, up, down = init["status"][key]  # status before, snapshots up / down before
    else:
        up, down = c.get("up_time_before"), c.get("down_time_before")
        st0 = 1 if up else 0
    for i, t in enumerate(T):
        if i == 0:
            M.row([(su(t), 1), (u(t), -1)], -st0, INF, "start")
            M.row([(sd(t), 1), (u(t), 1)], st0, INF, "stop")
        else:
            M.row([(su(t), 1), (u(t), -1), (u(T[i - 1]), 1)], 0, INF, "start")
            M.row([(sd(t), 1), (u(t), 1), (u(T[i - 1]), -1)], 0, INF, "stop")
            if mu:
                M.row([(su(x), 1) for x in T[max(0, i - mu + 1):i + 1]] + [(u(t), -1)], -INF, 0, "min-up")
            if md:
                M.row([(sd(x), 1) for x in T[max(0, i - md + 1):i + 1]] + [(u(t), 1)], -INF, 1, "min-down")
        if st0 and i < mu - up:
            M.row([(u(t), 1)], 1, 1, "stay-up")
        if down and i < md - down:
            M.row([(u(t), 1)], 0, 0, "stay-down")


def ramps(M, S, c, com, init):
    key = (c.cls, c.name)
    nom = c.get("p_nom") if not c.get("p_nom_extendable") else None
    T = S.sns
    pairs = [(T[i - 1], T[i]) for i in range(1, len(T))]
    p0 = init.get("p", {}).get(key)
    if p0 is not None:
        pairs = [(None, T[0])] + pairs
    for a, b in pairs:
        if not S.active(c, b):
            continue
        pb = M.v[key + ("p", b)]
        pa = None if a is None else M.v.get(key + ("p", a))
        known = (p0 if a is None else 0.0)
        if com:
            sus, sds = c.get("ramp_limit_start_up"), c.get("ramp_limit_shut_down")
            ru, rd = c.get("ramp_limit_up", b), c.get("ramp_limit_down", b)
            ub = M.v[key + ("status", b)]
            ua = None if a is None else M.v[key + ("status", a)]
            s0 = init["status"][key][0] if a is None else 0.0
            if not nan(ru) or sus != 1:
                ru = 1.0 if nan(ru) else ru
                # pb - pa <= ru*nom*ua + sus*nom*(ub-ua)
                M.row([(pb, 1), (pa, -1), (ua, -(ru - sus) * nom), (ub, -sus * nom)], -INF, known + (ru - sus) * nom * s0, "ramp-up")
            if not nan(rd) or sds != 1:
                rd = 1.0 if nan(rd) else rd
                # pb - pa >= -rd*nom*ub - sds*nom*(ua-ub)
                M.row([(pb, 1), (pa, -1), (ub, (rd - sds) * nom), (ua, sds * nom)], known - sds * nom * s0, INF, "ramp-down")
            continue
        ru, rd = c.get("ramp_limit_up", b), c.get("ramp_limit_down", b)
        cap = None if nom is not None else M.v[key + ("p_nom",)]
        if not nan(ru):
            M.row([(pb, 1), (pa, -1), (cap, -ru)], -INF, known + (ru * nom if cap is None else 0), "ramp-up")
        if not nan(rd):
            M.row([(pb, 1), (pa, -1), (cap, rd)], known - (rd * nom if cap is None else 0), INF, "ramp-down")


def sense_bounds(sense, r):
    return (r, r) if sense == "==" else ((-INF, r) if sense == "<=" else (r, INF))


def global_constraints(M, S):
    carriers = {c.name: c for c in S.all("Carrier")}
    ext = [c for cls in NOM_ORDER for c in S.all(cls) if c.get(NOM[cls] + "_extendable")]
    capv = lambda c: M.v[(c.cls, c.name, NOM[c.cls])]
    for g in S.all("GlobalConstraint"):
        typ, attr, sense, const = g.get("type"), g.get("carrier_attribute"), g.get("sense"), g.get("constant")
        ip = g.get("investment_period")
        ip = None if nan(ip) else ip
        if ip is not None and ip not in S.sns_periods():
            continue
        tag = ("global", g.name)
        if typ in ("primary_energy", "operational_limit"):
            if typ == "primary_energy":
                em = {k: c.a.get(attr, 0.0) for k, c in carriers.items()}
            else:
                em = {k: 1.0 if k == attr else 0.0 for k in carriers}
            sns = [t for t in S.sns if ip is None or S.period(t) == ip]
            coefs, any_term = [], False
            r = const
            for c in S.all("Generator"):
                e = em.get(c.get("carrier"), 0.0)
                if not e:
                    continue
                any_term = True
                for t in sns:
                    if S.active(c, t):
                        eff = c.get("efficiency", t) if typ == "primary_energy" else 1.0
                        coefs.append((M.v[("Generator", c.name, "p", t)], e / eff * S.wgen_years(t)))
            for cls, var, init, cyc in (("StorageUnit", "soc", "state_of_charge_initial", "cyclic_state_of_charge"),
                                        ("Store", "e", "e_initial", "e_cyclic")):
                for c in S.all(cls):
                    e = em.get(c.get("carrier"), 0.0)
                    if not e or c.get(cyc):
                        continue
                    any_term = True
                    act = [t for t in sns if S.active(c, t)]
                    if act:
                        coefs.append((M.v[(cls, c.name, var, act[-1])], -e))
                    r -= e * c.get(init)
            if any_term:
                M.row(coefs, *sense_bounds(sense, r), tag)
        elif typ in ("transmission_volume_expansion_limit", "transmission_expansion_cost_limit"):
            cars = [x.strip(" []()") for x in attr.split(",")]
            coefs = []
            for c in ext:
                if c.cls not in ("Line", "Link") or c.get("carrier") not in cars:
                    continue
                if S.periods and not (S.active_in(c, ip) if ip is not None else any(S.active_in(c, p) for p in S.sns_periods())):
                    continue
                if typ == "transmission_volume_expansion_limit":
                    k = c.get("length")
                else:
                    k = c.get("capital_cost") * (S.cost_active(c) if S.periods and ip is None else 1.0)
                coefs.append((capv(c), k))
            if coefs:
                M.row(coefs, *sense_bounds(sense, const), tag)
        elif typ == "tech_capacity_expansion_limit":
            coefs = []
            for c in ext:
                if c.cls == "Transformer" or c.get("carrier") != attr:
                    continue
                if ip is not None and not S.active_in(c, ip):
                    continue
                b = c.get("bus0") if c.cls in ("Line", "Link") else c.get("bus")
                if g.get("bus") and b != g.get("bus"):
                    continue
                coefs.append((capv(c), 1.0))
            if coefs:
                M.row(coefs, *sense_bounds(sense, const), tag)
    for b in S.all("Bus"):
        for k, v in b.a.items():
            if not k.startswith(("nom_min_", "nom_max_")) or nan(conv(v)):
                continue
            rest = k[8:]
            ip = None
            if rest not in carriers:
                rest, ip = rest.rsplit("_", 1)
                ip = int(ip)
            coefs = [(capv(c), 1.0) for c in ext if c.cls in ("Generator", "StorageUnit", "Store") and c.get("carrier") == rest
                     and c.get("bus") == b.name and (ip is None or S.active_in(c, ip))]
            if coefs:  # without any matching asset there is nothing to constrain
                M.row(coefs, *(sense_bounds(">=" if k.startswith("nom_min_") else "<=", conv(v))), ("busnom", b.name))
    if S.periods:
        P = S.sns_periods()
        for k, car in carriers.items():
            if car.get("max_growth") == INF:
                continue
            first = {}
            for c in ext:
                if c.get("carrier") != k or c.cls == "Transformer":
                    continue
                ps = [p for p in P if S.active_in(c, p)]
                if ps:
                    first.setdefault(ps[0], []).append(c)
            rel = max(car.get("max_relative_growth"), 0.0)
            for i, p in enumerate(P):
                coefs = [(capv(c), 1.0) for c in first.get(p, [])]
                if i > 0 and rel:
                    coefs += [(capv(c), -rel) for c in first.get(P[i - 1], [])]
                M.row(coefs, -INF, car.get("max_growth"), ("growth", k))


def reference(spec, **kw):
    """-> (status, total cost incl. full capital cost of extendables, model, x)"""
    M = build(spec, **kw)
    st, val, x = M.solve()
    return st, val, M, x


def objective_constant(spec, sns=None):
    S = System(spec, sns)
    tot = 0.0
    for cls in NOM_ORDER:
        for c in S.all(cls):
            if c.get(NOM[cls] + "_extendable"):
                tot += S.cost_active(c) * c.get("capital_cost") * c.get(NOM[cls])
    return tot
