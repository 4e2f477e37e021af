"""C19: non-linear power flow."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import net, pfgen, refpf
from harness.core import Test, Violation
from harness.gen import D
from checks.c18 import dyn, inputs, near, same_inputs, slack_of

OPT = pfgen.PO(dc=15, extra=(0, 4), buses=(1, 6), load=30.0, xpu=(2e-4, 2.5e-3))


@st.composite
def specs(draw, distributed):
    d = D(draw)
    spec = pfgen.gen_pf(d, OPT)
    car = {c[1]: c[2]["carrier"] for c in spec["comps"] if c[0] == "Bus"}
    spec["comps"] = [c for c in spec["comps"] if not (c[0] in ("Line", "Transformer") and car[c[2]["bus0"]] == "DC")]
    if not distributed and d.p(10):  # direct current written as resistive AC network
        spec["comps"] = [c for c in spec["comps"] if c[0] != "Transformer"]
        for c in spec["comps"]:
            if c[0] == "Line" and "type" not in c[2]:
                c[2].update(r=max(c[2]["x"], c[2].get("r", 0)), x=0.0, b=0.0)
            for k in ("q_set", "b"):
                c[2].pop(k, None)
            if c[0] == "Generator" and c[2]["control"] == "PV":
                c[2]["control"] = "PQ"
    for c in spec["comps"]:
        if c[0] == "Generator" and d.p(50):
            c[2]["p_nom_opt"] = d.pick([5.0, 20.0, 80.0])
    spec["call"] = d.pick(["all", "all", "subset", "single"])
    spec["seed"] = d.p(25)
    spec["x_tol"] = d.pick([None, None, 1e-8, 1e-4])
    if distributed:
        for c in spec["comps"]:
            if c[0] == "Generator":
                c[1] = "G " + c[1]  # keys of custom weights mean buses or generators
        spec["weights_by"] = d.pick(["p_set", "p_nom", "p_nom_opt", "gens", "gens", "buses"])
        spec["dict"] = d.p(40)
        spec["w"] = [pfgen.fine(d, 0.1, 3) if d.p(85) else 0.0 for _ in range(12)]
        spec["partial"] = d.p(30)
    return spec


def slack_shares(P, spec, islands, T):
    """Weight of each active generator per snapshot, or None if outside the domain; plus custom weights."""
    how = spec["weights_by"]
    gens = [g for g in P.all("Generator") if g.get("active")]
    w = {}
    custom = {}
    if how in ("p_set", "p_nom", "p_nom_opt"):
        for g in gens:
            w[g.name] = [max(g.get(how, i), 0.0) for i in range(T)]
    elif how == "gens":
        for k, g in enumerate(gens):
            v = spec["w"][k % len(spec["w"])]
            if spec["partial"] and v == 0.0:
                w[g.name] = [0.0] * T
                continue
            custom[g.name] = v
            w[g.name] = [v] * T
    else:
        buses = sorted({g.get("bus") for g in gens})
        if set(buses) & {g.name for g in P.all("Generator")}:
            return None  # a key could mean a bus or a generator
        for k, b in enumerate(buses):
            v = spec["w"][k % len(spec["w"])]
            custom[b] = v
            here = [g for g in gens if g.get("bus") == b]
            nom = [g.get("p_nom") for g in here]
            tot = sum(nom)
            for g, x in zip(here, nom):
                w[g.name] = [v * (x / tot if tot else 1.0 / len(here))] * T
    for buses in islands:
        here = [g for g in gens if g.get("bus") in buses]
        if not here:
            if len(buses) > 1:
                return None
            continue
        for i in range(T):
            if sum(w[g.name][i] for g in here) <= 1e-6:
                return None
    if how in ("p_nom", "p_nom_opt", "p_set") and not any(any(x) for x in w.values()):
        return None
    return w, custom


class Island:
    """Admittance and unknowns of one island, for an independent Newton iteration."""

    def __init__(self, P, buses, slack, pv):
        self.P, self.buses, self.slack = P, list(buses), slack
        self.pos = {b: k for k, b in enumerate(self.buses)}
        self.br = [c for c in P.active_branches if c.get("bus0") in self.pos]
        self.sh = np.array([P.shunt(b) for b in self.buses])
        self.ang = [k for k, b in enumerate(self.buses) if b != slack]
        self.mag = [k for k, b in enumerate(self.buses) if b != slack and b not in pv]

    def power(self, V):
        S = np.abs(V) ** 2 * np.conj(self.sh)
        for c in self.br:
            i, j = self.pos[c.get("bus0")], self.pos[c.get("bus1")]
            s0, s1 = self.P.ac_branch(c, V[i], V[j])
            S[i] += s0
            S[j] += s1
        return S

    def newton(self, p, q, vset, gamma=None):
        """Number of iterations from a flat start, None without convergence."""
        n = len(self.buses)
        va, vm = np.zeros(n), np.array(vset, float)
        vm[self.mag] = 1.0
        x = np.concatenate([va[self.ang], vm[self.mag], [0.0] if gamma is not None else []])

        def F(x):
            a, m = np.zeros(n), np.array(vset, float)
            a[self.ang] = x[: len(self.ang)]
            m[self.mag] = x[len(self.ang): len(self.ang) + len(self.mag)]
            S = self.power(m * np.exp(1j * a))
            dp = S.real - p
            if gamma is not None:
                dp = dp - gamma * x[-1]
                return np.concatenate([dp, (S.imag - q)[self.mag]])
            return np.concatenate([dp[self.ang], (S.imag - q)[self.mag]])

        for it in range(9):
            f = F(x)
            if f.size == 0 or np.abs(f).max() < 1e-6:
                return it
            J = np.empty((f.size, x.size))
            for k in range(x.size):
                h = 1e-7 if k < len(self.ang) + len(self.mag) else 1.0
                e = x.copy()
                e[k] += h
                J[:, k] = (F(e) - f) / h
            try:
                x = x - np.linalg.solve(J, f)
            except np.linalg.LinAlgError:
                return None
        return None


def flag(res, kind, t, name):
    return res[kind].loc[t, name]


def run(spec, ctx):
    P = refpf.P(spec)
    n = net.build(spec)
    T = P.T
    before = inputs(n)
    islands = P.islands()
    kw = {}
    if spec["x_tol"]:
        kw["x_tol"] = spec["x_tol"]
    shares = None
    if "weights_by" in spec:
        out = slack_shares(P, spec, islands, T)
        if out is None:
            return
        shares, custom = out
        kw["distribute_slack"] = True
        if spec["weights_by"] in ("gens", "buses"):
            n.determine_network_topology()
            key = {g.name: g.get("bus") for g in P.all("Generator")} if spec["weights_by"] == "gens" else {b: b for b in P.bus}
            d = {str(s): {} for s in n.sub_networks.index}
            for k, v in custom.items():
                d[str(n.buses.at[key[k], "sub_network"])][k] = v
            if not spec["dict"]:
                for s, v in d.items():
                    ser = pd.Series(v, dtype=float)
                    ser.index.name = "Generator" if spec["weights_by"] == "gens" else "Bus"
                    d[s] = ser
            kw["slack_weights"] = d
        elif spec["weights_by"] != "p_set" or spec["dict"]:
            kw["slack_weights"] = spec["weights_by"]
        ctx.label("slack:" + spec["weights_by"])
    sns = n.snapshots
    steps = {"all": list(range(T)), "subset": list(range((T + 1) // 2)), "single": [T - 1]}[spec["call"]]
    arg = {"all": None, "subset": sns[: (T + 1) // 2], "single": sns[T - 1]}[spec["call"]]
    res = n.pf(**kw) if arg is None else n.pf(arg, **kw)
    if spec["seed"]:
        res = n.pf(use_seed=True, **kw) if arg is None else n.pf(arg, use_seed=True, **kw)
        ctx.label("seeded")
    same_inputs(n, before, "the power flow")
    solved = 0
    for buses in islands:
        sn = str(n.buses.at[buses[0], "sub_network"])
        slack = slack_of(P, n, buses, not spec["seed"])
        gens = [g for g in P.all("Generator") if g.get("bus") in buses and g.get("active")]
        n_slack = sum(g.get("control") == "Slack" for g in gens)
        pv = {g.get("bus") for g in gens if g.get("control") == "PV" or g.get("control") == "Slack" and n_slack > 1} - {slack}
        I = Island(P, buses, slack, pv)
        for i in steps:
            t = sns[i]
            conv = bool(flag(res, "converged", t, sn))
            inj = P.set_injection(i)
            q = P.set_injection(i, "q")
            scale = 1.0 + sum(abs(inj[b]) + abs(q[b]) for b in buses)
            vset = [P.bus[b].get("v_mag_pu_set", i) for b in buses]
            gamma = None
            if shares is not None and gens and len(buses) > 1:
                tot = sum(shares[g.name][i] for g in gens)
                gamma = np.array([sum(shares[g.name][i] for g in gens if g.get("bus") == b) / tot for b in buses])
            if not conv:
                ctx.label("not-converged")
                its = I.newton(np.array([inj[b] for b in buses]), np.array([q[b] for b in buses]), vset, gamma)
                if its is not None and its <= 6 and not spec["x_tol"] == 1e-8:
                    raise Violation(f"no convergence reported at {t} for buses {buses}, but Newton's method from a flat start needs {its} iterations")
                continue
            err = float(flag(res, "error", t, sn))
            xtol = kw.get("x_tol", 1e-6)
            if not err <= xtol:
                raise Violation(f"convergence reported at {t} with error {err}")
            eps = 3 * xtol + 1e-7 * scale
            solved += 1
            vm = np.array([dyn(n, "Bus", "v_mag_pu", b, i) for b in buses])
            va = np.array([dyn(n, "Bus", "v_ang", b, i) for b in buses])
            V = vm * np.exp(1j * va)
            S = I.power(V)
            pos = I.pos
            near(va[pos[slack]], 0.0, 0, f"angle at slack bus {slack!r} at {t}")
            for b in [slack, *pv]:
                near(vm[pos[b]], P.bus[b].get("v_mag_pu_set", i), 1e-9, f"voltage at {'slack' if b == slack else 'PV'} bus {b!r} at {t}")
            pslack = None
            for k, b in enumerate(buses):
                rp, rq = dyn(n, "Bus", "p", b, i), dyn(n, "Bus", "q", b, i)
                near(rp, S[k].real, eps, f"AC equation (active power) at bus {b!r} at {t}")
                near(rq, S[k].imag, eps, f"AC equation (reactive power) at bus {b!r} at {t}")
                if b != slack and b not in pv:
                    near(rq, q[b], eps, f"reactive set point at PQ bus {b!r} at {t}")
                if b != slack and gamma is None:
                    near(rp, inj[b], eps, f"active set point at bus {b!r} at {t}")
                # components at the bus
                cp = sum(c.get("sign") * dyn(n, cls, "p", c.name, i) for cls in refpf.ONEPORTS for c in P.all(cls) if c.get("bus") == b and c.get("active"))
                cq = sum(c.get("sign") * dyn(n, cls, "q", c.name, i) for cls in refpf.ONEPORTS for c in P.all(cls) if c.get("bus") == b and c.get("active"))
                for c in P.all("Link"):
                    for port in ["bus0"] + [x for x, _ in P.link_ports(c)]:
                        if c.get(port) == b:
                            cp -= dyn(n, "Link", "p" + port[3:], c.name, i)
                if any(g.get("bus") == b for g in gens) or b != slack:
                    near(cp, rp, 2 * eps, f"active power of the components at bus {b!r} against the bus injection at {t}")
                if any(g.get("bus") == b for g in gens) or b != slack:
                    near(cq, rq, 2 * eps, f"reactive power of the components at bus {b!r} against the bus injection at {t}")
            if gamma is not None:
                extra = np.array([S[k].real - inj[b] for k, b in enumerate(buses)])
                pslack = extra.sum()
                for k, b in enumerate(buses):
                    near(extra[k], gamma[k] * pslack, 2 * eps + 1e-9 * scale * len(buses), f"slack share of bus {b!r} at {t} (total {pslack})")
            if shares is not None and gens:
                tot = sum(shares[g.name][i] for g in gens)
                extra = {g.name: g.get("sign") * (dyn(n, "Generator", "p", g.name, i) - g.get("p_set", i)) for g in gens}
                total = sum(extra.values())
                for g in gens:
                    near(extra[g.name], shares[g.name][i] / tot * total, 4 * eps + 1e-9 * scale, f"slack share of generator {g.name!r} at {t} (total {total})")
            elif gens:
                takers = [g for g in gens if abs(dyn(n, "Generator", "p", g.name, i) - g.get("p_set", i)) > 4 * eps]
                if len(takers) > 1 or any(g.get("bus") != slack for g in takers):
                    raise Violation(f"generators {[g.name for g in takers]} left their set point at {t}, slack bus {slack!r}")
            for g in gens:
                if abs(dyn(n, "Generator", "q", g.name, i) - g.get("q_set", i)) > 4 * eps / abs(g.get("sign")) and g.get("bus") != slack and g.get("bus") not in pv:
                    raise Violation(f"PQ generator {g.name!r} left its reactive set point at {t}")
            for cls in ("Load", "StorageUnit", "Store"):
                for c in P.all(cls):
                    if c.get("bus") in buses:
                        for k in "pq":
                            near(dyn(n, cls, k, c.name, i), c.get(k + "_set", i) if c.get("active") else 0.0, 1e-9, f"{k} of {cls} {c.name!r} at {t}")
            for c in I.br:
                s0, s1 = P.ac_branch(c, V[pos[c.get("bus0")]], V[pos[c.get("bus1")]])
                for k, v in (("p0", s0.real), ("q0", s0.imag), ("p1", s1.real), ("q1", s1.imag)):
                    near(dyn(n, c.cls, k, c.name, i), v, 1e-6 + 1e-6 * (abs(s0) + abs(s1)), f"{k} of {c.cls} {c.name!r} at {t}")
            for c in P.all("ShuntImpedance"):
                if c.get("bus") in pos:
                    y = complex(c.get("g"), c.get("b")) * P.bus[c.get("bus")].get("v_nom") ** 2 * vm[pos[c.get("bus")]] ** 2
                    if not c.get("active"):
                        y = 0j
                    near(dyn(n, "ShuntImpedance", "p", c.name, i), y.real, 1e-7 + 1e-8 * abs(y), f"p of shunt {c.name!r} at {t}")
                    near(dyn(n, "ShuntImpedance", "q", c.name, i), y.imag, 1e-7 + 1e-8 * abs(y), f"q of shunt {c.name!r} at {t}")
            if I.br:
                ctx.label("branches")
                if pslack is None or abs(pslack) > 1e-3:
                    ctx.nontrivial(np.abs(S).max() > 1e-3)
            if pv:
                ctx.label("pv")
    for i in steps:
        for c in P.branches:
            if not c.get("active"):
                for k in ("p0", "q0", "p1", "q1"):
                    near(dyn(n, c.cls, k, c.name, i), 0.0, 0, f"{k} of inactive {c.name!r}")
        for c in P.all("Link"):
            p = c.get("p_set", i) if c.get("active") else 0.0
            near(dyn(n, "Link", "p0", c.name, i), p, 1e-9, f"p0 of link {c.name!r}")
            for b, e in P.link_ports(c):
                near(dyn(n, "Link", "p" + b[3:], c.name, i), -p * c.get(e, i), 1e-7, f"p{b[3:]} of link {c.name!r}")
    ctx.label("solved" if solved else "unsolved")


TESTS = [
    Test("pf", lambda: specs(False), run, 150, 12000,
         "random AC networks with lines, transformers (T/pi, both tap sides, phase shift, types), shunts, links, PQ/PV/slack control; the AC equations, set points and component powers are evaluated on the reported voltages; non-trivial: an island with branches converged with power flowing"),
    Test("distributed", lambda: specs(True), run, 110, 10000,
         "the same with distributed slack by dispatch, capacity, optimised capacity or custom generator/bus weights; non-trivial: a converged island with branches and slack to share"),
]
