"""Independent electrical model of a spec: parameters, topology, power flow."""
from __future__ import annotations

import json
import math
import os

import numpy as np

from harness import net

DEF = {
    "Bus": {"v_nom": 1.0, "carrier": "AC", "v_mag_pu_set": 1.0},
    "Generator": {"p_set": 0.0, "q_set": 0.0, "sign": 1.0, "control": "PQ", "active": True, "p_nom": 0.0, "p_nom_opt": 0.0},
    "Load": {"p_set": 0.0, "q_set": 0.0, "sign": -1.0, "active": True},
    "StorageUnit": {"p_set": 0.0, "q_set": 0.0, "sign": 1.0, "active": True},
    "Store": {"p_set": 0.0, "q_set": 0.0, "sign": 1.0, "active": True},
    "ShuntImpedance": {"g": 0.0, "b": 0.0, "sign": -1.0, "active": True},
    "Link": {"p_set": 0.0, "efficiency": 1.0, "active": True},
    "Line": {"x": 0.0, "r": 0.0, "g": 0.0, "b": 0.0, "type": "", "length": 0.0, "num_parallel": 1.0, "active": True, "carrier": ""},
    "Transformer": {"x": 0.0, "r": 0.0, "g": 0.0, "b": 0.0, "type": "", "num_parallel": 1.0, "tap_position": 0, "tap_ratio": 1.0,
                    "tap_side": 0, "phase_shift": 0.0, "model": "t", "s_nom": 0.0, "active": True},
}
ONEPORTS = ("Generator", "Load", "StorageUnit", "Store")
_TYPES = None


def std_types():
    global _TYPES
    if _TYPES is None:
        with open(os.path.join(os.path.dirname(__file__), "stdtypes.json")) as f:
            _TYPES = json.load(f)
    return _TYPES


class C:
    def __init__(self, cls, name, attrs):
        self.cls, self.name, self.attrs = cls, name, attrs

    def get(self, k, i=None):
        v = self.attrs.get(k)
        if v is None and k not in self.attrs:
            v = DEF[self.cls].get(k, 1.0 if k.startswith("efficiency") else None)
        if net.is_series(v):
            v = v[i]
        return v

    @property
    def key(self):
        return (self.cls, self.name)


class P:
    """A spec seen as an electrical network."""

    def __init__(self, spec):
        self.spec = spec
        self.T = net.nsteps(spec)
        self.bus = {c[1]: C(*c) for c in spec["comps"] if c[0] == "Bus"}
        self.by = {}
        for c in spec["comps"]:
            self.by.setdefault(c[0], []).append(C(*c))
        t = std_types()
        self.ltypes = {**t["LineType"], **{c[1]: c[2] for c in spec["comps"] if c[0] == "LineType"}}
        self.ttypes = {**t["TransformerType"], **{c[1]: c[2] for c in spec["comps"] if c[0] == "TransformerType"}}
        self.branches = [c for cls in ("Line", "Transformer") for c in self.all(cls)]
        self.active_branches = [c for c in self.branches if c.get("active")]

    def all(self, cls):
        return self.by.get(cls, [])

    # --- parameters
    def phys(self, c):
        """Parameters after applying the standard type."""
        out = {k: c.get(k) for k in DEF[c.cls]}
        if c.cls == "Line" and c.get("type"):
            t = self.ltypes[c.get("type")]
            ln, k = c.get("length"), c.get("num_parallel")
            out["r"] = t["r_per_length"] * ln / k
            out["x"] = t["x_per_length"] * ln / k
            out["b"] = 2 * math.pi * t["f_nom"] * t["c_per_length"] * 1e-9 * ln * k
        if c.cls == "Transformer" and c.get("type"):
            t = self.ttypes[c.get("type")]
            k = c.get("num_parallel")
            z, r = t["vsc"] / 100, t["vscr"] / 100
            g = t["pfe"] / 1000 / t["s_nom"]
            y = t["i0"] / 100
            out.update(r=r / k, x=math.sqrt(z * z - r * r) / k, g=g * k, b=-math.sqrt(max(y * y - g * g, 0.0)) * k,
                       s_nom=t["s_nom"], phase_shift=t["phase_shift"], tap_side=t["tap_side"],
                       tap_ratio=1 + (c.get("tap_position") - t["tap_neutral"]) * t["tap_step"] / 100)
        return out

    def per_unit(self, c):
        """x_pu, r_pu, g_pu, b_pu (after the T model conversion), x_pu_eff, r_pu_eff."""
        p = self.phys(c)
        if c.cls == "Line":
            v2 = self.bus[c.get("bus0")].get("v_nom") ** 2
            out = {"x_pu": p["x"] / v2, "r_pu": p["r"] / v2, "g_pu": p["g"] * v2, "b_pu": p["b"] * v2}
            out.update(x_pu_eff=out["x_pu"], r_pu_eff=out["r_pu"])
            return out
        s = p["s_nom"]
        z = complex(p["r"], p["x"]) / s
        y = complex(p["g"], p["b"]) * s
        out = {"x_pu_eff": z.imag * p["tap_ratio"], "r_pu_eff": z.real * p["tap_ratio"]}
        if p["model"] == "t" and y != 0:
            # star (z/2, z/2, 1/y) as a two-port, read off as a pi circuit
            d = z / 2
            # pi: series b = z + z^2 y / 4, each shunt leg a = 2 * (1/y + z/4) ... from the chain matrix
            A = 1 + d * y
            B = d * (1 + A)
            ysh = 2 * (A - 1) / B
            z, y = B, ysh
        out.update(x_pu=z.imag, r_pu=z.real, g_pu=y.real, b_pu=y.imag)
        return out

    # --- topology
    def components(self, branches=None):
        """Bus -> representative of its connected component."""
        parent = {b: b for b in self.bus}

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x

        for c in self.active_branches if branches is None else branches:
            parent[find(c.get("bus0"))] = find(c.get("bus1"))
        return {b: find(b) for b in self.bus}

    def islands(self, branches=None):
        out = {}
        for b, r in self.components(branches).items():
            out.setdefault(r, []).append(b)
        return list(out.values())

    # --- injections by set points
    def link_ports(self, c):
        return [(k, "efficiency" if k == "bus1" else "efficiency" + k[3:]) for k in c.attrs if k.startswith("bus") and k != "bus0" and c.attrs[k]]

    def set_injection(self, i, kind="p"):
        inj = dict.fromkeys(self.bus, 0.0)
        for cls in ONEPORTS:
            for c in self.all(cls):
                if c.get("active"):
                    inj[c.get("bus")] += c.get("sign") * c.get(kind + "_set", i)
        if kind == "p":
            for c in self.all("Link"):
                if c.get("active"):
                    p = c.get("p_set", i)
                    inj[c.get("bus0")] -= p
                    for b, e in self.link_ports(c):
                        inj[c.get(b)] += p * c.get(e, i)
        return inj

    def shunt(self, bus):
        y = 0j
        for c in self.all("ShuntImpedance"):
            if c.get("bus") == bus and c.get("active"):
                y += complex(c.get("g"), c.get("b")) * self.bus[bus].get("v_nom") ** 2
        return y

    # --- linear power flow of one island
    def z_lin(self, c):
        p = self.per_unit(c)
        return p["r_pu_eff"] if self.bus[c.get("bus0")].get("carrier") == "DC" else p["x_pu_eff"]

    def lpf(self, buses, inj, slack, branches=None):
        """(angles, {branch key: flow}) for bus injections of one island."""
        pos = {b: k for k, b in enumerate(buses)}
        br = [c for c in (self.active_branches if branches is None else branches) if c.get("bus0") in pos]
        L = np.zeros((len(buses), len(buses)))
        rhs = np.array([inj[b] for b in buses], float)
        data = []
        for c in br:
            y = 1 / self.z_lin(c)
            sh = math.radians(self.phys(c)["phase_shift"]) if c.cls == "Transformer" else 0.0
            i, j = pos[c.get("bus0")], pos[c.get("bus1")]
            # flow = y * (th_i - th_j - sh)
            L[i, i] += y
            L[j, j] += y
            L[i, j] -= y
            L[j, i] -= y
            rhs[i] += y * sh
            rhs[j] -= y * sh
            data.append((c, y, sh, i, j))
        keep = [k for k in range(len(buses)) if k != pos[slack]]
        th = np.zeros(len(buses))
        if keep:
            th[keep] = np.linalg.solve(L[np.ix_(keep, keep)], rhs[keep])
        return dict(zip(buses, th)), {c.key: y * (th[i] - th[j] - sh) for c, y, sh, i, j in data}

    # --- AC branch model
    def ac_branch(self, c, v0, v1):
        """Complex power into the branch at both ends."""
        p, u = self.phys(c), self.per_unit(c)
        y = 1 / complex(u["r_pu"], u["x_pu"])
        sh = complex(u["g_pu"], u["b_pu"]) / 2
        t0 = t1 = 1.0
        rot = 1.0
        if c.cls == "Transformer":
            rot = np.exp(1j * math.radians(p["phase_shift"]))
            if p["tap_side"] == 0:
                t0 = p["tap_ratio"]
            else:
                t1 = p["tap_ratio"]
        # ideal transformers: w0 = v0 / (t0 * rot), w1 = v1 / t1
        w0, w1 = v0 / (t0 * rot), v1 / t1
        i0 = (w0 - w1) * y + w0 * sh
        i1 = (w1 - w0) * y + w1 * sh
        return w0 * np.conj(i0), w1 * np.conj(i1)
