"""C30: imported grid cases solve to the same power flow as their source."""
import copy
import importlib
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness.core import Test, Violation
from harness.gen import D
from harness.pfgen import fine

LIBRARY = ["case4gs", "case6ww", "case9", "case14", "case24_ieee_rts", "case30", "case39", "case57"]


# ----- PYPOWER ---------------------------------------------------------------
@st.composite
def ppc_specs(draw):
    d = D(draw)
    if d.p(15):
        return {"library": d.pick(LIBRARY), "edits": [[d.pick(["load", "tap", "shift", "b", "gs", "bs", "pg", "rate"]), d.int(0, 60), d.int(0, 9)] for _ in range(d.int(0, 6))],
                "overwrite": d.pick([100.0, 37.0])}
    nb = d.int(2, 8)
    numbers = [3, 1, 7, 12, 4, 100, 25, 8][:nb] if d.p(50) else list(range(1, nb + 1))
    base = d.pick([100.0, 100.0, 10.0, 1.0])
    scale = base / 100.0
    kv = [110.0]
    for i in range(1, nb):
        kv.append(kv[0] if d.p(65) else d.pick([20.0, 220.0, 380.0]))
    if d.p(8):
        kv = [0.0] * nb
    ref = d.int(0, nb - 1)
    bus, gen, branch = [], [], []
    for i in range(nb):
        t = 3 if i == ref else d.pick([1, 1, 2])
        load = d.p(70)
        bus.append([numbers[i], t, fine(d, 0, 40) * scale if load else 0.0, fine(d, -5, 15) * scale if load and d.p(80) else 0.0,
                    fine(d, 0, 6) * scale if d.p(20) else 0.0, fine(d, -10, 10) * scale if d.p(25) else 0.0, 1, 1.0, 0.0, kv[i], 1, 1.06, 0.94])
        k = d.pick([1, 1, 2]) if t == 3 else d.pick([0, 1, 1, 2]) if t == 2 else d.pick([0, 0, 0, 1])
        v = fine(d, 0.97, 1.05)
        for _ in range(k):
            gen.append([numbers[i], fine(d, 0, 40) * scale, fine(d, -5, 10) * scale if t == 1 else 0.0, 100.0, -100.0, v if d.p(90) or t != 1 else 1.0, base, 1, 80.0 * scale, 0.0] + [0.0] * 11)
    if d.p(50):
        gen = [gen[i] for i in d.draw(st.permutations(range(len(gen))))]
    pairs = []
    for i in range(1, nb):
        j = d.int(0, i - 1)
        pairs.append((i, j) if d.p(50) else (j, i))
    for _ in range(d.int(0, 4)):
        i, j = d.int(0, nb - 1), d.int(0, nb - 1)
        if i != j:
            pairs.append((i, j))
    overwrite = d.pick([None, 100.0, 37.0])
    for i, j in pairs:
        x = fine(d, 0.02, 0.2)
        trafo = kv[i] != kv[j]
        ratio = d.pick([0.0, 0.0, 1.0, 0.95, 1.05, 0.9]) if trafo or d.p(20) else 0.0
        shift = d.pick([1.0, -2.0, 5.0, 10.0]) if d.p(15) else 0.0
        trafo = trafo or ratio not in (0.0, 1.0) or shift != 0.0
        rate = d.pick([50.0, 120.0, 7.5])
        if d.p(25) and (overwrite is not None or not trafo):
            rate = 0.0
        branch.append([numbers[i], numbers[j], fine(d, 0, 0.5) * x, x, fine(d, 0, 0.1) if d.p(50) else 0.0, rate, 0.0, 0.0, ratio, shift, 1, -360.0, 360.0])
    return {"base": base, "bus": bus, "gen": gen, "branch": branch, "overwrite": overwrite}


def make_ppc(spec):
    if "library" not in spec:
        return {"version": "2", "baseMVA": spec["base"], "bus": np.array(spec["bus"], float), "gen": np.array(spec["gen"], float), "branch": np.array(spec["branch"], float)}
    ppc = getattr(importlib.import_module("pypower." + spec["library"]), spec["library"])()
    ppc["bus"], ppc["gen"], ppc["branch"] = ppc["bus"].astype(float), ppc["gen"].astype(float), ppc["branch"].astype(float)
    ppc["bus"][:, 7], ppc["bus"][:, 8] = 1.0, 0.0
    for k, i, v in spec["edits"]:
        b, g, br = ppc["bus"], ppc["gen"], ppc["branch"]
        if k == "load":
            b[i % len(b), 2] *= 0.6 + 0.06 * v
        elif k == "gs":
            b[i % len(b), 4] = 0.5 * v
        elif k == "bs":
            b[i % len(b), 5] = 1.0 * v - 3
        elif k == "pg":
            g[i % len(g), 1] *= 0.7 + 0.05 * v
        elif k == "tap":
            br[i % len(br), 8] = 0.95 + 0.01 * v
        elif k == "shift":
            br[i % len(br), 9] = v - 4.0
        elif k == "rate":
            br[i % len(br), 5] = 10.0 * v
        else:
            br[i % len(br), 4] += 0.01 * v
    return ppc


def run_ppc(spec, ctx):
    import pypsa
    from pypower.api import ppoption, runpf

    ppc = make_ppc(spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r, ok = runpf(copy.deepcopy(ppc), ppoption(VERBOSE=0, OUT_ALL=0))
        except Exception:  # the source itself cannot solve the case
            ctx.label("source-fails")
            return ctx.nontrivial(False)
    V, ang = r["bus"][:, 7], r["bus"][:, 8]
    sane = ok and V.min() > 0.8 and V.max() < 1.2 and np.ptp(ang) < 100
    ctx.label("library" if "library" in spec else "generated")
    if not sane:
        ctx.label("source-not-converged" if not ok else "source-extreme")
        return ctx.nontrivial(False)
    before = copy.deepcopy(ppc)
    n = pypsa.Network()
    n.import_from_pypower_ppc(ppc, overwrite_zero_s_nom=spec["overwrite"])
    for k in ("bus", "gen", "branch"):
        if not np.array_equal(ppc[k], before[k]):
            raise Violation(f"the import changed the {k} table of the case")
    sizes = {"buses": len(ppc["bus"]), "generators": len(ppc["gen"]), "branches": len(ppc["branch"]), "loads": int((ppc["bus"][:, 2:4] != 0).any(axis=1).sum()),
             "shunt_impedances": int((ppc["bus"][:, 4:6] != 0).any(axis=1).sum())}
    got = {"buses": len(n.buses), "generators": len(n.generators), "branches": len(n.lines) + len(n.transformers), "loads": len(n.loads), "shunt_impedances": len(n.shunt_impedances)}
    if sizes != got:
        raise Violation(f"imported {got} from a case with {sizes}")
    res = n.pf()
    if not np.all(res["converged"]):
        n.lpf()
        res = n.pf(use_seed=True)
        if not np.all(res["converged"]):
            raise Violation("the power flow of the imported case does not converge, PYPOWER solves it")
    names = [str(int(i)) for i in ppc["bus"][:, 0]]
    ref = int(np.flatnonzero(r["bus"][:, 1] == 3)[0])
    vm, va = n.buses_t.v_mag_pu.iloc[0], np.degrees(n.buses_t.v_ang.iloc[0])
    size = 1.0 + np.abs(ppc["bus"][:, 2:6]).sum() + np.abs(r["gen"][:, 1:3]).sum()
    for i, b in enumerate(names):
        if not abs(vm[b] - V[i]) < 1e-5:
            raise Violation(f"voltage at bus {b}: {vm[b]}, PYPOWER: {V[i]}")
        a = (va[b] - (ang[i] - ang[ref])) % 360
        if not min(a, 360 - a) < 1e-3:
            raise Violation(f"angle at bus {b}: {va[b]}, PYPOWER: {ang[i] - ang[ref]}")
    seen = set()
    for cls in ("Line", "Transformer"):
        for nm, c in n.static(cls).iterrows():
            k = int(c.original_index)
            seen.add(k)
            want = r["branch"][k, 13:17]
            have = [n.dynamic(cls)[a][nm].iloc[0] for a in ("p0", "q0", "p1", "q1")]
            if not np.allclose(have, want, atol=2e-5 * size, rtol=1e-4):
                raise Violation(f"flow of branch {k} ({cls}): {have}, PYPOWER: {list(want)}")
            rate = ppc["branch"][k, 5]
            if c.s_nom != (rate if rate or spec["overwrite"] is None else spec["overwrite"]):
                raise Violation(f"rating of branch {k} is {c.s_nom}, in the case {rate} (zero is replaced by {spec['overwrite']})")
    if seen != set(range(len(ppc["branch"]))):
        raise Violation(f"branches {sorted(seen)} are imported of {len(ppc['branch'])}")
    for b in set(n.generators.bus):
        at = n.generators.index[n.generators.bus == b]
        rows = r["gen"][[str(int(x)) == b for x in r["gen"][:, 0]]]
        for a, col in (("p", 1), ("q", 2)):
            have, want = n.generators_t[a][at].iloc[0].sum(), rows[:, col].sum()
            if not abs(have - want) < 2e-5 * size + 1e-4 * abs(want):
                raise Violation(f"generators at bus {b} have {a}={have}, PYPOWER: {want}")
    for i, g in enumerate(ppc["gen"]):
        if not np.isclose(n.generators.p_nom[f"G{i}"], g[8]):
            raise Violation(f"p_nom of generator {i} is {n.generators.p_nom[f'G{i}']}, in the case {g[8]}")
    n.lpf()
    ctx.nontrivial(bool((r["branch"][:, 13] != 0).any()))


# ----- pandapower ------------------------------------------------------------
@st.composite
def net_specs(draw):
    d = D(draw)
    nb = d.int(2, 7)
    volt = [110.0] + [d.pick([110.0, 20.0, 20.0]) for _ in range(nb - 1)]
    typed = d.p(50)
    s = {"volt": volt, "shift_index": d.p(30), "extra": d.p(50), "index": d.p(30), "lines": [], "trafos": [], "loads": [], "gens": [], "sgens": [], "shunts": [], "typed": typed}
    s["ext"] = [d.int(0, nb - 1), fine(d, 0.98, 1.04)]
    pairs = []
    for i in range(1, nb):
        j = d.int(0, i - 1)
        pairs.append((i, j))
    for _ in range(d.int(0, 2)):
        i, j = d.int(0, nb - 1), d.int(0, nb - 1)
        if i != j:
            pairs.append((i, j))
    for i, j in pairs:
        if volt[i] == volt[j] and d.p(50):
            i, j = j, i
        if volt[i] == volt[j]:
            z = volt[i] ** 2 / 100.0
            s["lines"].append([i, j, fine(d, 0.5, 5), fine(d, 0.005, 0.02) * z, fine(d, 0.01, 0.04) * z, fine(d, 0, 40), fine(d, 0.2, 1.0), d.pick([1, 1, 2, 3])])
        else:
            hv, lv = (i, j) if volt[i] > volt[j] else (j, i)
            sn = d.pick([25.0, 40.0, 63.0])
            s["trafos"].append([hv, lv, sn, fine(d, 8, 14), fine(d, 0.2, 0.8), fine(d, 5, 40), fine(d, 0.05, 0.3), 0.0 if d.p(50) else d.pick([30.0, -30.0, 10.0]), d.pick([1, 1, 2])])
    for i in range(nb):
        if d.p(70):
            s["loads"].append([i, fine(d, 0, 6), fine(d, -1, 3), d.pick([1.0, 1.0, 0.5, 1.5])])
        if d.p(25) and i != s["ext"][0]:
            s["gens"].append([i, fine(d, 0, 6), fine(d, 0.98, 1.04), d.pick([1.0, 0.5])])
        if d.p(25):
            s["sgens"].append([i, fine(d, 0, 4), fine(d, -1, 1), d.pick([1.0, 0.75])])
        if d.p(25):
            s["shunts"].append([i, fine(d, 0, 0.5), fine(d, -2, 2), d.pick([1, 1, 2])])
    return s


def make_net(s):
    import pandapower as pp

    net = pp.create_empty_network(f_hz=50.0)
    off = 5 if s["shift_index"] else 0
    for i, v in enumerate(s["volt"]):
        pp.create_bus(net, v, name=f"bus {i}", index=i + off)
    bus = lambda i: i + off
    pp.create_ext_grid(net, bus(s["ext"][0]), vm_pu=s["ext"][1], name="grid")
    types = {"LineType": {}, "TransformerType": {}}
    for k, (i, j, ln, r, x, c, imax, par) in enumerate(s["lines"]):
        if s["typed"]:
            t = f"line type {k}"
            pp.create_std_type(net, {"r_ohm_per_km": r, "x_ohm_per_km": x, "c_nf_per_km": c, "max_i_ka": imax}, t, element="line")
            pp.create_line(net, bus(i), bus(j), ln, t, name=f"line {k}", parallel=par)
            types["LineType"][t] = {"f_nom": 50.0, "r_per_length": r, "x_per_length": x, "c_per_length": c, "i_nom": imax}
        else:
            pp.create_line_from_parameters(net, bus(i), bus(j), ln, r, x, c, imax, name=f"line {k}", parallel=par)
    for k, (hv, lv, sn, vk, vkr, pfe, i0, shift, par) in enumerate(s["trafos"]):
        data = {"sn_mva": sn, "vn_hv_kv": s["volt"][hv], "vn_lv_kv": s["volt"][lv], "vk_percent": vk, "vkr_percent": vkr, "pfe_kw": pfe, "i0_percent": i0, "shift_degree": shift}
        tap = {"tap_side": "hv", "tap_neutral": 0, "tap_min": -9, "tap_max": 9, "tap_step_percent": 1.5, "tap_step_degree": 0.0, "tap_changer_type": "Ratio"}
        if s["typed"]:
            t = f"trafo type {k}"
            pp.create_std_type(net, {**data, **tap}, t, element="trafo")
            pp.create_transformer(net, bus(hv), bus(lv), t, name=f"trafo {k}", parallel=par)
            types["TransformerType"][t] = {"f_nom": 50.0, "s_nom": sn, "v_nom_0": s["volt"][hv], "v_nom_1": s["volt"][lv], "vsc": vk, "vscr": vkr, "pfe": pfe, "i0": i0, "phase_shift": shift,
                                           "tap_side": 0, "tap_neutral": 0, "tap_min": -9, "tap_max": 9, "tap_step": 1.5}
        else:
            pp.create_transformer_from_parameters(net, bus(hv), bus(lv), **data, tap_pos=0, tap_neutral=0, name=f"trafo {k}", parallel=par)
    for k, (i, p, q, f) in enumerate(s["loads"]):
        pp.create_load(net, bus(i), p, q, scaling=f, name=f"load {k}")
    for k, (i, p, v, f) in enumerate(s["gens"]):
        pp.create_gen(net, bus(i), p, vm_pu=v, scaling=f, name=f"gen {k}")
    for k, (i, p, q, f) in enumerate(s["sgens"]):
        pp.create_sgen(net, bus(i), p, q, scaling=f, name=f"sgen {k}")
    for k, (i, p, q, step) in enumerate(s["shunts"]):
        pp.create_shunt(net, bus(i), q_mvar=q, p_mw=p, step=step, name=f"shunt {k}")
    return net, types


def run_net(s, ctx):
    import pandapower as pp
    import pypsa

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        net, types = make_net(s)
        try:
            pp.runpp(net, numba=False, trafo_model="t", calculate_voltage_angles=True, init="dc", tolerance_mva=1e-9)
            ok = bool(net.converged)
        except Exception:
            ok = False
        n = pypsa.Network()
        for cls, ts in types.items():
            for nm, a in ts.items():
                n.add(cls, nm, **a)
        extra = s["extra"] or not s["typed"]
        n.import_from_pandapower_net(net, extra_line_data=extra, use_pandapower_index=s["index"])
    b = lambda i: f"bus {i}"
    # components
    if list(n.buses.index) != [b(i) for i in range(len(s["volt"]))] or list(n.buses.v_nom) != s["volt"]:
        raise Violation(f"imported buses are {dict(n.buses.v_nom)}")
    vset = {b(i): 1.0 for i in range(len(s["volt"]))}
    for i, _, v, _ in s["gens"]:
        vset[b(i)] = v
    vset[b(s["ext"][0])] = s["ext"][1]
    if not np.allclose(n.buses.v_mag_pu_set, [vset[x] for x in n.buses.index]):
        raise Violation(f"voltage set points {dict(n.buses.v_mag_pu_set)}, in the grid {vset}")
    have = sorted((r.bus, r.control, round(r.p_set, 9), round(r.q_set, 9)) for r in n.generators.itertuples())
    want = sorted([(b(i), "PV", round(p * f, 9), 0.0) for i, p, _, f in s["gens"]] + [(b(i), "PQ", round(p * f, 9), round(q * f, 9)) for i, p, q, f in s["sgens"]] + [(b(s["ext"][0]), "Slack", 0.0, 0.0)])
    if have != want:
        raise Violation(f"imported generators {have}, in the grid {want}")
    have = {k: (r.bus, r.p_set, r.q_set) for k, r in n.loads.iterrows()}
    want = {f"load {k}": (b(i), p * f, q * f) for k, (i, p, q, f) in enumerate(s["loads"])}
    if have != want:
        raise Violation(f"imported loads {have}, in the grid {want}")
    for cls, key, ends in (("Line", "lines", 2), ("Transformer", "trafos", 2)):
        have = {k: (r.bus0, r.bus1) for k, r in n.static(cls).iterrows()}
        want = {f"{key[:-1]} {k}": (b(x[0]), b(x[1])) for k, x in enumerate(s[key])}
        if have != want:
            raise Violation(f"imported {key} {have}, in the grid {want}")
    if extra:
        for k, (i, j, ln, r, x, c, imax, par) in enumerate(s["lines"]):
            top = np.sqrt(3) * s["volt"][i] * imax * par
            if not np.isclose(n.lines.s_nom[f"line {k}"], top):
                raise Violation(f"rating of line {k} is {n.lines.s_nom[f'line {k}']} MVA, in the grid {top}")
    have = dict(n.shunt_impedances.bus)
    if have != {f"shunt {k}": b(x[0]) for k, x in enumerate(s["shunts"])}:
        raise Violation(f"imported shunts at {have}")
    if not ok or net.res_bus.vm_pu.min() < 0.85 or net.res_bus.vm_pu.max() > 1.15:
        ctx.label("source-not-converged")
        return ctx.nontrivial(False)
    n.lpf()
    res = n.pf(use_seed=True, x_tol=1e-9)
    if not np.all(res["converged"]):
        raise Violation("the power flow of the imported grid does not converge, pandapower solves it")
    vm, va = n.buses_t.v_mag_pu.iloc[0].to_numpy(), np.degrees(n.buses_t.v_ang.iloc[0].to_numpy())
    wm, wa = net.res_bus.vm_pu.to_numpy(), net.res_bus.va_degree.to_numpy()
    if not np.allclose(vm, wm, atol=1e-5):
        raise Violation(f"voltages {vm}, pandapower: {wm}")
    diff = (va - wa + 180) % 360 - 180
    if not np.allclose(diff, 0, atol=1e-2):
        raise Violation(f"angles {va}, pandapower: {wa}")
    for cls, key, tab, cols in (("Line", "lines", net.res_line, ["p_from_mw", "q_from_mvar", "p_to_mw", "q_to_mvar"]), ("Transformer", "trafos", net.res_trafo, ["p_hv_mw", "q_hv_mvar", "p_lv_mw", "q_lv_mvar"])):
        for k in range(len(s[key])):
            have = [n.dynamic(cls)[a][f"{key[:-1]} {k}"].iloc[0] for a in ("p0", "q0", "p1", "q1")]
            want = tab.iloc[k][cols].to_numpy(float)
            if not np.allclose(have, want, atol=2e-3, rtol=1e-3):
                raise Violation(f"flow of {key[:-1]} {k}: {have}, pandapower: {list(want)}")
    ctx.nontrivial(bool(s["loads"] or s["gens"] or s["sgens"] or s["shunts"]))


TESTS = [
    Test("pypower", ppc_specs, run_ppc, 240, 12000, "generated and edited library PYPOWER cases solved by both programs; non-trivial: PYPOWER solves the case with voltages within 0.8-1.2"),
    Test("pandapower", net_specs, run_net, 120, 6000, "generated pandapower grids with and without standard types solved by both programs; non-trivial: pandapower solves it and something is attached"),
]
