"""C06: Kirchhoff's voltage law in optimised networks."""
import numpy as np

from harness import gen, net, refopt, solcheck
from harness.core import Test, Violation
from checks.common import compare_fn, var_values

MESH = gen.O(buses=(2, 5), T=(1, 3), lines=(2, 6), trafos=True, dc=30, par=30, gens=(0, 1), loads=(0, 1), links=(0, 1), storage=(0, 0), ext=10,
             inactive=10, series=25, shed=95, dump=50, mod=0)
MESHM = gen.O(buses=(3, 4), lines=(3, 6), trafos=False, dc=20, par=30, gens=(0, 1), loads=(0, 1), links=(0, 0), ext=10, inactive=5, series=15,
              shed=100, dump=50, mod=0, periods=100)


def cycles(spec, n, M, x, ref):
    S = M.S
    for t in S.sns:
        brs = [c for cls in ("Line", "Transformer") for c in S.all(cls) if S.active(c, t)]
        parent = {b: b for b in S.bus}

        def find(b):
            while parent[b] != b:
                b = parent[b]
            return b

        for c in brs:
            a, b = find(c.get("bus0")), find(c.get("bus1"))
            if a == b:
                return any(abs(v) > 1e-4 for cls in ("Line", "Transformer") for d in var_values(M, x, cls, "s").values() for v in d.values())
            parent[a] = b
    return False


def angles(spec, ctx, n, M, x, ref):
    """Reported voltage angles reproduce the flows; the linear power flow does too."""
    S = M.S
    if spec.get("periods"):
        return
    V = solcheck.View(n)
    branches = [c for cls in ("Line", "Transformer") for c in S.all(cls) if c.get("active")]
    if branches:
        for t in S.sns:
            scale = 1 + sum(abs(V("Bus", "p", b, t)) for b in S.bus)
            for c in branches:
                xx, rr = S.z_eff(c)
                z = xx if S.bus[c.get("bus0")].get("carrier") == "AC" else rr
                dv = V("Bus", "v_ang", c.get("bus0"), t) - V("Bus", "v_ang", c.get("bus1"), t)
                p0 = V(c.cls, "p0", c.name, t)
                if abs(dv / z - p0) > 1e-4 * scale:
                    raise Violation(f"{c.cls} {c.name!r} at {t}: angle difference {dv} over impedance {z} gives {dv / z}, reported flow {p0}")
    n.generators_t.p_set = n.generators_t.p.copy()
    n.storage_units_t.p_set = n.storage_units_t.p.copy()
    n.stores_t.p_set = n.stores_t.p.copy()
    n.links_t.p_set = n.links_t.p0.copy()
    before = {(c.cls, c.name, t): V(c.cls, "p0", c.name, t) for c in branches for t in S.sns}
    n.lpf()
    V = solcheck.View(n)
    for (cls, name, t), p in before.items():
        q = V(cls, "p0", name, t)
        if abs(p - q) > 1e-4 * (1 + abs(p)) + 1e-3:
            raise Violation(f"{cls} {name!r} at {t}: optimised flow {p}, linear power flow {q}")


TESTS = [
    Test("mesh", lambda: gen.networks(MESH), compare_fn(cycles, angles), 110, 4000,
         "meshed AC/DC networks with parallel lines, transformers, several voltage levels, inactive branches; optimum compared with an angle-based formulation, reported angles and a subsequent linear power flow compared with the flows; non-trivial: a cycle with non-zero flow exists"),
    Test("periods", lambda: gen.networks(MESHM), compare_fn(cycles), 35, 1200,
         "meshed networks whose topology changes between investment periods; non-trivial: a cycle with non-zero flow in some period"),
]
