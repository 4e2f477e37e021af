"""C13: marginal prices and shadow prices."""
import copy

import numpy as np

from harness import gen
from harness.core import Test, Violation
from checks.common import compare_fn
from harness.solcheck import View

O1 = gen.O(buses=(1, 3), T=(1, 4), storage=(0, 1), stores=(0, 1), links=(0, 2), lines=(0, 3), ext=30, mod=0, inactive=8, series=30, gens=(0, 2), weights=65,
           ramp=10, esum=10, shed=75, dump=40)
OM = gen.O(buses=(1, 2), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 1), ext=40, mod=0, globals=50, growth=10, periods=100, inactive=6,
           series=20, gens=(1, 2))
OG = gen.O(buses=(1, 3), T=(1, 4), storage=(0, 1), stores=(0, 1), links=(0, 1), lines=(0, 2), ext=50, mod=0, globals=90, busnom=10, inactive=5, series=20, gens=(1, 2), weights=60, loads=(1, 2), shed=97, dump=70, carriers=["gas", "wind"])

BOX = 1e5


def shifted(M, k, d_lo, d_hi):
    M2 = copy.copy(M)
    M2.rows = list(M.rows)
    d, lo, hi, tag = M.rows[k]
    M2.rows[k] = (d, lo + d_lo, hi + d_hi, tag)
    return M2


def subgradient(M, V, k, y, what, sides=(1, 1)):
    """y is a subgradient of the optimal cost with respect to the right-hand side of row k."""
    seen = 0
    for delta in (0.125, -0.125, 2.0, -2.0):
        st, v, _ = shifted(M, k, delta * sides[0], delta * sides[1]).solve()
        if st == "infeasible":
            continue
        if st != "optimal":
            return seen
        seen += 1
        tol = 1e-5 * (abs(V) + abs(v)) + 1e-4
        if v < V + y * delta - tol:
            raise Violation(f"{what}: shifting the right-hand side by {delta} changes the optimal cost from {V} to {v}, "
                            f"which contradicts the reported shadow price ({y} per unit of objective)")
    return seen


def lagrangian(M, y):
    """Optimum of the problem with the rows in y (index -> multiplier) priced instead of imposed."""
    M2 = copy.copy(M)
    M2.obj = list(M.obj)
    M2.rows = [r for k, r in enumerate(M.rows) if k not in y]
    const = 0.0
    for k, m in y.items():
        d, lo, hi, _ = M.rows[k]
        for i, a in d.items():
            M2.obj[i] -= m * a
        b = lo if lo == hi else hi if np.isfinite(hi) else lo
        const += m * b
    M2.lb = [max(v, -BOX) for v in M.lb]
    M2.ub = [min(v, BOX) for v in M.ub]
    st, v, _ = M2.solve()
    return st, (v + const if st == "optimal" else None)


def check(spec, ctx, n, M, x, ref):
    if M.quad or any(M.integer):
        return
    V = View(n)
    y = {}
    informative = 0
    for k, (d, lo, hi, tag) in enumerate(M.rows):
        if isinstance(tag, tuple) and tag[0] == "balance":
            lam = V("Bus", "marginal_price", tag[1], tag[2])
            if not np.isfinite(lam):
                raise Violation(f"price of bus {tag[1]!r} at {tag[2]} is {lam}")
            # one more unit of load: injections + delta
            y[k] = lam * M.S.wobj(tag[2])
            informative += subgradient(M, ref, k, y[k], f"price {lam} of bus {tag[1]!r} at snapshot {tag[2]}") and abs(lam) > 1e-6
        elif isinstance(tag, tuple) and tag[0] == "global":
            mu = float(n.global_constraints.at[tag[1], "mu"])
            if not np.isfinite(mu):
                raise Violation(f"global constraint {tag[1]!r} has shadow price {mu}")
            y[k] = mu
            if hi < np.inf and lo == -np.inf and mu > 1e-5 or lo > -np.inf and hi == np.inf and mu < -1e-5:
                raise Violation(f"global constraint {tag[1]!r} ({lo}..{hi}) has shadow price {mu} of the wrong sign")
            if subgradient(M, ref, k, mu, f"global constraint {tag[1]!r}") and abs(mu) > 1e-6:
                ctx.label("binding-global")
                ctx.note = True
    st, v = lagrangian(M, y)
    if st == "optimal":
        scale = abs(ref) + sum(abs(m) * 100 for m in y.values())
        if v < ref - 2e-5 * scale - 1e-3:
            raise Violation(f"the reported prices do not support the dispatch: at these prices some component earns {ref - v} more by another dispatch within its limits")
    elif st in ("unbounded", "infeasible"):
        raise Violation(f"priced problem is {st}")
    ctx.nt = informative


def run_prices(spec, ctx):
    ctx.nt = 0
    compare_fn(lambda *a: ctx.nt > 0, check)(spec, ctx)


def run_globals(spec, ctx):
    ctx.nt = 0
    compare_fn(lambda *a: bool(ctx.note), check)(spec, ctx)


def check_all(spec, ctx, n, M, x, ref):
    """assign_all_duals: shadow prices of the dispatch limits of fixed components."""
    V = View(n)
    pos = {}
    for k, (d, lo, hi, tag) in enumerate(M.rows):
        if tag in ("p-bounds", "s-bounds", "e-bounds") and len(d) == 1 and np.isfinite(lo) and np.isfinite(hi):
            pos[next(iter(d))] = k
    for key, i in M.v.items():
        if i not in pos or len(key) != 4:
            continue
        cls, name, attr, t = key
        up, low = V(cls, "mu_upper", name, t), V(cls, "mu_lower", name, t)
        k = pos[i]
        subgradient(M, ref, k, up, f"mu_upper of {cls} {name!r} at {t}", (0, 1)) if M.rows[k][2] - M.rows[k][1] > 2.1 else None
        subgradient(M, ref, k, low, f"mu_lower of {cls} {name!r} at {t}", (1, 0)) if M.rows[k][2] - M.rows[k][1] > 2.1 else None
        if abs(up) + abs(low) > 1e-6:
            ctx.nt += 1
    check(spec, ctx2(ctx), n, M, x, ref)


class ctx2:
    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, k):
        return getattr(self.ctx, k)


def run_all(spec, ctx):
    ctx.nt = 0
    compare_fn(lambda *a: ctx.nt > 0, check_all, kw={"assign_all_duals": True})(spec, ctx)


TESTS = [
    Test("prices", lambda: gen.networks(O1), run_prices, 60, 3000,
         "linear networks; each nodal price against the optimal cost with perturbed load and jointly by Lagrangian duality; non-trivial: a non-zero price with a feasible perturbation"),
    Test("periods", lambda: gen.networks(OM), run_prices, 25, 1500, "the same with investment periods and global constraints"),
    Test("globals", lambda: gen.networks(OG), run_globals, 40, 2000,
         "global constraints; shadow prices against perturbed right-hand sides; non-trivial: a non-zero shadow price"),
    Test("alldual", lambda: gen.networks(O1), run_all, 25, 1500,
         "assign_all_duals: shadow prices of dispatch and flow limits against perturbed limits; non-trivial: a non-zero one"),
]
