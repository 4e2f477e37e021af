"""C07: unit commitment."""
from harness import gen, net, refopt, solcheck
from harness.core import Test, Violation
from checks.common import compare_fn, label_spec, var_values


def switches(spec, n, M, x, ref):
    for cls in ("Generator", "Link"):
        for name, v in var_values(M, x, cls, "status").items():
            if len({round(u) for u in v.values()}) > 1:
                return True
    return False


def uc(spec, ctx, n, M, x, ref):
    solcheck.check_uc_outputs(M.S, n)
    if any(k[2] == "status" for k in M.v if len(k) == 4):
        ctx.label("has-committable")


def relaxation(spec, ctx):
    """The linearised problem costs at most the integer one, at least the plain LP relaxation."""
    label_spec(spec, ctx)
    Mi = refopt.build(spec)
    Ml = refopt.build(spec, linearized=True)
    if not any(k[0] != "theta" and len(k) == 4 for k in Mi.v):
        return
    si, vi, _ = Mi.solve()
    sl, vl, _ = Ml.solve()
    if sl != "optimal":
        return
    n = net.build(spec)
    try:
        got = solcheck.optimize(n, spec, linearized_unit_commitment=True)
    except ValueError as e:
        if "Objective function could not be created" in str(e) or "nodal balance" in str(e):
            return
        raise
    if si != "optimal":
        ctx.label("integer-problem:" + si)
        return
    if got != "optimal":
        raise Violation(f"the integer problem has cost {vi}, but its linear relaxation ends with '{got}'")
    x = solcheck.values(Ml, n)
    solcheck.check_rows(Ml, x)
    solcheck.check_outputs(Ml.S, n)
    solcheck.check_objective(Ml, n, spec, x)
    val, scale = solcheck.cost(Ml, x)
    tol = 2e-5 * scale + 1e-3
    if val > vi + tol:
        raise Violation(f"the linear relaxation costs {val}, more than the integer problem with {vi}")
    if val < vl - tol:
        raise Violation(f"the linear relaxation costs {val}, less than the minimum {vl}")
    ctx.label("tight" if val > vl + tol else "loose")
    ctx.nontrivial(any(k[2] == "status" for k in Ml.v if len(k) == 4) and abs(vi) > 1e-6)


UC = gen.O(buses=(1, 2), T=(3, 6), com=75, gens=(1, 2), links=(0, 2), loads=(1, 1), ramp=15, shed=90, dump=60, ext=10, inactive=6, mod=0)
LIN = gen.O(buses=(1, 2), T=(2, 5), com=85, gens=(1, 2), links=(0, 1), loads=(1, 1), ramp=40, shed=95, dump=70, ext=5, inactive=5, mod=0, uceq=60)

TESTS = [
    Test("commitment", lambda: gen.networks(UC), compare_fn(switches, uc), 110, 4000,
         "networks with committable generators/links compared with an independent MILP incl. minimum up/down times and the state before the horizon; non-trivial: some unit changes its status in the optimum"),
    Test("linearised", lambda: gen.networks(LIN), relaxation, 60, 2000,
         "linearised commitment: between the plain LP bound and the integer optimum, results consistent; non-trivial: committable units present and non-zero cost"),
]
