"""Shared parts of the optimisation checks."""
from __future__ import annotations

from harness import gen, solcheck
from harness.core import Test


def label_spec(spec, ctx):
    for c in {c[0] for c in spec["comps"]}:
        ctx.label("has:" + c)
    flags = {
        "ext": lambda k, v: k.endswith("_nom_extendable") and v,
        "committable": lambda k, v: k == "committable" and v,
        "modular": lambda k, v: k.endswith("_nom_mod"),
        "ramp": lambda k, v: k in ("ramp_limit_up", "ramp_limit_down"),
        "inactive": lambda k, v: k == "active" and v is False,
        "series": lambda k, v: isinstance(v, list),
        "multiport": lambda k, v: k == "bus2",
        "cyclic": lambda k, v: k in ("e_cyclic", "cyclic_state_of_charge") and v,
        "sign": lambda k, v: k == "sign",
    }
    seen = set()
    for _, _, a in spec["comps"]:
        for k, v in a.items():
            for name, f in flags.items():
                if f(k, v):
                    seen.add(name)
    if spec.get("weights"):
        seen.add("weighted")
    if spec.get("periods"):
        seen.add("multi-period")
    for s in seen:
        ctx.label("feat:" + s)


def compare_fn(nontrivial=None, extra=None, kw=None, **ckw):
    """Differential check against the reference problem plus an extra check on the result."""

    def run(spec, ctx):
        label_spec(spec, ctx)
        k = dict(kw or {})
        if spec.get("periods"):
            k["multi_investment_periods"] = True
        out = solcheck.compare(spec, ctx, kw=k, **ckw)
        if out is None:
            ctx.nontrivial(False)
            return
        n, M, x, ref = out
        if extra:
            extra(spec, ctx, n, M, x, ref)
        ctx.nontrivial(abs(ref) > 1e-6 if nontrivial is None else nontrivial(spec, n, M, x, ref))

    return run


def var_values(M, x, cls, attr):
    """{name: {t: value}} of one reference variable kind."""
    out = {}
    for k, i in M.v.items():
        if k[0] == cls and len(k) == 4 and k[2] == attr:
            out.setdefault(k[1], {})[k[3]] = x[i]
    return out


def binds(M, x, tags):
    """Some row with one of the tags is active at x."""
    for d, lo, hi, tag in M.rows:
        t = tag[0] if isinstance(tag, tuple) else tag
        if t in tags:
            val = sum(a * x[i] for i, a in d.items())
            tol = 1e-4 * (1 + abs(val))
            if abs(val - lo) < tol or abs(val - hi) < tol:
                return True
    return False
