"""One shard of one check.  Runs in its own process, cwd = private scratch."""
from __future__ import annotations

import argparse
import collections
import faulthandler
import hashlib
import importlib
import json
import logging
import os
import sys
import time
import traceback
import warnings
import zlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out", required=True)
    ap.add_argument("--hyp", required=True)
    ap.add_argument("--soft", type=float, default=400.0)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    args = ap.parse_args()

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    from harness import boot

    boot.activate(args.hyp)
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)

    from harness import core
    sys.path.insert(0, core.REPO)
    import pypsa

    out = args.out
    res = {"shard": args.shard, "tests": {}, "error": None, "violation": None, "known": [], "truncated": False}

    def dump():
        tmp = os.path.join(out, f"res{args.shard}.tmp")
        with open(tmp, "w") as f:
            json.dump(res, f, default=core._default)
        os.replace(tmp, os.path.join(out, f"res{args.shard}.json"))

    try:
        if not os.path.abspath(pypsa.__file__).startswith(os.path.abspath(core.REPO) + os.sep):
            raise core.HarnessError(f"pypsa imported from {pypsa.__file__}, not {core.REPO}")
        warnings.filterwarnings("ignore")
        mod = importlib.import_module(f"checks.{args.cid.lower()}")
        if args.replay:
            replay(mod, args, core, res)
        else:
            explore(mod, args, core, res, dump)
    except BaseException as e:  # noqa: BLE001
        if not res["violation"]:
            res["error"] = "".join(traceback.format_exception(e))[-6000:]
    res["done"] = True
    dump()
    sys.stdout.flush()
    os._exit(0)


def replay(mod, args, core, res):
    with open(args.replay) as f:
        rep = json.load(f)
    test = {t.name: t for t in mod.TESTS}[rep["test"]]
    ctx = core.Ctx()
    try:
        test.fn(rep["spec"], ctx)
    except Exception as e:
        kind = core.classify_exception(e)
        if kind == "harness":
            raise
        traceback.print_exc()
        res["violation"] = {"test": test.name, "spec": rep["spec"], "msg": msg_of(e, core), "hashseed": os.environ.get("PYTHONHASHSEED")}


def msg_of(e, core):
    return str(e) if isinstance(e, core.Violation) else "unexpected failure: " + core.describe_exception(e)


CASE_LIMIT = 90  # seconds for one case: beyond, the solver hangs


class Stop(BaseException):
    pass


class Found(BaseException):
    """A failing case was found: leave Hypothesis, minimise it ourselves."""


def signature(msg):
    """Shape of a failure message: numbers and quoted names removed."""
    import re

    msg = re.sub(r"'[^']*'|\"[^\"]*\"", "'", msg)
    return re.sub(r"[-+]?[0-9.]+(e[-+]?[0-9]+)?|inf|nan", "0", msg)[:60]


def candidates(spec):
    """Smaller variants of a network spec (without dangling bus references)."""
    if "ops" in spec:
        yield from op_candidates(spec)
    if "comps" not in spec:
        return
    for c in raw_candidates(spec):
        buses = {x[1] for x in c["comps"] if x[0] == "Bus"}
        cars = {x[1] for x in c["comps"] if x[0] == "Carrier"} | {x["carrier"] for _, _, x in spec["comps"] if "carrier" in x}
        if all(v in buses or v == "" for x in c["comps"] for k, v in x[2].items() if k.startswith("bus")) and cars is not None:
            yield c


def op_candidates(spec):
    ops = spec["ops"]
    size = max(1, len(ops) // 2)
    while size >= 1:
        for i in range(0, len(ops), size):
            yield dict(spec, ops=ops[:i] + ops[i + size:])
        size //= 2
    for i, op in enumerate(ops):
        for j, arg in enumerate(op):
            if isinstance(arg, dict) and isinstance(arg.get("kw"), dict):
                for a in arg["kw"]:
                    kw = {x: y for x, y in arg["kw"].items() if x != a}
                    yield dict(spec, ops=ops[:i] + [op[:j] + [{**arg, "kw": kw}] + op[j + 1:]] + ops[i + 1:])


def raw_candidates(spec):
    comps = spec["comps"]
    k = len(comps)
    size = max(1, k // 2)
    while size >= 1:
        for i in range(0, k, size):
            yield dict(spec, comps=comps[:i] + comps[i + size:])
        size //= 2
    for key in ("weights", "pweights"):
        if spec.get(key):
            yield {a: b for a, b in spec.items() if a != key}
    for i, (cls, name, attrs) in enumerate(comps):
        for a in attrs:
            if a.startswith("bus") or a == "type":
                continue
            yield dict(spec, comps=comps[:i] + [[cls, name, {x: y for x, y in attrs.items() if x != a}]] + comps[i + 1:])
            if isinstance(attrs[a], list):
                vals = [v for v in attrs[a] if v is not None]
                if vals and len(vals) == len(attrs[a]):
                    yield dict(spec, comps=comps[:i] + [[cls, name, {**attrs, a: vals[0]}]] + comps[i + 1:])


def minimise(test, fail, core, seconds):
    """Greedy reduction that keeps the kind of failure."""
    t0 = time.time()
    sig = signature(fail["msg"])
    progress = True
    while progress and time.time() - t0 < seconds:
        progress = False
        for cand in candidates(fail["spec"]):
            if time.time() - t0 > seconds:
                break
            js = core.dumps(cand)
            if len(js) >= fail["size"]:
                continue
            try:
                test.fn(json.loads(js), core.Ctx())
            except Exception as e:
                try:
                    if core.classify_exception(e) == "harness":
                        continue
                    msg = msg_of(e, core)
                except Exception:
                    continue
                if signature(msg) == sig:
                    fail = dict(fail, spec=cand, msg=msg, size=len(js), tb="".join(traceback.format_exception(e))[-3000:])
                    progress = True
                    break
    return fail


def explore(mod, args, core, res, dump):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 60 if args.tier == "quick" else 240
    t0 = time.time()

    # known findings: replay each listed case on shard 0
    if args.shard == 0:
        for kf in load_known(args.cid):
            test = {t.name: t for t in mod.TESTS}.get(kf["test"])
            if test is None:
                raise core.HarnessError(f"known finding names unknown test {kf['test']}")
            try:
                test.fn(kf["spec"], core.Ctx())
            except Exception as e:
                if core.classify_exception(e) == "harness":
                    raise
                res["known"].append({"what": kf["what"], "id": kf["id"], "msg": msg_of(e, core)[:300]})

    for test in mod.TESTS:
        if args.only and test.name not in args.only.split(","):
            continue
        total = test.quick if args.tier == "quick" else test.thorough
        total = max(1, int(total * args.scale))
        k = total // args.nshards + (1 if args.shard < total % args.nshards else 0)
        if k == 0:
            continue
        st = {
            "evaluations": 0, "nontrivial": [], "labels": collections.Counter(), "samples": [],
            "rule": test.rule, "raised": 0, "wall": 0.0,
        }
        res["tests"][test.name] = st
        state = {"fail": None, "n": 0}
        last = [time.time()]
        seen = set()
        tstart = time.time()

        def one(spec, st=st, state=state, seen=seen, test=test):
            if state["fail"] is None and time.time() - t0 > args.soft:
                res["truncated"] = True
                return
            ctx = core.Ctx()
            js = core.dumps(spec)
            spec = json.loads(js)
            st["evaluations"] += 1
            if time.time() - last[0] > 4:
                last[0] = time.time()
                dump()
            try:
                faulthandler.dump_traceback_later(CASE_LIMIT, exit=True)
                try:
                    test.fn(spec, ctx)
                finally:
                    faulthandler.cancel_dump_traceback_later()
            except hypothesis.errors.UnsatisfiedAssumption:
                raise
            except Exception as e:
                if core.classify_exception(e) == "harness":
                    raise Stop("".join(traceback.format_exception(e))) from None
                msg = msg_of(e, core)
                f = state["fail"]
                if f is None or len(js) <= f["size"]:
                    state["fail"] = {
                        "test": test.name, "spec": spec, "msg": msg, "size": len(js),
                        "hashseed": os.environ.get("PYTHONHASHSEED"),
                        "tb": "".join(traceback.format_exception(e))[-3000:],
                    }
                    res["violation"] = dict(state["fail"], final=False)
                    dump()
                if isinstance(spec, dict) and ("comps" in spec or "ops" in spec):
                    raise Found() from None
                raise
            if state["fail"] is not None:
                return
            h = hashlib.sha1(js.encode()).hexdigest()[:16]
            for lb in ctx.labels:
                st["labels"][lb] += 1
            if ctx.is_nontrivial and h not in seen:
                seen.add(h)
                st["nontrivial"].append(h)
                if len(st["samples"]) < 3 and len(js) < 6000:
                    st["samples"].append({"spec": spec, "labels": sorted(set(ctx.labels))})

        run = settings(
            max_examples=k, database=None, deadline=None, derandomize=False,
            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
            phases=[Phase.generate, Phase.shrink], print_blob=False,
        )(given(test.strategy())(lambda spec: one(spec)))
        run = hypothesis.seed(
            args.seed * 1000003 + args.shard * 10007 + zlib.crc32((args.cid + test.name).encode())
        )(run)
        try:
            run()
        except Stop as e:
            raise core.HarnessError(str(e)) from None
        except Found:
            state["fail"] = minimise(test, state["fail"], core, 45 if args.tier == "quick" else 150)
        except BaseException:
            if state["fail"] is None:
                raise
        st["wall"] = time.time() - tstart
        if state["fail"] is not None:
            res["violation"] = dict(state["fail"], final=True)
            dump()
            return
        dump()


def load_known(cid):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = os.path.join(here, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == cid]


if __name__ == "__main__":
    main()
