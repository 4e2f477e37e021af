#!/usr/bin/env python3
"""Run one check:  run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken.  Other exits: harness error.
"""
import argparse
import collections
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def worker_env(seed, shard, scratch, hashseed=None):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "VERIF_REPO")}
    env.setdefault("HOME", scratch)
    env.update(
        MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
        PYTHONHASHSEED=str(hashseed if hashseed is not None else (seed * 8191 + shard * 131) % 4294967295),
        TMPDIR=scratch, MPLCONFIGDIR=scratch, XDG_CACHE_HOME=scratch, XDG_CONFIG_HOME=scratch,
        PYTHONUNBUFFERED="1", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, ".hypothesis"),
        VERIF_SEED=str(seed),
    )
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default=None, help="comma separated test names (development)")
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{args.cid}_")
    procs = []
    try:
        sys.path.insert(0, HERE)
        from harness import boot

        hyp = boot.prepare(os.path.join(scratch, "hyp"))
        if args.replay:
            return run_replay(args, scratch, hyp)
        quick = args.tier == "quick"
        soft = 330.0 if quick else 3 * 3600.0
        hard = 800.0 if quick else 5 * 3600.0
        for s in range(args.shards):
            d = os.path.join(scratch, f"s{s}")
            os.makedirs(d)
            cmd = [PY, os.path.join(HERE, "harness", "worker.py"), args.cid, "--tier", args.tier, "--seed",
                   str(args.seed), "--shard", str(s), "--nshards", str(args.shards), "--out", scratch,
                   "--hyp", hyp, "--soft", str(soft), "--scale", str(args.scale)]
            if args.only:
                cmd += ["--only", args.only]
            log = open(os.path.join(scratch, f"log{s}"), "wb")
            procs.append(subprocess.Popen(cmd, cwd=d, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                                          env=worker_env(args.seed, s, d)))
            pin(procs[-1].pid, s)
        grace = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.2)
            now = time.time()
            if now - t0 > hard:
                break
            found = False
            for s in range(args.shards):
                r = load(scratch, s)
                v = r and r.get("violation")
                if v:
                    found = True
                    if v.get("final"):
                        grace = 0
            if found and grace is None:
                grace = now + (75 if quick else 300)
            if found and now > (grace or 0):
                break
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        results = [load(scratch, s) for s in range(args.shards)]
        return conclude(args, results, procs, scratch, time.time() - t0)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def pin(pid, s):
    """One core per shard: HiGHS starts a spinning thread per visible core."""
    try:
        cores = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(pid, {cores[s % len(cores)]})
    except OSError:
        pass


def load(scratch, s):
    try:
        with open(os.path.join(scratch, f"res{s}.json")) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def conclude(args, results, procs, scratch, wall):
    viol = [r["violation"] for r in results if r and r.get("violation")]
    known = [k for r in results if r for k in r.get("known", [])]
    tests = {}
    for r in results:
        for name, st in (r or {}).get("tests", {}).items():
            t = tests.setdefault(name, {"evaluations": 0, "nt": set(), "labels": collections.Counter(), "samples": [], "rule": st["rule"]})
            t["evaluations"] += st["evaluations"]
            t["nt"].update(st["nontrivial"])
            t["labels"].update(st["labels"])
            t["samples"] += st["samples"]
    samples = []
    for name, t in tests.items():
        for smp in t["samples"][:1] if len(tests) > 3 else t["samples"][:2]:
            samples.append({"test": name, **smp})
    evidence = {
        "property": args.cid, "tier": args.tier if args.tier in ("quick", "thorough") else "quick", "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in tests.values()),
            "distinct_nontrivial": sum(len(t["nt"]) for t in tests.values()),
            "rule": " | ".join(f"{n}: {t['rule']}" for n, t in tests.items()),
            "samples": samples,
            "per_test": {n: {"evaluations": t["evaluations"], "distinct_nontrivial": len(t["nt"]), "classes": dict(sorted(t["labels"].items()))} for n, t in tests.items()},
            "shards": args.shards,
            "truncated_by_time": any((r or {}).get("truncated") for r in results),
            "hung_shards": sum(hang(scratch, s) for s in range(args.shards)),
        },
        "assumptions": ["PyPSA is imported from " + os.environ.get("VERIF_REPO", "/repo") + "; HiGHS (scipy/highspy) is trusted as LP/MILP/QP solver"],
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    if not args.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{args.cid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={args.cid} {k['what']}")
    for n, t in tests.items():
        print(f"{args.cid}.{n}: evaluations={t['evaluations']} distinct_nontrivial={len(t['nt'])}")
        if args.v:
            for k, c in sorted(t["labels"].items()):
                print(f"    {k}: {c}")
    print(f"wall {wall:.1f}s")
    if viol:
        v = sorted(viol, key=lambda v: (not v.get("final"), v["size"]))[0]
        path = save_replay(args.cid, v)
        print(f"test: {v['test']}\n{v['msg']}")
        if args.v:
            print(json.dumps(v["spec"]))
            print(v.get("tb"))
        print(f"VIOLATION property={args.cid} replay={path}")
        return 1
    hung = [s for s in range(args.shards) if hang(scratch, s)]
    for s in hung:
        print(f"note: shard {s} stopped early, one case did not return within the time allowed")
    errs = [(s, r["error"] if r else None) for s, r in enumerate(results) if s not in hung and (not r or r.get("error") or not r.get("done"))]
    if len(hung) > len(procs) // 2:
        errs.append((hung[0], "most shards hang"))
    if errs:
        s, e = errs[0]
        print(f"HARNESS ERROR in shard {s} (exit {procs[s].returncode}):\n{e}", file=sys.stderr)
        try:
            with open(os.path.join(scratch, f"log{s}"), errors="replace") as f:
                print(f.read()[-1500:], file=sys.stderr)
        except OSError:
            pass
        return 2
    return 0


def hang(scratch, s):
    """The shard was ended by its own watchdog (a solver that never returns)."""
    try:
        with open(os.path.join(scratch, f"log{s}"), errors="replace") as f:
            return "\nTimeout (" in f.read()
    except OSError:
        return False


def save_replay(cid, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": cid, "test": v["test"], "spec": v["spec"], "hashseed": v.get("hashseed"), "msg": v["msg"]}
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{cid}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def run_replay(args, scratch, hyp):
    path = os.path.abspath(args.replay)
    with open(path) as f:
        rep = json.load(f)
    p = subprocess.run(
        [PY, os.path.join(HERE, "harness", "worker.py"), args.cid, "--out", scratch, "--hyp", hyp, "--replay", path],
        cwd=scratch, env=worker_env(args.seed, 0, scratch, rep.get("hashseed")), capture_output=not args.v,
    )
    r = load(scratch, 0)
    if r is None or r.get("error"):
        print("HARNESS ERROR", r and r["error"], file=sys.stderr)
        return 2
    if r.get("violation"):
        print(r["violation"]["msg"])
        print(f"VIOLATION property={args.cid} replay={path}")
        return 1
    print("replay: property holds on this case")
    return 0


if __name__ == "__main__":
    sys.exit(main())
