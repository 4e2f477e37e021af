"""Basic vocabulary of the checks: violations, cases, tests."""
from __future__ import annotations

import json
import math
import os
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation."""


class Ctx:
    """Per-case context: classification labels and the non-triviality flag."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.note = None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else str(msg))


class Test:
    """A generated check: strategy -> spec (plain JSON data) -> fn(spec, ctx)."""

    def __init__(self, name, strategy, fn, quick, thorough, rule):
        self.name = name
        self.strategy = strategy  # zero-argument callable returning a strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


def close(a, b, rtol=1e-5, atol=1e-5):
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def dumps(spec):
    return json.dumps(spec, sort_keys=True, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(type(o))


def classify_exception(exc):
    """'violation' or 'harness' for an exception escaping a case."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, (HarnessError, MemoryError, ImportError, OSError)) and not _has_repo_frame(exc):
        return "harness"
    if _has_repo_frame(exc):
        return "violation"
    frames = [f.filename for f in traceback.extract_tb(exc.__traceback__)]
    if any(os.sep + "harness" + os.sep in f and not f.endswith(("worker.py", "core.py", "view.py", "solcheck.py")) for f in frames):
        return "harness"
    # the check could not read the results it expects: malformed output
    return "violation"


def _has_repo_frame(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for f in traceback.extract_tb(exc.__traceback__):
            if f.filename.startswith(os.path.join(REPO, "pypsa")):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def describe_exception(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    last = [f for f in tb if f.filename.startswith(REPO)] or tb
    loc = f"{os.path.relpath(last[-1].filename, REPO)}:{last[-1].lineno}" if last else "?"
    return f"{type(exc).__name__}: {str(exc)[:400]} (at {loc})"
