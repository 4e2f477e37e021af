"""Make Hypothesis importable next to PyPSA's own interpreter, offline.

PyPSA runs in /opt/venv, which has no Hypothesis.  The sandbox ships wheels of
Hypothesis and sortedcontainers; pure-python wheels are zip archives that can
be unpacked into a private directory and put on sys.path.
"""
import glob
import os
import sys
import zipfile

WHEELS = "/opt/veriftools/wheels"
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def prepare(target):
    """Unpack/link hypothesis into `target` (idempotent)."""
    os.makedirs(target, exist_ok=True)
    for pkg in ("hypothesis", "sortedcontainers"):
        if os.path.isdir(os.path.join(target, pkg)):
            continue
        tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
        found = sorted(w for w in glob.glob(os.path.join(WHEELS, pkg + "-*.whl")) if f"-{tag}-" in w or "-none-any" in w)
        if found:
            with zipfile.ZipFile(found[-1]) as z:
                z.extractall(target)
        elif os.path.isdir(os.path.join(SITE, pkg)):
            for f in glob.glob(os.path.join(SITE, "_hypothesis*")):
                dst = os.path.join(target, os.path.basename(f))
                if not os.path.exists(dst):
                    os.symlink(f, dst)
            os.symlink(os.path.join(SITE, pkg), os.path.join(target, pkg))
        else:
            raise RuntimeError(f"no {pkg} available offline")
    return target


def activate(target):
    if target not in sys.path:
        sys.path.append(target)
