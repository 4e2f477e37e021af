"""Check that what the checks need is there; nothing has to be built."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness import boot

with tempfile.TemporaryDirectory() as d:
    hyp = boot.prepare(os.path.join(d, "hyp"))
    code = f"import sys; sys.path.insert(0, {HERE!r}); from harness import boot; boot.activate({str(hyp)!r}); import hypothesis, linopy, highspy, scipy; print('hypothesis', hypothesis.__version__)"
    sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code], cwd=d))
