#!/usr/bin/env python3
"""Nothing to build: check that the tools are there."""
import shutil
import subprocess
import sys

ok = True
for cmd in ([shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python", "-c", "import z3, sympy, numpy"], ["/opt/venv/bin/python", "-c", "import numpy, scipy, numba"]):
    ok = subprocess.call(cmd) == 0 and ok
sys.exit(0 if ok else 1)
