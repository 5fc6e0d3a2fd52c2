#!/usr/bin/env python3
"""nothing is compiled; checks that the interpreters and packages are there"""
import os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
subprocess.run([p, "-c", "import z3; print('z3', z3.get_version_string())"], check=True)
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, sympy, pandas, pyvista; print('numpy', numpy.__version__)"], check=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(H, d), exist_ok=True)
print("ok")
