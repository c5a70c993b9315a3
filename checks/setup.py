#!/usr/bin/env python3
"""Prepares nothing but checks that the tools are there and that the specification parses."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = os.path.join(ROOT, "spec")
bad = 0
for f in sorted(os.listdir(spec)):
    if f.endswith(".tla"):
        p = subprocess.run(["tla-sany", f], cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = p.returncode == 0 and "Semantic errors" not in p.stdout
        print(f, "ok" if ok else p.stdout[-1500:])
        bad |= not ok
p = subprocess.run(["/opt/venv/bin/python", "-c", "import simpy, pyproj, shapely, pandas"])
sys.exit(1 if bad or p.returncode else 0)
