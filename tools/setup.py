#!/usr/bin/env python3
"""Builds the harness (each check does so again if needed) and parses every specification."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check
check.build()
check.build("hbevy", "mbv-hbevy")
spec = check.SPEC
bad = 0
for f in sorted(os.listdir(spec)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", check.CP, "tla2sany.SANY", f], cwd=spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "*** Errors" in r.stdout or "Fatal" in r.stdout: print(f); print(r.stdout[-1500:]); bad += 1
print("setup:", "FAILED" if bad else "ok"); sys.exit(1 if bad else 0)
