#!/usr/bin/env python3
"""Builds the harness and checks that every specification module parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build()
core.build(True)
for m in ("Trace", "LexMachine", "PegMachine"):
    r = subprocess.run(["java", "-cp", core.JARS, "tla2sany.SANY", m + ".tla"], cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or "*** Errors" in r.stdout: sys.exit(r.stdout)
print("ready")
