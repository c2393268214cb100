#!/usr/bin/env python3
"""Warm the object cache (the engine itself); every check can also build everything on its own."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, ".build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for t in ("clang++", "z3"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode:
        print("missing tool " + t)
        sys.exit(1)
sys.path.insert(0, os.path.join(V, "tools"))
import run  # noqa: E402
b = run.Build("C14")
exe, err = b.symbolic()
print("engine built" if exe else err[-3000:])
sys.exit(0)
