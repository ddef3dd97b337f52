#!/usr/bin/env python3
"""Checks that the tools the monitors need are here; every check builds what it needs itself."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
for t in ("go", "gcc", "python3"):
    if not shutil.which(t):
        print("missing", t); sys.exit(1)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print(subprocess.run(["go", "version"], capture_output=True, text=True).stdout.strip())
