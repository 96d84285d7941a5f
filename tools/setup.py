#!/usr/bin/env python3
"""Checks that the toolchain the checks need is there and warms the build."""
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import nvbuild  # noqa: E402
for t in ("clang++-18", "mpirun", "java", "ar"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
try:
    print(nvbuild.build([]))
except nvbuild.BuildError as e:
    print(e)
    sys.exit(1)
