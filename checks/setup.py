#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks use are there (everything is built per run)."""
import os
import shutil
import subprocess
import sys
import vlib

for t in ("g++", "java"):
    if not shutil.which(t):
        sys.exit("missing " + t)
for j in vlib.TLA_CP.split(":"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
sys.exit(subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode)
