#!/usr/bin/env python3
"""Checks that the tools are there and that every module of the specification parses."""
import os, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)],
                       cwd=os.path.join(HERE, "spec"), capture_output=True, text=True)
    if p.returncode:
        print(p.stdout[-2000:])
        bad = 1
    else:
        print("parsed", os.path.basename(f))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
sys.exit(bad)
