#!/usr/bin/env python3
"""Builds the harness once (warms the Go build cache) and parses every specification."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ctngv import *
sc = Scratch()
try:
    build_harness(sc)
    build_harness(sc, True)
    for f in sorted(os.listdir(os.path.join(VERIF, "specs"))):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:" + COMMUNITY, "tla2sany.SANY", f], cwd=os.path.join(VERIF, "specs"), capture_output=True, text=True)
            if p.returncode != 0 or "rror" in p.stdout.split("Semantic")[-1][:0]:
                print(p.stdout[-2000:]); sys.exit(1)
    print("setup ok")
finally:
    sc.clean()
