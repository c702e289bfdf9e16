#!/usr/bin/env python3
"""replay.py FILE: run the trace of a VIOLATION again on the current tree of /repo and print what happens."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ctngv import *
d = json.load(open(sys.argv[1]))
sc = Scratch()
try:
    t = dict(d["trace"], id=0)
    print(json.dumps(replay(build_harness(sc, bool(t.get("points"))), sc, [t], shards=1)[0], indent=1))
finally:
    sc.clean()
