#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
need = {}
for p in PROPS.values():
    for r in p["runs"]:
        need.setdefault(r["variant"], set()).add(r["harness"])
for v, hs in sorted(need.items()):
    B.build(v, sorted(hs))
