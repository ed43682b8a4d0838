#!/usr/bin/env python3
"""Builds the replay harnesses once (each check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from props import PROPS
os.makedirs(check.BUILD, exist_ok=True)
bad = 0
for h in sorted({c["harness"] for c in PROPS.values() if c.get("harness")}):
    ok, err, _ = check.build_harness(h)
    print(h, "built" if ok else err)
    bad |= not ok
sys.exit(1 if bad else 0)
