#!/usr/bin/env python3
"""Builds the drivers once, so that later checks only rebuild what changed in /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.overrides()
for fam in check.FAMILIES:
    b, s = check.build(fam)
    print(b, f"{s:.0f}s")
