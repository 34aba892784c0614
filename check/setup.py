#!/usr/bin/env python3
"""Builds the harness programs once, so that the checks find them ready (they rebuild when /repo differs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
for h in sorted(os.listdir(os.path.join(lib.VERIF, "harness"))):
    if not os.path.exists(os.path.join(lib.VERIF, "harness", h, "Cargo.toml")):
        continue
    try:
        lib.build(h, "rel" if h == "giant" else "dev")
        print("built", h)
    except lib.ToolError as e:
        print(e)
