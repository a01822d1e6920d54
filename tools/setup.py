#!/usr/bin/env python3
"""Checks compile everything they need from the current /repo; only verify the tools exist."""
import shutil, sys, os
missing = [t for t in ("clang++", "clang", "python3") if shutil.which(t) is None]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ready")
