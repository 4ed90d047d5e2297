#!/usr/bin/env python3
"""Builds the harness once, and checks that the toolchain answers."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
for tool in ("java", "cargo"):
    if shutil.which(tool) is None:
        sys.exit(f"{tool} not found")
print(f"harness built in {vlib.build_harness():.0f} s")
