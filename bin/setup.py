#!/usr/bin/env python3
"""Builds the harness (both profiles, offline). The checks rebuild what they need."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, "harness", "target"), RUSTFLAGS="-Awarnings")
for p in ("dev", "plain"):
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--profile", p], cwd=os.path.join(ROOT, "harness"), env=env)
    if r.returncode:
        sys.exit(r.returncode)
