#!/usr/bin/env python3
"""Nothing to install: verifies the tools are there and removes stale build output."""
import shutil, subprocess, os, sys
for t in ("g++", "java"):
    if not shutil.which(t): print("missing", t); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "build"), exist_ok=True)
