#!/usr/bin/env python3
"""Checks the tools the framework needs and warms the build cache (the checks build what they need themselves)."""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
missing = [t for t in ("g++", "clang++", "cmake", "make") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
from vp import build  # noqa: E402
print(build.exe())
