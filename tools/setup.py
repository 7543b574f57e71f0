#!/usr/bin/env python3
"""Checks that the tools are there.  Every check builds what it needs from /repo's current tree itself."""
import shutil
import sys

missing = [t for t in ("gcc", "g++", "bison", "flex", "valgrind") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + " ".join(missing))
print("ok")
