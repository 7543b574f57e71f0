#!/usr/bin/env python3
"""check.py <property id> [--thorough] [--case I] [--n COUNT] [-v]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fw  # noqa: E402

if __name__ == "__main__":
    sys.stdout.flush()
    rc = fw.main(sys.argv[1], sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
