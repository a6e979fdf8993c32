#!/usr/bin/env python3
"""Builds everything once: shows that the framework builds from the committed files."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
import vlib

try:
    vlib.build(sorted({t for s in checks.CHECKS.values() for t in s.targets}))
except vlib.CheckError as e:
    print(e, file=sys.stderr)
    sys.exit(1)
