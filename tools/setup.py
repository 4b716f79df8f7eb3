#!/usr/bin/env python3
"""Builds the symbolic executor; the checks do it themselves when it is missing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.engine())
build.pch(build.BC_FLAGS, "bc")
build.pch(build.NATIVE["plain"], "plain")
