#!/usr/bin/env python3
"""replay.py HARNESS ENTRY VALUES [-p NAME=INT]... [--asan]: runs a recorded counterexample on the real code."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
a = [x for x in sys.argv[1:] if x != "--asan"]
exe = build.native(a[0], "asan" if "--asan" in sys.argv else "plain")
sys.exit(subprocess.run([exe] + a[1:]).returncode)
