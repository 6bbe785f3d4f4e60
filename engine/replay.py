#!/usr/bin/env python3-vt
"""replay.py PROPERTY SEED CASE [CONFIG]: rerun one driver case against /repo's current tree"""
import sys, os, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cfront, native
prop, seed, case = sys.argv[1:4]
b = cfront.prepare(sys.argv[4] if len(sys.argv) > 4 else 'default')
try:
    d = native.build(b)
    rc = subprocess.run([d, prop, seed, case, '1', '60', '1'], env=native.ENV).returncode
finally:
    shutil.rmtree(b, ignore_errors=True)
sys.exit(rc)
