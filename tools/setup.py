#!/usr/bin/env python3
"""Checks that the compilers and sanitizers the checks need are there and that the tree builds with them."""
import os, shutil, sys, tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import build

for t in ("clang", "gcc"):
    if not shutil.which(t):
        sys.exit("%s is missing" % t)
d = tempfile.mkdtemp(prefix="vf-setup-")
try:
    b = build.Builder(d)
    for k in ("asan", "msan"):
        b.harness("driver", k, ["driver.c"])
    b.harness("threads", "tsan", ["threads.c"])
    print("setup: the harness builds with ASan+UBSan, MSan and TSan")
finally:
    shutil.rmtree(d, ignore_errors=True)
