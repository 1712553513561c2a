#!/usr/bin/env python3
"""Builds everything the checks use and compares the Java kernels with their TLA+ definitions."""
import os, shutil, sys, tempfile
import check as c

try:
    bins = c.prepare()
    os.makedirs(os.path.join(c.BUILD, "work"), exist_ok=True)
    work = tempfile.mkdtemp(dir=os.path.join(c.BUILD, "work"), prefix="setup-")
    try:
        r = c.tlc("KernelCheck", os.path.join(c.SPEC, "KernelCheck.cfg"), work, workers=1, timeout=600)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if "No error has been found" not in r.stdout:
        raise c.ToolError("KernelCheck\n" + r.stdout[-3000:])
    print("ready:", ", ".join(sorted(bins)))
except c.ToolError as e:
    print("setup failed:", e)
    sys.exit(2)
