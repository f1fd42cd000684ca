#!/usr/bin/env python3
"""Checks that the tools are there and that the drivers build (warms the build cache)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
w = core.Work("setup")
try:
    for d in sorted(os.listdir(os.path.join(core.HARNESS, "cmd"))):
        core.build(w, "cmd/" + d)
    rc, o = core.run(["java", "-version"])
    assert rc == 0, o
finally:
    w.close()
print("ok")
