#!/usr/bin/env python3
"""Framework setup: checks that the tools are there and pre-builds the patched Eigen copy. Nothing depends on its output."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, shutil
for t in ("java", core.CXX):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
core.eigen_dir()
os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
print("ok")
