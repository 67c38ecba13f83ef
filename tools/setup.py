#!/usr/bin/env python3
"""Builds what the quick checks need."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, plan
try:
    for k, v in vbuild.build(plan.targets()).items(): print(k, v)
except vbuild.BuildError as e:
    print(e, file=sys.stderr); sys.exit(1)
