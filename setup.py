#!/usr/bin/env python3
"""Builds the analyzer and warms the dependency builds of the fixture."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import build

print(build.build_analyzer())
for k in build.KINDS:
    print(build.dump(k))
import witness

print(witness.Lib().externs)
