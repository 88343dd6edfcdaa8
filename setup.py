#!/usr/bin/env python3
"""Builds the compiler driver and warms the build of the crate's dependencies."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import build  # noqa: E402

print(build.driver())
try:
    print(build.dump("/repo"))
except build.BuildError as x:
    print(x)
