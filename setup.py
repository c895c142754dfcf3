#!/usr/bin/env python3
"""Builds the harness once, to see that everything that a check needs is there."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.core import Check

ck = Check("setup")
print(ck.build_base())
print(ck.build_nightly())
