#!/usr/bin/env python3
"""Setup: only checks that what the checks need is there."""
import sys

sys.dont_write_bytecode = True
import z3  # noqa: F401
import six  # noqa: F401

print("z3", z3.get_version_string())
