#!/usr/bin/env python3
"""python3-vt run.py C02 [--thorough] [--only=NAME] [-v] [--strict]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner

sys.exit(runner.main(sys.argv[1:]))
