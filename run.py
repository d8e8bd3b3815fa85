#!/usr/bin/env python3-vt
"""run.py <property id> [--thorough|--quick] [--seed N] [--sub NAME]
[--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import harness  # noqa: E402

if __name__ == '__main__':
  sys.exit(harness.main(sys.argv[1:]))
