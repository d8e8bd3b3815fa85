#!/usr/bin/env python3
"""Builds and runs all of the repository's gtest tests with the shims (they are
not part of the stable tests here; used to validate shims and fixes)."""
import os, sys, subprocess, concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
build.FLAVOURS['gtest'] = (build.CXX, [f for f in build.BASE if f not in ('-fno-exceptions', '-fno-rtti')] + ['-O0'])
tests = build._files(os.path.join(build.REPO, 'bant'), lambda f: f.endswith('_test.cc'))
bad = 0
for t in tests:
  rel = os.path.relpath(t, build.REPO)
  try:
    b = build.build_binary('t_' + os.path.basename(t)[:-3], 'gtest', [rel], link=['-lgtest', '-lgmock', '-lgtest_main', '-lgmock_main'])
  except build.BuildError as e:
    print(rel, 'BUILD', str(e)[-1500:]); bad += 1; continue
  p = subprocess.run([b], cwd='/tmp', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
  print(rel, 'ok' if p.returncode == 0 else 'FAILED')
  if p.returncode:
    bad += 1
    print(p.stdout[-3000:])
sys.exit(bad)
