#!/usr/bin/env python3
"""Checks that the tools the checks need are there; nothing else is prepared."""
import os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build, config
for t in ('g++', 'gcc'):
    assert shutil.which(t), t
assert os.path.exists(build.PY), build.PY
import shutil as s
s.rmtree(os.path.join(os.path.dirname(os.path.abspath(__file__)), '.build'), ignore_errors=True)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
print('ready: %d checks' % len(config.PROPS))
