#!/usr/bin/env python3-vt
"""setup: build the default binary once (every check builds what it needs anyway)"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build, poly
try:
    print(build.panda())
except build.BuildError as e:
    print(e)        # the checks report it
