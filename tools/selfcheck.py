#!/usr/bin/env python3
"""Setup: nothing is built (the analyser is plain Python); check that every driver file parses."""
import ast
import glob
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for f in sorted(glob.glob(os.path.join(root, 'drivers', '*.py')) + glob.glob(os.path.join(root, 'sa', '*.py'))):
    try:
        ast.parse(open(f).read(), f)
    except SyntaxError as e:
        print(e)
        bad = 1
print('python', sys.version.split()[0])
sys.exit(bad)
