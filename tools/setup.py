#!/usr/bin/env python3
"""Check that the tools the checks need are here, and build the exploration core once."""
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check  # noqa: E402

for t in ('g++', 'cmake', 'ninja'):
    if not shutil.which(t):
        sys.exit('setup: %s is missing' % t)
d = os.path.join(check.BUILD, 'mc')
os.makedirs(d, exist_ok=True)
for c in check.CORE:
    check.compile_obj(os.path.join(check.VERIF, 'mc', c + '.cpp'), os.path.join(d, c + '.o'), check.CORE_FLAGS)
print('setup: ok')
