#!/usr/bin/env python3
"""setup: nothing to build, only confirm that the analysers can start."""
import os, subprocess, sys
assert sys.version_info >= (3, 9)
r = subprocess.run(['/usr/bin/clang-18', '--version'], capture_output=True)
assert r.returncode == 0
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
