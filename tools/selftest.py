#!/usr/bin/env python3
"""setup_cmd: nothing to build ahead (every check compiles from /repo's working
tree); verifies that the toolchain and the framework are usable."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mpv import checks, engine
for t in ('g++', 'clang++', 'python3'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
if not os.path.isdir(os.path.join(engine.REPO, 'include/boost/metaparse')):
    sys.exit('no metaparse in ' + engine.REPO)
print('ok: %d checks, %d configurations' % (len(checks.CHECKS), len(engine.CFGS)))
