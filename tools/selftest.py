#!/usr/bin/env python3
"""setup: nothing has to be installed; every check builds what it needs from /repo. Confirms the tools are there."""
import shutil, sys
missing = [t for t in ('clang++', 'g++') if not shutil.which(t)]
if missing:
    sys.exit('missing: ' + ' '.join(missing))
print('ok')
