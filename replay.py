#!/usr/bin/env python3
"""replay.py <harness> <variant> <scenario> <case> [count]: rebuild one harness and run from one case."""
import os, shutil, subprocess, sys, tempfile
import run
h, v, s, c = sys.argv[1:5]
n = sys.argv[5] if len(sys.argv) > 5 else '1'
os.makedirs(run.HERE + '/build', exist_ok=True)
d = tempfile.mkdtemp(dir=run.HERE + '/build')
try:
    b = run.build({(h, v)}, d)[(h, v)]
    r = subprocess.run([b, '--scenario', s, '--seed', os.environ.get('VERIF_SEED', '1'), '--first', c, '--cases', n,
                        '--tier', os.environ.get('VERIF_TIER', 'quick')], env=dict(os.environ, VH_SCRATCH=d, TMPDIR=d, **run.ENV))
    print('exit', r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
